"""python3-vt -m pyvc.run PROP [name-part]: run contracts verbosely (development)."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import contract as C

def main():
    prop = sys.argv[1]
    importlib.import_module('contracts.' + prop.lower())
    root = os.environ.get('VP_REPO', '/repo')
    for c in C.REGISTRY[prop]:
        if len(sys.argv) > 2 and sys.argv[2] not in c.name: continue
        r = C.run_contract(c, root, verbose=True)
        bad = [o for o in r.obligations if o['status'] not in ('discharged', 'cover')]
        print('%s: %s: %d obligations, %d not discharged, %.1fs (%.1fs solver, %d queries, %d paths) %s' % (prop, c.name, len(r.obligations), len(bad), r.time, r.solver_time, r.queries, r.paths, 'UNDECIDED ' + r.undecided if r.undecided else ''))
        for o in bad[:6]: print('   ', o['name'], o['status'], o['detail'][:1200], o['model'])
        if '-v' in sys.argv: print(r.executed, r.stubbed, r.assumed)
if __name__ == "__main__": main()
