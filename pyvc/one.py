"""python3-vt -m pyvc.one PROP INDEX OUT: run one contract, write its result."""
import sys, os, json, importlib, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
from pyvc import contract as C


def main():
    prop, k, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    importlib.import_module('contracts.' + prop.lower())
    c = C.REGISTRY[prop][k]
    r = C.run_contract(c, os.environ.get('VP_REPO', '/repo'))
    d = dict(r.__dict__)
    tmp = out + '.tmp'
    json.dump(d, open(tmp, 'w'))
    os.rename(tmp, out)

t = threading.Thread(target=main); t.start(); t.join()
