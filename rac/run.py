"""Runtime contract checks: run.py PROP --seed S --seconds T --out FILE [--consts FILE] | --replay FILE"""
import sys, os, json, time, io, signal, argparse, contextlib, traceback, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
import common


class Hang(BaseException): pass
def on_alarm(*a): raise Hang()


def one(mod, case, limit=10.0):
    """None, or what is wrong (oracle verdict, exception or no result in time)"""
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return mod.check(case)
    except Hang: return 'no result within %g s of CPU time' % limit
    except RecursionError: raise
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        inside = [f for f in tb if 'gopher_render' in f.filename or f.filename.endswith('textwrap.py')]
        if not inside:                               # our own code, or a change of the interface it uses
            if isinstance(x, (AttributeError, TypeError, ImportError)): return None
            raise
        return 'raises %s: %s (%s line %d)' % (type(x).__name__, x, os.path.basename(inside[-1].filename), inside[-1].lineno)
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--out'); ap.add_argument('--consts'); ap.add_argument('--replay'); ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--n', type=int, default=10 ** 9)
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    if a.replay:
        case = json.load(open(a.replay))['case']
        r = one(mod, case, 60)
        print('case:', json.dumps(case)); print('result:', r or 'holds')
        sys.exit(1 if r else 0)
    extra = json.load(open(a.consts)) if a.consts else []
    consts = common.Consts(extra)
    t0 = time.time()
    seen, samples, bad, n, errors = set(), [], [], 0, []
    def take(case):
        nonlocal n
        case = json.loads(json.dumps(case))          # what a replay file holds
        n += 1
        try: r = one(mod, case)
        except Exception as x:
            if len(errors) < 5: errors.append('%s: %s' % (type(x).__name__, traceback.format_exc()[-700:]))
            return
        k = json.dumps(case, sort_keys=True)
        if not getattr(mod, 'trivial', lambda c: False)(case): seen.add(hash(k))
        if len(samples) < 3 and n % 7 == 1: samples.append(case)
        if r is not None: bad.append((len(k), r, case))
    if a.shard == 0:
        for c in getattr(mod, 'cases', lambda: [])(): take(c)
    stop = t0 + a.seconds
    k = 0
    while time.time() < stop and n < a.n:
        g = common.Gen(a.seed * 1000003 + a.shard * 7919 + k * 31, consts)
        k += 1
        take(mod.gen(g))
        if bad: stop = min(stop, time.time() + (3 if len(bad) < 200 else 0))    # look for a smaller one for a while
    bad.sort(key=lambda b: b[0])
    out = dict(evaluations=n, distinct=len(seen), samples=samples, errors=errors, seconds=round(time.time() - t0, 2),
               violations=[dict(what=str(r)[:2000], case=c) for _, r, c in bad[:5]], rule=getattr(mod, 'RULE', ''))
    s = json.dumps(out)
    if a.out: open(a.out, 'w').write(s)
    else: print(s[:6000])

main()
