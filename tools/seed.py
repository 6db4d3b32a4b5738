#!/usr/bin/env python3
"""seed.py make [ID..]   write seeded/<id>/ from tools/seeds.py and confirm each in a scratch copy
   seed.py check [ID..]  run the check of each one's property against a scratch copy with it applied
   seed.py quiet FILE    apply the patches of a directory (behaviour kept) and run the checks: expected quiet
Development only: no check uses this."""
import sys, os, subprocess, shutil, tempfile, json, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    sh('git -C /repo archive HEAD | tar x -C %s' % d, '/')
    sh('git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base', d)
    return d


def tests(d):
    r = sh('env PYTHONPATH=%s PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 %s /opt/vp/run_pytest.py -q -x -p no:cacheprovider --assert=plain tests 2>&1 | tail -3' % (d, PY), d)
    return '48 passed' in r.stdout, r.stdout


DEMO = 'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def make(s):
    d = copy()
    out = os.path.join(V, 'seeded', s['id'])
    try:
        base_lines = set(l.strip() for l in sh('git -C /repo show $(git -C /repo rev-list --max-parents=0 HEAD | tail -1):%s' % s['file'], '/').stdout.split('\n'))
        p = os.path.join(d, s['file'])
        t = open(p).read()
        for a, b in s['edits']:
            if t.count(a) != 1: return s['id'], 'text occurs %d times: %r' % (t.count(a), a[:80])
            t = t.replace(a, b)
        open(p, 'w').write(t)
        diff = sh('git diff', d).stdout
        rem = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l in base_lines and l for l in rem): print(s['id'], 'WARNING: no line of the original repository changes')
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'].strip('\n') + '\n')
        open(out + '/demo.sh', 'w').write(DEMO)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        ok, o = tests(d)
        if not ok: return s['id'], 'tests fail: ' + o[-300:]
        r = sh('bash %s/demo.sh' % out, d, timeout=300)
        if r.returncode == 0: return s['id'], 'demo passes with the change'
        sh('git checkout -q -- .', d)
        r2 = sh('bash %s/demo.sh' % out, d, timeout=300)
        if r2.returncode != 0: return s['id'], 'demo fails without the change: ' + (r2.stdout + r2.stderr)[-400:]
        return s['id'], 'ok (%s)' % (r.stdout + r.stderr).strip().split('\n')[-1][:150]
    finally: shutil.rmtree(d)


def run_check(id, patch, prop, tmo=900):
    d = copy()
    try:
        r = sh('git apply %s' % patch, d)
        if r.returncode: return id, prop, 'patch does not apply', 0
        t = time.time()
        r = sh('VP_REPO=%s VP_EVIDENCE=%s/ev python3-vt check.py %s' % (d, d, prop), V, timeout=tmo)
        line = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        return id, prop, '%d %s %s' % (r.returncode, line[:1], '' if r.returncode in (0, 1) else (r.stdout + r.stderr)[-300:]), round(time.time() - t)
    finally: shutil.rmtree(d)


def main():
    if sys.argv[1] == 'make':
        import seeds
        todo = [s for s in seeds.SEEDS if len(sys.argv) < 3 or any(s['id'].startswith(a) for a in sys.argv[2:])]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, todo): print(*r, flush=True)
    elif sys.argv[1] == 'check':
        for id in sorted(os.listdir(os.path.join(V, 'seeded'))):
            if len(sys.argv) > 2 and not any(id.startswith(a) for a in sys.argv[2:]): continue
            print(*run_check(id, os.path.join(V, 'seeded', id, 'patch.diff'), json.load(open(os.path.join(V, 'seeded', id, 'meta.json')))['property']), flush=True)
    elif sys.argv[1] == 'quiet':
        props = sys.argv[3:]
        for f in sorted(os.listdir(sys.argv[2])):
            if f.endswith('.diff'):
                ps = props or re.findall(r'C\d\d', f)
                for p in ps: print(*run_check(f, os.path.join(os.path.abspath(sys.argv[2]), f), p), flush=True)
if __name__ == '__main__': main()
