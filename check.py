"""check.py PROP: decide one property on the current tree of /repo.

1. Every contract of the property (contracts/<prop>.py) is checked by the deductive verifier pyvc on
   the current source: the obligations are discharged by z3, without bounds.
2. The same property is evaluated at run time on generated inputs (rac/<prop>.py), which turns a
   failing obligation into a failing input and stands in, labelled bounded, for what the verifier
   cannot decide.
"""
import sys, os, json, time, subprocess, tempfile, re, shutil, signal, importlib, resource
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
RACPY = os.environ.get('VP_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(RACPY): RACPY = sys.executable
CORES = 8


def limits(): resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Jobs:
    """processes with a time limit, at most n at a time"""
    def __init__(self, n): self.n, self.queue, self.running = n, [], []
    def add(self, cmd, limit, **env): self.queue.append((cmd, limit, env))
    def start(self):
        while self.queue and len(self.running) < self.n:
            cmd, limit, env = self.queue.pop(0)
            p = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if os.environ.get('VP_DEBUG') is None else None,
                                 env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **env), preexec_fn=limits, start_new_session=True)
            self.running.append((p, time.time() + limit))
    def poll(self):
        self.start()
        for j in list(self.running):
            p, end = j
            if p.poll() is not None: self.running.remove(j)
            elif time.time() > end: kill(p); self.running.remove(j)
        return bool(self.queue or self.running)
    def wait(self, stop=lambda: False):
        while self.poll():
            if stop(): self.kill(); return
            time.sleep(0.05)
    def kill(self):
        self.queue = []
        for p, _ in self.running: kill(p)
        self.running = []


def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()


def load(path):
    try: return json.load(open(path))
    except (OSError, ValueError): return None


def known():
    """cases of open findings: property=<id> case=<json> [what]; 'fixed:' lines suppress nothing"""
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'open: property=(\S+) case=(.*)', l)
        if m: out.append((m.group(1), json.dumps(json.loads(m.group(2)), sort_keys=True)))
    return out


def constants(obls):
    """values in the counter-models, to be tried at run time"""
    out = []
    for o in obls:
        for s in [o.get('model') or '', o.get('detail') or '']:
            for x in re.findall(r'"((?:[^"\\]|\\.){0,60})"', s):
                x = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), x)
                out.append(x)
            out += [int(x) for x in re.findall(r'(?<![\w!.])-?\d{1,6}(?![\w!.])', s)]
    return list(dict.fromkeys(out))[:200]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from pyvc import contract as C
    importlib.import_module('contracts.' + prop.lower())
    info = importlib.import_module('contracts.' + prop.lower())
    cs = C.REGISTRY[prop]
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        secs = 18 if tier == 'quick' else 200
        shards = 2 if tier == 'quick' else 4
        rac = Jobs(shards)
        def rac_jobs(tag, secs, n, consts=None):
            for k in range(n):
                cmd = [RACPY, 'rac/run.py', prop, '--seed', str(seed), '--seconds', str(secs), '--shard', str(k), '--out', '%s/rac-%s-%d.json' % (tmp, tag, k)]
                if consts: cmd += ['--consts', consts]
                rac.add(cmd, secs + 60)
        rac_jobs('a', secs, shards)
        pv = Jobs(CORES - shards)
        scale = float(os.environ.get('VP_SCALE', '3'))
        for k in sorted(range(len(cs)), key=lambda k: -cs[k].budget):
            pv.add([sys.executable, '-m', 'pyvc.one', prop, str(k), '%s/c%d.json' % (tmp, k)], min(cs[k].budget * scale + 20, 400), VP_SCALE=str(scale))
        def rac_results(): return [x for x in (load(os.path.join(tmp, f)) for f in sorted(os.listdir(tmp)) if f.startswith('rac-')) if x]
        kn = known()
        def violations():
            out, seen = [], []
            for x in rac_results():
                for v in x['violations']:
                    key = json.dumps(v['case'], sort_keys=True)
                    if (prop, key) in kn: seen.append(v)
                    else: out.append(v)
            out.sort(key=lambda v: len(json.dumps(v['case'])))
            return out, seen
        end = None
        while rac.poll() | pv.poll():
            time.sleep(0.05)
            if end is None and not rac.running and violations()[0]: end = time.time() + 40      # a failing input is known: name the failing obligations if that is quick
            if end and time.time() > end: pv.kill()
        results = []
        for k, c in enumerate(cs):
            r = load('%s/c%d.json' % (tmp, k))
            if r is None: r = dict(prop=prop, name=c.name, obligations=[], undecided='the verifier gave no result in time', executed=[], stubbed=[], assumed=[], solver_time=0, time=0, queries=0, paths=0)
            results.append(r)
        obls = [o for r in results for o in r['obligations'] if o['status'] != 'cover']
        failed = [o for o in obls if o['status'] in ('refuted', 'unknown')]
        open_ = [o for o in obls if o['status'] == 'timeout']
        undecided = [(r['name'], r['undecided']) for r in results if r['undecided']]
        vs, seen = violations()
        if not vs and (failed or open_ or undecided):
            # look harder, with the values of the counter-models
            cf = os.path.join(tmp, 'consts.json')
            json.dump(constants(failed + open_), open(cf, 'w'))
            seed += 7777
            rac.n = CORES
            rac_jobs('b', 25 if failed or open_ or undecided else 0, CORES, cf)
            rac.wait()
            seed -= 7777
            vs, seen = violations()
        rr = rac_results()
        code = report(prop, tier, seed, info, results, obls, failed, open_, undecided, rr, vs, seen, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def report(prop, tier, seed, info, results, obls, failed, open_, undecided, rr, vs, seen, t0):
    discharged = [o for o in obls if o['status'] == 'discharged']
    backends = {}
    for o in discharged: backends[o.get('backend') or 'z3'] = backends.get(o.get('backend') or 'z3', 0) + 1
    executed = sorted({f for r in results for f in r['executed'] if f.startswith('gopher_render') or f.startswith('textwrap')})
    assumed = sorted({a for r in results for a in r['assumed']})
    stubbed = sorted({s for r in results for s in r['stubbed']})
    import z3
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=len(obls), discharged=len(discharged),
            checker_cmd='python3-vt check.py %s' % prop,
            trusted_base=['pyvc, the verifier in /verif/pyvc: its semantics of Python and its verification conditions', 'z3 %s' % z3.get_version_string(),
                          'the specifications in /verif/contracts/%s.py' % prop.lower()] + getattr(info, 'TRUSTED', []) + assumed,
            backends=backends,
            contracts=[dict(name=r['name'], obligations=sum(o['status'] != 'cover' for o in r['obligations']), discharged=sum(o['status'] == 'discharged' for o in r['obligations']),
                            paths=r['paths'], queries=r['queries'], solver_s=round(r['solver_time'], 2), s=round(r['time'], 2), undecided=r['undecided']) for r in results],
            functions_verified=executed,
            callee_contracts_used=stubbed,
            solver_s=round(sum(r['solver_time'] for r in results), 2),
            undecided=['%s: %s' % u for u in undecided],
            failed=[o['name'] for o in failed], timeouts=[o['name'] for o in open_],
            bounded=dict(note='run-time evaluation of the same property on generated inputs; bounded, not counted as proved', evaluations=sum(x['evaluations'] for x in rr),
                         distinct_nontrivial=sum(x['distinct'] for x in rr), rule=rr[0]['rule'] if rr else '', samples=rr[0]['samples'][:2] if rr else [], seconds=round(sum(x['seconds'] for x in rr), 1),
                         errors=[e for x in rr for e in x['errors']][:3], scope=getattr(info, 'BOUNDED', '')),
        ),
        assumptions=getattr(info, 'ASSUMPTIONS', []) + assumed,
        wall_s=round(time.time() - t0, 2), violations=0)
    if failed or open_ or undecided:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = 'Not everything is proved on this tree: %d of %d obligations are discharged; undecided contracts, failed obligations and timeouts are listed. For those, this run rests on the bounded run-time check.' % (len(discharged), len(obls))
    code = 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', prop + '.json')
    for v in seen: print('KNOWN-FINDING: property=%s %s' % (prop, str(v['what'])[:300].replace('\n', ' ')))
    if vs:
        json.dump(dict(property=prop, case=vs[0]['case'], what=vs[0]['what'], replay='%s rac/run.py %s --replay %s' % (RACPY, prop, path),
                       failed_obligations=[dict(name=o['name'], status=o['status'], detail=o['detail'], model=o['model']) for o in failed][:5], others=vs[1:4]), open(path, 'w'), indent=1)
        print('failing input: %s' % json.dumps(vs[0]['case'])[:1500])
        print('what fails: %s' % str(vs[0]['what'])[:1500])
        for o in failed[:3]: print('failed obligation: %s (%s)' % (o['name'], o['status']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        ev['violations'] = len(vs); code = 1
    elif failed:
        json.dump(dict(property=prop, failed_obligations=[dict(name=o['name'], status=o['status'], detail=o['detail'], model=o['model']) for o in failed][:10]), open(path, 'w'), indent=1)
        for o in failed[:5]: print('failed obligation: %s (%s)\n    %s' % (o['name'], o['status'], o['detail'][:1200]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        ev['violations'] = len(failed); code = 1
    else:
        print('%s: %d of %d obligations discharged in %d contracts, %d run-time evaluations, %.0f s' % (prop, len(discharged), len(obls), len(results), sum(x['evaluations'] for x in rr), time.time() - t0))
        for n, u in undecided: print('undecided, bounded check only: %s: %s' % (n, u))
        for o in open_: print('undecided, bounded check only: %s: time limit' % o['name'])
    for e in [e for x in rr for e in x['errors']][:2]: print('note: error of the run-time check: %s' % e)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.environ.get('VP_EVIDENCE', os.path.join(HERE, 'evidence')), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get('VP_EVIDENCE', os.path.join(HERE, 'evidence')), prop + '.json'), 'w'), indent=1)
    return code


main()
