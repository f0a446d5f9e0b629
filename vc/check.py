"""check PROPERTY: run all scenarios of a property, write the evidence, report violations"""
import sys, os, time, json, pickle, signal, importlib, traceback, select, fnmatch, glob, random, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('MPLBACKEND', 'Agg')
import warnings
warnings.simplefilter('ignore')

CONTRACTS = {
    'M01': ['models'], 'M02': ['models'], 'M03': ['compound'], 'M04': ['bookkeeping'], 'M05': ['fixed'], 'M06': ['kernels'],
    'B01': ['priors'], 'B02': ['priors'], 'L01': ['errors'], 'L02': ['errors'], 'L03': ['problems'],
    'F01': ['fitters'], 'F02': ['fitters'], 'F03': ['iterfit'], 'S01': ['engines'], 'S02': ['orders'], 'S03': ['nested'], 'S04': ['walkers'],
    'D01': ['dynamic'], 'D02': ['trees'], 'D03': ['splines'], 'U01': ['frames'], 'U02': ['utils'],
}
TRUSTED = [
    'vc/ (this verifier): symbolic execution of the Python source through object arrays, normal form of terms, case splitting',
    'vc/npshim.py, vc/garr.py: the meaning given to numpy, math and scipy.special functions (library contracts on dependencies; each is compared with the library on sampled values by the concrete reading of the same scenarios)',
    'identity of two normal forms decided by evaluation at random points of a field with about 2^127 elements (error probability below 2^-100 per query)',
    'z3 4.x (python bindings) for path feasibility and inequalities',
    'floating point numbers read as real numbers, machine integers as integers',
    'CPython semantics for control flow, attribute access and calls (the code itself is executed)',
]


def load(prop):
    from vc import prove
    for m in CONTRACTS[prop]:
        importlib.import_module('contracts.' + m)
    return prove.SCEN.get(prop, [])


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def iskn(kn, prop, sc, label):
    for k in kn:
        if k.get('status') == 'fixed':
            continue
        if k['property'] == prop and fnmatch.fnmatchcase(sc, k['scenario']) and fnmatch.fnmatchcase(label, k['label']):
            return k
    return None


def child(sc, seed, tier, wfd):
    from vc import prove, sym
    out = dict(obs=[], npaths=0, reached=0, funcs=[], stime=0.0, real=[], nreal=0, nchecks=0, skipreal=0, fpc=0, fpt=0.0)
    t00 = time.time()
    try:
        sys.setrecursionlimit(20000)
        if sc.mode in ('proof', 'unrolled'):
            obs, npaths, reached, funcs, t = prove.run_symbolic(sc, seed)
            out.update(npaths=npaths, reached=reached, funcs=funcs, stime=t)
            out['stats'] = dict(sym.STATS)
            lst = []
            nwit = 0
            for o in obs:
                d = dict(label=o.label, status=o.status, by=o.by, time=round(o.time, 4))
                if o.status not in ('proved', 'skipped'):
                    d['detail'] = str(o.detail)[:3000]
                    # replay on the real code
                    wit = None
                    if nwit < 6:
                        wit = replay_search(sc, o, seed)
                        nwit += 1
                    d['witness'] = wit
                lst.append(d)
            out['obs'] = lst
        n = sc.nreal * (12 if tier == 'thorough' else 1)
        ok = 0
        tr = time.time()
        lim = (25 if tier == 'quick' else 240)
        for k in range(n * 3):
            if ok >= n or time.time() - tr > lim:
                break
            s = seed * 100003 + k * 7919 + (sum(map(ord, sc.name)) % 1000)
            ctx = prove.run_real(sc, s)
            if ctx is None:
                out['skipreal'] += 1
                continue
            ok += 1
            out['nchecks'] += ctx.checks
            if ok == 1:
                out['sample'] = dict(seed=s, env=short(ctx.used), choices=ctx.choices[:12])
            for lab, det in ctx.fails:
                if not any(r['label'] == lab for r in out['real']) and len(out['real']) < 12:
                    out['real'].append(dict(label=lab, detail=det[:1500], seed=s, env=ctx.used, choices=ctx.choices))
        out['nreal'] = ok
    except BaseException as ex:
        out['crash'] = ''.join(traceback.format_exception(ex))[-3000:]
    out['wall'] = time.time() - t00
    try:
        b = pickle.dumps(out)
    except Exception as ex:
        b = pickle.dumps(dict(crash='answer cannot be sent: %r' % ex))
    with os.fdopen(wfd, 'wb') as f:
        f.write(b)


def short(env):
    r = {}
    for k, v in list(env.items())[:12]:
        r[k] = v[:4] if isinstance(v, list) else v
    return r


def replay_search(sc, o, seed):
    """numbers on which the untouched code breaks the same scenario"""
    from vc import prove
    tries = []
    c = o.cand
    if c:
        tries.append((c.get('env'), c.get('choices')))
        if c.get('choices'):
            for k in range(6):
                tries.append((None, c.get('choices')))
    for k in range(12):
        tries.append((None, None))
    t0 = time.time()
    for k, (env, ch) in enumerate(tries):
        if time.time() - t0 > 15:
            break
        s = seed * 7 + k
        ctx = prove.run_real(sc, s, env, ch)
        if ctx is None or not ctx.fails:
            continue
        base = o.label.split('[')[0]
        lab, det = ctx.fails[0]
        for l2, d2 in ctx.fails:
            if l2.split('[')[0] == base:
                lab, det = l2, d2
                break
        return dict(label=lab, detail=det[:1500], seed=s, env=ctx.used, choices=ctx.choices, same=lab.split('[')[0] == base)
    return None


def preload():
    """everything a scenario may need, before forking; what does not load is reported by the scenario that needs it"""
    from vc import loader, prove
    import z3
    for dp, dn, fns in os.walk(loader.SRC):
        for f in sorted(fns):
            if not f.endswith('.py') or f.startswith('__'):
                continue
            m = os.path.relpath(os.path.join(dp, f), loader.SRC)[:-3].replace('/', '.')
            for imp in (loader.realmod, loader.symmod):
                try:
                    imp(m)
                except BaseException:
                    pass


def run(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    scs = load(prop)
    if only:
        scs = [s for s in scs if fnmatch.fnmatchcase(s.name, only)]
    preload()
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), 'duplicate scenario names: %s' % [n for n in names if names.count(n) > 1]
    ncpu = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    order = list(range(len(scs)))
    try:
        tms = json.load(open(os.path.join(VERIF, 'tools', 'times.json'))).get(prop, {})   # only decides the order
    except Exception:
        tms = {}
    order.sort(key=lambda i: (-tms.get(scs[i].name, 3.0), i))
    hard = float(os.environ.get('VERIF_HARD', 620))
    kn = known()
    res = {}
    act = {}
    stop = None                                    # a violation with its input was found: the rest gets a little more time
    while order or act:
        while order and len(act) < ncpu:
            i = order.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not verbose:
                        os.dup2(dn, 2)
                    child(scs[i], seed, tier, w)
                finally:
                    os._exit(0)
            os.close(w)
            act[r] = (i, pid, time.time(), [])
        rd, _, _ = select.select(list(act), [], [], 0.5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                act[fd][3].append(b)
                continue
            os.close(fd)
            i, pid, ts, chunks = act.pop(fd)
            os.waitpid(pid, 0)
            try:
                res[i] = pickle.loads(b''.join(chunks))
            except Exception:
                res[i] = dict(crash='worker ended without an answer')
            if stop is None and tier == 'quick' and witnessed(kn, prop, scs[i].name, res[i]):
                stop = time.time() + float(os.environ.get('VERIF_AFTER', 25))
            if verbose:
                print('  done', scs[i].name, round(time.time() - ts, 1), flush=True)
        now = time.time()
        for fd, (i, pid, ts, ch) in list(act.items()):
            lim = (scs[i].timeout * 2 + 60) * (1 if tier == 'quick' else 4)
            late = stop is not None and now > stop
            if late or now - ts > lim or (tier == 'quick' and now - t0 > hard):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del act[fd]
                res[i] = dict(stopped=True) if late else dict(crash='time limit of %d s' % (now - ts))
        if stop is not None and now > stop:
            for i in order:
                res[i] = dict(stopped=True)
            order = []
        if tier == 'quick' and time.time() - t0 > hard:
            for i in order:
                res[i] = dict(crash='not started: time limit of the check')
            order = []
    return scs, res, time.time() - t0


def witnessed(kn, prop, name, r):
    return any(iskn(kn, prop, name, f['label']) is None for f in r.get('real', [])) or any(
        o['status'] not in ('proved', 'skipped') and o.get('witness') and iskn(kn, prop, name, o['label']) is None for o in r.get('obs', []))


def report(prop, tier, seed, scs, res, wall, verbose=False):
    kn = known()
    viol = []          # (scenario, label, witness or None, detail)
    knownhit = {}
    nunr = nob = ndis = nskip = nbounded = nchk = 0
    funcs = set()
    by = {}
    labels = set()
    solver = 0.0
    paths = 0
    samples = []
    scinfo = []
    for i, sc in enumerate(scs):
        r = res[i]
        if r.get('stopped'):
            scinfo.append(dict(scenario=sc.name, mode=sc.mode, stopped='after the violation reported'))
            continue
        if 'crash' in r and r['crash']:
            viol.append((sc.name, 'translation', None, r['crash']))
            continue
        funcs |= set(r['funcs'])
        paths += r['reached']
        nbounded += r['nreal']
        nchk += r['nchecks']
        p = d = 0
        for o in r['obs']:
            k = iskn(kn, prop, sc.name, o['label'])
            if o['status'] == 'skipped':
                nskip += 1
                continue
            if k is not None and o['status'] != 'proved':
                knownhit[k['id']] = k
                continue
            p += 1
            labels.add((sc.name, o['label']))
            if o['status'] == 'proved':
                d += 1
                by[o['by']] = by.get(o['by'], 0) + 1
                solver += o['time']
            else:
                viol.append((sc.name, o['label'], o.get('witness'), '%s by %s\n%s' % (o['status'], o['by'], o.get('detail', ''))))
        if sc.mode == 'proof':
            nob += p
            ndis += d
        else:
            nunr += p
        if sc.mode in ('proof', 'unrolled') and (p == 0 or r['reached'] == 0) and not any(iskn(kn, prop, sc.name, o['label']) for o in r['obs']):
            viol.append((sc.name, 'vacuity guard', None, 'no obligation was generated (paths reached: %d)' % r['reached']))
        for f in r['real']:
            k = iskn(kn, prop, sc.name, f['label'])
            if k is not None:
                knownhit[k['id']] = k
                continue
            viol.append((sc.name, f['label'], f, f['detail']))
        if r['nreal'] == 0 and sc.nreal > 0:
            viol.append((sc.name, 'vacuity guard', None, 'no concrete run met the precondition'))
        if 'sample' in r and len(samples) < 6:
            samples.append(dict(scenario=sc.name, **r['sample']))
        scinfo.append(dict(scenario=sc.name, mode=sc.mode, obligations=p, discharged=d, paths=r['reached'], concrete_runs=r['nreal'], wall_s=round(r['wall'], 2), **({'note': sc.note} if sc.note else {})))
    # violations with a witness first
    viol.sort(key=lambda v: v[2] is None)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, 'replays', prop + '-*.json')):
        os.remove(f)
    lines = []
    seen = set()
    for n, (s, l, w, det) in enumerate(viol):
        if (s, l.split('[')[0], w is None) in seen or len(lines) >= int(os.environ.get("VERIF_MAXV", 12)):
            continue
        if w is None and any(q[0] == s and not q[2] for q in seen):
            continue
        seen.add((s, l.split('[')[0], w is None))
        path = os.path.join(VERIF, 'replays', '%s-%02d.json' % (prop, len(lines)))
        rec = dict(property=prop, scenario=s, obligation=l, detail=det)
        if w:
            rec.update(witness=dict(seed=w['seed'], env=w['env'], choices=w['choices']), observed=w['label'] + ': ' + w['detail'],
                       command='%s/check %s --replay %s' % (VERIF, prop, path))
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        print('%s / %s: %s' % (s, l, (w['detail'] if w else det).strip().split('\n')[0][:300]))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if w else ' no-failing-input-found'))
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines:
        print(l)
    from vc import loader
    modes = set(sc.mode for sc in scs)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if 'proof' in modes else 'exploration', wall_s=round(wall, 2), violations=len(lines))
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='/verif/check %s --tier %s' % (prop, tier), trusted_base=TRUSTED,
               distinct_obligations=len(labels), skipped_measure_zero=nskip, backends=by, solver_s=round(solver, 2), paths=paths,
               functions_under_contract=sorted(funcs), functions_count=len(funcs),
               bounded_concrete_runs=nbounded, bounded_concrete_checks=nchk,
               bounded_unrolled_obligations=nunr,
               bounded_scenarios=[sc.name for sc in scs if sc.mode != 'proof'],
               evaluations=nbounded, distinct_nontrivial=nbounded,
               rule='bounded part: every scenario is also run on the untouched code with numbers drawn from VERIF_SEED within the precondition; a run that misses the precondition is not counted',
               samples=samples, source_hash=loader.srchash(), scenarios=scinfo, known_findings=[k['id'] for k in knownhit.values()])
    ev['coverage'] = cov
    ev['assumptions'] = sorted(set(s for sc in scs for s in ([sc.note] if sc.note else [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d scenarios, %d obligations, %d discharged, %d paths, %d functions, %d concrete runs (%d checks), %.1f s, %d violation(s)' % (
        prop, len(scs), nob, ndis, paths, len(funcs), nbounded, nchk, wall, len(lines)))
    return 1 if lines else 0


def replay(prop, path):
    from vc import prove
    rec = json.load(open(path))
    for sc in load(prop):
        if sc.name == rec['scenario']:
            w = rec.get('witness')
            if not w:
                print(rec['detail'])
                return 0
            ctx = prove.run_real(sc, w['seed'], w['env'], w['choices'])
            for l, d in (ctx.fails if ctx else []):
                print(l, ':', d)
            return 1 if ctx and ctx.fails else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        import vc.prove
        return
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--only' in a:
        only = a[a.index('--only') + 1]
    verbose = '-v' in a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--replay' in a:
        sys.exit(replay(prop, a[a.index('--replay') + 1]))
    scs, res, wall = run(prop, tier, seed, only, verbose)
    if verbose:
        for i, sc in enumerate(scs):
            r = res[i]
            print('---', sc.name, {k: r.get(k) for k in ('npaths', 'reached', 'stime', 'nreal', 'skipreal', 'nchecks', 'wall')})
            if r.get('crash'):
                print(r['crash'])
            cnt = {}
            for o in r.get('obs', []):
                cnt[(o['status'], o['by'])] = cnt.get((o['status'], o['by']), 0) + 1
                if o['status'] not in ('proved', 'skipped') and cnt[(o['status'], o['by'])] <= 3:
                    print('   ', o['label'], o['status'], o['by'], o.get('detail', '')[:1200])
                    w = o.get('witness')
                    print('      witness:', (w['label'], w['detail'][:300], short(w['env']), w['choices'][:10]) if w else None)
            print('   ', cnt)
            for f in r.get('real', []):
                print('    REAL', f['label'], f['detail'][:600], short(f['env']), f['choices'][:10])
    sys.exit(report(prop, tier, seed, scs, res, wall, verbose))


if __name__ == '__main__':
    main()
