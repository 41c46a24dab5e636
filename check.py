#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

1. clang dumps the AST of the real sources; the engine in vc/ turns every function under contract into
   proof obligations; Verus (Z3) discharges them.
2. a driver built from the same sources (sanitised) looks for / replays failing inputs.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: no answer (neither the proofs nor the driver could run)."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, traceback, signal, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
import multiprocessing as mp

def log(*a): print(*a, flush=True)

class Driver:
    """builds replay/<name>.cxx with the real sources in a background thread, then runs it"""
    def __init__(s, spec, tmp):
        s.spec = spec; s.tmp = tmp; s.ok = None; s.err = ''; s.exe = os.path.join(tmp, 'drv')
        s.t = threading.Thread(target=s.build); s.t.start()
    def build(s):
        import cast
        try:
            incs = cast.make_incs(s.tmp)
            cxx = s.spec.get('cxx', 'g++')
            base = ['-std=gnu++17', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS'] + ['-I' + i for i in incs] + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'replay')]
            flags = s.spec.get('flags', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'])
            srcflags = s.spec.get('srcflags', flags)
            jobs = []
            want = s.spec.get('srcs')
            for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.cxx'))):
                b = os.path.basename(f)
                isprop = b.startswith('PropertyTree')
                if isprop and not s.spec.get('props'): continue
                if want is not None and b not in want: continue
                o = os.path.join(s.tmp, 'o_' + b + '.o')
                jobs.append(([cxx, '-c', f, '-o', o] + base + srcflags, o, False))
            d = os.path.join(HERE, 'replay', s.spec['src'])
            do = os.path.join(s.tmp, 'o_drv.o')
            dflags = s.spec.get('drvflags', flags)
            jobs.append(([cxx, '-c', d, '-o', do] + base + dflags, do, True))
            for x in s.spec.get('extra', []):
                o = os.path.join(s.tmp, 'x_' + x + '.o')
                jobs.append(([cxx, '-c', os.path.join(HERE, 'replay', x), '-o', o] + base + s.spec.get('xflags', ['-O1']), o, True))
            ps = [(subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), o, m, c) for c, o, m in jobs]
            objs = []
            for p, o, must, c in ps:
                e = p.communicate(timeout=600)[1]
                if p.returncode == 0: objs.append((o, must))
                else:
                    s.err += '%s: %s\n' % (' '.join(c), e.decode(errors='replace')[:3000])
                    s.ok = False; return
            lib = os.path.join(s.tmp, 'libreal.a')
            if os.path.exists(lib): os.unlink(lib)
            lo = [o for o, m in objs if not m]
            if lo: subprocess.check_call(['ar', 'rcs', lib] + lo)
            link = [cxx, '-o', s.exe] + [o for o, m in objs if m] + ([lib] if lo else []) + s.spec.get('linkflags', flags) + ['-pthread'] + s.spec.get('libs', [])
            p = subprocess.run(link, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
            s.ok = p.returncode == 0
            if not s.ok: s.err += p.stderr.decode(errors='replace')[:3000]
        except Exception as e:
            s.ok = False; s.err += traceback.format_exc()
    def run(s, pid, seed, secs, workers, only=None):
        """-> dict (driver report) or None"""
        s.t.join()
        if not s.ok: return None
        sc = tempfile.mkdtemp(prefix='run_', dir=s.tmp); out = os.path.join(sc, 'out.json')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66', LC_ALL='C', DRV_SCRATCH=sc)
        cmd = [s.exe, pid, str(seed), str(secs), str(workers), out, sc] + ([str(only)] if only is not None else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=secs + 180, cwd=sc)
            if p.returncode not in (0, 1): s.err += 'driver exit %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]); return None
            return json.load(open(out, errors='replace'))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            s.err += repr(e); return None
        finally: shutil.rmtree(sc, ignore_errors=True)

def run_goal(g, conn, tmp, threads, rlimit):
    import prove
    try:
        os.makedirs(tmp, exist_ok=True)
        r = prove.prove(g.name, g.eng, g.body, g.specs, rlimit=max(g.rlimit, rlimit), threads=threads, tmp=tmp)
        fn = g.fn
        r.function = getattr(fn, 'qual', None) or str(fn)
        d = r.as_dict()
    except BaseException as e:
        d = dict(name=g.name, status='unsupported', why='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc(), function=str(getattr(g.fn, 'qual', g.fn)), obs=[], failed=[], undecided=[], invariants=[], trusted=[], inlined=[], contracts=[], smt_ms=0, secs=0, nlib=0, smoke=None, paths=0, rounds=0, runs=0, dropped=0, trivial=0)
    conn.send(d); conn.close()

def prove_goals(goals, tmp, limit, rlimit):
    n = len(goals); res = [None] * n
    par = min(n, 4); threads = max(2, 8 // max(1, par))
    pend = list(range(n)); run = {}
    t0 = time.time()
    ctx = mp.get_context('fork')
    while pend or run:
        while pend and len(run) < par:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_goal, args=(goals[i], b, os.path.join(tmp, 'g%d' % i), threads, rlimit)); p.start(); b.close()
            run[i] = (p, a)
        for i in list(run):
            p, a = run[i]
            got = False
            try:
                if a.poll(0.05): res[i] = a.recv(); got = True
            except EOFError: got = True
            if got or not p.is_alive():
                if res[i] is None:
                    try:
                        if a.poll(0.5): res[i] = a.recv()
                    except EOFError: pass
                p.join(5)
                if p.is_alive(): p.kill()
                del run[i]
        if time.time() - t0 > limit:
            for i in list(run): run[i][0].kill(); del run[i]
            subprocess.run(['pkill', '-KILL', '-f', tmp])
            pend = []
    for i, g in enumerate(goals):
        if res[i] is None:
            res[i] = dict(name=g.name, status='unsupported', why='no result (time limit or killed)', function=str(getattr(g.fn, 'qual', g.fn)), obs=[], failed=[], undecided=[], invariants=[], trusted=[], inlined=[], contracts=[], smt_ms=0, secs=0, nlib=0, smoke=None, paths=0, rounds=0, runs=0, dropped=0, trivial=0)
    return res

SCAN = ['assume(', 'admit(', 'external_body', 'assume_specification', '#[verifier::truncate]']
def scan_specs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'spec', '*.rs'))):
        for k, l in enumerate(open(f), 1):
            for w in SCAN:
                if w in l and not l.strip().startswith('//'): out.append('%s:%d %s' % (os.path.basename(f), k, l.strip()))
    return out

def main():
    import registry
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        d = json.load(open(args[1])); tmp = tempfile.mkdtemp(prefix='vck_')
        try:
            if d.get('case') is None: log(json.dumps(d, indent=1)); return 0
            dr = Driver(registry.DRIVERS[d.get('driver') or names(registry.PROPS[d['property']])[0]], tmp)
            r = dr.run(d['property'], d['seed'], 60, 1, d['case'])
            log(json.dumps(r, indent=1) if r else dr.err); return 1 if r and r['failed'] else 0
        finally: shutil.rmtree(tmp, ignore_errors=True)
    pid = args[0]
    verbose = '-v' in args
    spec = registry.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vck_')
    try: return decide(pid, spec, tier, seed, thorough, t0, tmp, verbose, registry)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def names(spec):
    d = spec.get('driver')
    return [] if not d else [d] if isinstance(d, str) else list(d)

class Drivers:
    """the drivers of a property, run side by side; the first failure wins"""
    def __init__(s, specs, tmp):
        s.ds = []
        for n, sp in specs:
            t = os.path.join(tmp, 'd_' + n); os.makedirs(t); s.ds.append((n, Driver(sp, t)))
    @property
    def err(s): return ' '.join(d.err for _, d in s.ds)
    def join(s):
        for _, d in s.ds: d.t.join()
    def run(s, pid, seed, secs, workers):
        rs = {}
        def one(n, d): rs[n] = d.run(pid, seed, secs, max(2, workers // len(s.ds)))
        ts = [threading.Thread(target=one, args=x) for x in s.ds]
        for t in ts: t.start()
        for t in ts: t.join()
        rs = {n: r for n, r in rs.items() if r is not None}
        if not rs: return None
        for n in rs: rs[n]['driver'] = n
        bad = [r for r in rs.values() if r['failed']]
        out = dict(bad[0] if bad else list(rs.values())[0])
        for k in ('cases', 'distinct', 'enumerated'): out[k] = sum(r.get(k, 0) for r in rs.values())
        out['samples'] = [x for r in rs.values() for x in r['samples'][:3]]
        out['ran'] = sorted(rs)
        return out

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l[len('finding: '):])
    except OSError: pass
    return out

def decide(pid, spec, tier, seed, thorough, t0, tmp, verbose, registry):
    import cast
    for k in known_findings(pid): log('KNOWN-FINDING: ' + k)
    drv = Drivers([(n, registry.DRIVERS[n]) for n in names(spec)], tmp) if spec.get('driver') else None
    # ---- proofs
    goals = []; gerr = None; cache = {}
    only = os.environ.get('VERIF_PART')          # development: 'proof' or 'driver'
    if only != 'driver':
        incs = cast.make_incs(tmp)
        def P(f):
            if f not in cache: cache[f] = cast.Program().load(f if f.startswith('/') else os.path.join(REPO, f), incs)
            return cache[f]
        try:
            goals = spec['goals'](P)
        except Exception as e:
            gerr = '%s: %s' % (type(e).__name__, e)
            if verbose: traceback.print_exc()
    filt = os.environ.get('VERIF_GOAL')
    if filt: goals = [g for g in goals if filt in g.name]
    # the driver runs next to the provers
    secs = float(os.environ.get('VERIF_SECS', 0) or (spec.get('secs_thorough', 300) if thorough else spec.get('secs', 25)))
    drep = {}
    def drun():
        drep['r'] = drv.run(pid, seed, secs, spec.get('workers', 4))
    dt = None
    if drv and only != 'proof': dt = threading.Thread(target=drun); 
    if dt: dt.start()
    res = prove_goals(goals, tmp, 780 if not thorough else 3000, 100 if thorough else 30) if goals else []
    if dt: dt.join()
    rep = drep.get('r')
    if drv and only == 'proof': drv.join()
    failed = [(r, f) for r in res for f in r['failed']]
    undecided = [r for r in res if r['status'] in ('undecided', 'unsupported')]
    if failed and drv and not (rep and rep['failed']) and only is None:
        rep2 = drv.run(pid, seed + 7919, spec.get('secs_more', 90), 8)
        if rep2 and rep2['failed']: rep = rep2
    bad_assump = [x for x in scan_specs() if 'F64' not in x and 'pub struct F64' not in x and x not in ALLOWED]
    # ---- verdict
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replays', pid + '.json')
    rc = 0; viol = 0
    if os.path.exists(rp): os.unlink(rp)
    obfail = [dict(goal=r['name'], function=r['function'], obligation=f[0], status=f[1], verifier=f[2], verifier_input=f[3]) for r, f in failed]
    if rep and rep['failed']:
        d = dict(rep); d['failed_obligations'] = obfail; d['how_to_replay'] = 'python3 /verif/check.py --replay ' + rp
        json.dump(d, open(rp, 'w'), indent=1)
        log('failing input: %s' % rep['input']); log('  expected: %s' % rep['expected']); log('  actual:   %s  (%s)' % (rep['actual'], rep['how']))
        for o in obfail[:5]: log('  failed obligation: %s: %s' % (o['goal'], o['obligation']))
        log('VIOLATION property=%s replay=%s' % (pid, rp)); rc = 1; viol = 1
    elif failed:
        json.dump(dict(property=pid, case=None, failed_obligations=obfail, driver=rep, note='the verifier rejects these obligations; no failing input was found'), open(rp, 'w'), indent=1)
        for o in obfail[:8]: log('  failed obligation: %s: %s (%s)' % (o['goal'], o['obligation'], o['verifier']))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); rc = 1; viol = 1
    else:
        proved = bool(res) and not undecided and not gerr
        if not proved and rep is None and only is None:
            log('no answer: %s; driver: %s' % (gerr or [(r['name'], r['why']) for r in undecided], (drv.err if drv else 'none')))
            rc = 2
        elif not proved:
            log('UNDECIDED proofs (bounded stand-in only): %s' % (gerr or '; '.join('%s: %s' % (r['name'], r['why'] or [u[:3] for u in r['undecided']][:3]) for r in undecided)))
    # ---- evidence
    nob = sum(len(r['obs']) for r in res) + max([r['nlib'] for r in res] + [0])
    ndis = sum(sum(1 for o in r['obs'] if o[2] == 'proved') for r in res) + max([r['nlib'] for r in res] + [0])
    proofok = bool(res) and not failed and not undecided and not gerr
    trusted = sorted(set(x for r in res for x in r['trusted'])) + spec.get('trusted', [])
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3 /verif/check.py %s   (clang++ -ast-dump=json on /repo, obligations in Verus, `verus` -> Z3)' % pid,
               trusted_base=['clang 18 AST of the real sources (comments, and attributes the engine does not read, are dropped)', 'vc/ symbolic executor and VC generator', 'verus 0.2026.09.13 and its Z3'] + ['library model: ' + x for x in trusted],
               functions_under_contract=[dict(goal=r['name'], function=r['function'], status=r['status'], why=r['why'], obligations=len(r['obs']), discharged=sum(1 for o in r['obs'] if o[2] == 'proved'), closed_by_simplification=r['trivial'],
                                              kinds={k: sum(1 for o in r['obs'] if o[1] == k) for k in sorted(set(o[1] for o in r['obs']))}, paths=r['paths'], rounds=r['rounds'], secs=r['secs'], smt_ms=round(r['smt_ms'], 1), inlined=r['inlined'], callee_contracts_used=r['contracts'],
                                              loops=r['invariants'], reachable_path_ends=r['smoke']) for r in res],
               backend='verus (Z3)', solver_ms=round(sum(r['smt_ms'] for r in res), 1), library_lemmas=max([r['nlib'] for r in res] + [0]),
               undecided=[dict(goal=r['name'], why=r['why'], items=[u[:3] for u in r['undecided']]) for r in undecided], extraction_error=gerr,
               unchecked_escapes_in_specs=scan_specs())
    if bad_assump: cov['unexpected_assumptions'] = bad_assump
    if spec.get('explanation'): cov['explanation'] = spec['explanation']
    elif not proofok: cov['explanation'] = 'proof incomplete on this tree; the replay driver below stands in as a bounded check'
    if rep is not None:
        cov['replay_driver'] = dict(source=', '.join('replay/' + registry.DRIVERS[n]['src'] for n in rep['ran']), role='replays failed obligations and searches failing inputs on the sanitised real code (bounded, not counted as proof)', cases=rep['cases'], distinct=rep['distinct'], enumerated_exhaustively=rep['enumerated'], seconds=secs, failed=rep['failed'])
        cov['evaluations'] = rep['cases']; cov['distinct_nontrivial'] = rep['distinct']
        cov['rule'] = 'driver cases: small inputs enumerated, then random ones from VERIF_SEED; distinct = different case descriptions'
        cov['samples'] = rep['samples'][:5] or ['none']
    elif drv: cov['replay_driver'] = dict(error=drv.err[:2000])
    level = spec['level'] if proofok or spec['level'] == 'other' else 'other'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=registry.COMMON_ASSUMPTIONS + spec.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %s; %d/%d obligations discharged in %d functions; driver %s; %.1f s' % (pid, 'PROVED' if proofok and rc == 0 else ('VIOLATION' if viol else 'not proved'), ndis, nob, len(res), ('%d cases' % rep['cases']) if rep else ('off' if not drv else 'unavailable: ' + drv.err[:300]), time.time() - t0))
    if verbose:
        for r in res:
            log('  %-40s %-11s %4d obs  %.1fs  rounds %d paths %d smoke %s %s' % (r['name'], r['status'], len(r['obs']), r['secs'], r['rounds'], r['paths'], r['smoke'], r['why'] or ''))
            if r.get('tb') and '-vv' in sys.argv: log(r['tb'])
            for f in (r['failed'] + r['undecided'])[:int(os.environ.get('NF', '3'))]: log('    ', f[0], f[1], f[2]); log(f[3])
    return rc

ALLOWED = set()
if __name__ == '__main__':
    sys.exit(main())
