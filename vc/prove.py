"""Houdini pruning of candidate invariants and measures, then the verdict per obligation."""
import os, re, time, os, re
import terms as T
import sym, verus

class Result:
    def __init__(s, name):
        s.name = name; s.status = 'proved'; s.obs = []; s.failed = []; s.undecided = []; s.why = None
        s.inlined = []; s.contracts = []; s.trusted = []; s.rounds = 0; s.smt_ms = 0.0; s.secs = 0.0; s.paths = 0
        s.invariants = []; s.dropped = 0; s.nlib = 0; s.smoke = None; s.function = None; s.line = None; s.trivial = 0
    def as_dict(s):
        return dict(s.__dict__)

def trivially(ob):
    if T.isbool(ob.goal) and ob.goal.args[0]: return True
    hs = set(h.uid for h in ob.hyps)
    if ob.goal.uid in hs: return True
    if ob.goal.op == 'and': return all(g.uid in hs or (T.isbool(g) and g.args[0]) for g in ob.goal.args)
    return False

def prove(name, eng, body, specs, rlimit=10, threads=4, tmp=None, maxrounds=14, verbose=False, keep=None):
    r = Result(name); t0 = time.time()
    run = verus.Runner(specs, rlimit=rlimit, threads=threads, tmp=tmp)
    try:
        while True:
            r.rounds += 1
            obs = eng.explore(body)
            real = [o for o in obs if not trivially(o)]
            r.trivial = len(obs) - len(real)
            cands = [o for o in real if o.cand is not None]
            if r.rounds == 1 and len(cands) > 250:
                # first drop the candidates that do not hold on entry to their loop
                real = [o for o in cands if o.kind == 'invariant-entry']
            res = run.run(real, extra=eng.extra)
            killed = 0
            for i, o in enumerate(real):
                if o.cand is not None and res[i][0] != 'proved':
                    if o.cand[0] == 'meas':
                        k = (o.cand[1], o.cand[2])
                        if k not in eng.meas_killed: eng.meas_killed.add(k); killed += 1
                    else:
                        if os.environ.get('DBGCAND') and re.search(os.environ['DBGCAND'], o.cand[1]) and o.cand not in eng.cand_killed:
                            print('DROPPED', o.name, res[i], verus.ob_text(o, 'ob'))
                        if o.cand not in eng.cand_killed: eng.cand_killed.add(o.cand); killed += 1
            if verbose: print('  [%s] round %d: %d obligations, %d candidates dropped, %.1fs' % (name, r.rounds, len(real), killed, time.time() - t0), flush=True)
            if killed == 0 and not (r.rounds == 1 and len(cands) > 250): break
            if r.rounds > maxrounds: raise sym.Unsupported('invariant pruning did not converge')
        r.paths = eng.npaths
        for i, o in enumerate(real):
            st, ms, msg = res[i]
            if o.cand is not None and o.cand[0] == 'meas': pass
            r.obs.append((o.name, o.kind, st, round(ms, 2)))
            if st == 'proved': continue
            if st in ('rlimit', 'error'): r.undecided.append((o.name, st, msg, verus.ob_text(o, 'ob')))
            else: r.failed.append((o.name, st, msg, verus.ob_text(o, 'ob')))
        # vacuity: some path end must be reachable
        ends = [o for o in real if o.kind in ('ensures',)]
        seen = {}
        for o in ends:
            k = tuple(h.uid for h in o.hyps)
            if k not in seen: seen[k] = sym.Ob('reachable', 'smoke', o.hyps, T.FALSE, o.hints)
        if seen:
            sm = run.run(list(seen.values()), extra=eng.extra)
            r.smoke = (sum(1 for v in sm.values() if v[0] != 'proved'), len(seen))
            if r.smoke[0] == 0: r.undecided.append(('vacuity', 'vacuous', 'no path end is reachable under the contract', ''))
        if not r.obs and not r.trivial: r.undecided.append(('count', 'empty', 'no obligation was generated', ''))
        for key, L in eng.loops.items():
            live = [c[2] for c in (L.cands or []) if (key, c[2]) not in eng.cand_killed]
            ms = [m[2] for m in (L.meas or []) if (key, m[2]) not in eng.meas_killed]
            r.invariants.append(dict(loop='%s@%s' % (L.fn, L.line), invariants=live, measures=ms[:3]))
            r.dropped += sum(1 for c in (L.cands or []) if (key, c[2]) in eng.cand_killed)
        r.status = 'failed' if r.failed else ('undecided' if r.undecided else 'proved')
    except sym.ExtractionError as e:
        r.status = 'unsupported'; r.why = '%s: %s' % (type(e).__name__, e)
    except (RuntimeError, KeyError, AssertionError, IndexError, TypeError, AttributeError, ValueError) as e:
        import traceback
        r.status = 'unsupported'; r.why = '%s: %s' % (type(e).__name__, e); r.tb = traceback.format_exc()
    except Exception as e:
        import traceback
        r.status = 'unsupported'; r.why = '%s: %s' % (type(e).__name__, e); r.tb = traceback.format_exc()
    finally:
        if keep is None: run.close()
    r.inlined = sorted(eng.inlined); r.contracts = sorted(eng.used_contracts); r.trusted = sorted(eng.trusted)
    r.smt_ms = run.smt_ms; r.nlib = run.nlib; r.secs = round(time.time() - t0, 2); r.runs = run.runs
    return r
