"""Emit obligations as Verus proof functions, run Verus, read back what was discharged."""
import os, re, json, subprocess, tempfile, shutil, threading
import terms as T

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
VERUS = os.environ.get('VERUS', 'verus')

def goal_text(g):
    """extensional equality in the goal (logically the same as ==, easier to establish)"""
    if g.op == '==' and (T.is_seq(g.args[0].sort) or T.is_map(g.args[0].sort) or g.args[0].sort in T.STRUCTS):
        return '(%s =~~= %s)' % (T.show(g.args[0]), T.show(g.args[1]))
    if g.op == 'and': return '(' + ' && '.join(goal_text(x) for x in g.args) + ')'
    if g.op == '==>': return '(%s ==> %s)' % (T.show(g.args[0]), goal_text(g.args[1]))
    if g.op == 'ite': return '(if %s { %s } else { %s })' % (T.show(g.args[0]), goal_text(g.args[1]), goal_text(g.args[2]))
    return T.show(g)

def ob_text(ob, name):
    fv = set(ob.goal.fv)
    for h in ob.hyps: fv |= h.fv
    hints = []
    for h in ob.hints:
        if isinstance(h, T.T): fv |= h.fv; hints.append(T.show(h))
        else: hints.append(h)
    vs = ', '.join('%s: %s' % (T.esc(n), s) for n, s in sorted(fv))
    out = ['proof fn %s(%s)' % (name, vs)]
    if ob.hyps: out.append('  requires'); out += ['    %s,' % T.show(h) for h in ob.hyps]
    gs = ob.goal.args if ob.goal.op == 'and' else [ob.goal]
    out.append('  ensures'); out += ['    %s,' % goal_text(g) for g in gs]
    out.append('{')
    seen = set()
    for h in hints:
        if h not in seen: seen.add(h); out.append('    ' + h)
    out.append('}')
    return '\n'.join(out)

def struct_text():
    out = []
    for n, fs in T.STRUCTS.items():
        if not fs: continue
        out.append('#[verifier::ext_equal]\npub struct %s { %s }' % (n, ', '.join('pub %s: %s' % (T.esc(f), s) for f, s in fs)))
    return '\n'.join(out)

XT_NUM = {'int': (32, True), 'uint': (32, False), 'long': (64, True), 'ulong': (64, False), 'llong': (64, True), 'ullong': (64, False), 'short': (16, True), 'ushort': (16, False)}

def lib_text(specs, extra):
    t = open(os.path.join(SPEC, 'prelude.rs')).read() + '\n' + struct_text() + '\n'
    done = set()
    if any(e[0] == 'xt' for e in extra): t += open(os.path.join(SPEC, 'extract.rs')).read() + '\n'
    for e in extra:
        if e in done: continue
        done.add(e)
        if e[0] == 'xt':
            _, nm, so = e
            num = XT_NUM.get(nm)
            if num:      # spec/extract.rs defines what extraction yields
                t += 'pub open spec fn xt_%s_val(inp: Seq<int>, pos: int) -> int { xt_num_val(inp, pos, %d, %s) }\n' % (nm, 1 << (num[0] - 1), 'true' if num[1] else 'false')
                t += 'pub open spec fn xt_%s_ok(inp: Seq<int>, pos: int) -> bool { xt_num_ok(inp, pos, %d, %s) }\n' % (nm, 1 << (num[0] - 1), 'true' if num[1] else 'false')
            else:
                t += 'pub uninterp spec fn xt_%s_val(inp: Seq<int>, pos: int) -> %s;\n' % (nm, so)
                t += 'pub uninterp spec fn xt_%s_ok(inp: Seq<int>, pos: int) -> bool;\n' % nm
            t += 'pub uninterp spec fn xt_%s_bad(inp: Seq<int>, pos: int, ok: bool, old: %s) -> %s;\n' % (nm, so, so)
            t += 'pub uninterp spec fn xt_%s_pos(inp: Seq<int>, pos: int, ok: bool) -> int;\n' % nm
        elif e[0] == 'text': t += e[1] + '\n'
    for s in specs: t += open(os.path.join(SPEC, s)).read() + '\n'
    return t

def split_chunks(todo, threads):
    n = max(1, min(threads, (len(todo) + 19) // 20))
    n = max(n, (len(todo) + 199) // 200)
    return [todo[k::n] for k in range(n)]

class Runner:
    def __init__(s, specs, extra=(), rlimit=10, threads=4, tmp=None, lib=None):
        s.specs = specs; s.rlimit = rlimit; s.threads = threads
        s.tmp = tmp or tempfile.mkdtemp(prefix='vc_'); s.own = tmp is None
        s.cache = {}      # text -> (status, millis)
        s.libok = None; s.libtime = 0; s.nlib = 0
        s.n = 0
        s.extra = list(extra)
        s.smt_ms = 0; s.runs = 0; s.lock = threading.Lock()
    def close(s):
        if s.own: shutil.rmtree(s.tmp, ignore_errors=True)

    def run(s, obs, extra=(), timeout=600):
        """-> {index: (status, ms, message)}; status in proved/failed/rlimit/error"""
        res = {}; todo = []
        for e in extra:
            if e not in s.extra: s.extra.append(e)
        lib = lib_text(s.specs, s.extra)
        if getattr(s, 'lib', None) != lib: s.lib = lib; s.libok = None
        texts = {}
        for i, ob in enumerate(obs):
            t = ob_text(ob, 'OB')
            if t in s.cache: res[i] = s.cache[t]
            elif t in texts: texts[t].append(i)
            else: texts[t] = [i]; todo.append(t)
        if not todo and s.libok: return res
        if s.libok is None and todo and len(todo) > 12:
            chunks = [[]] + split_chunks(todo, s.threads)
        elif s.libok is None: chunks = [todo]
        else: chunks = split_chunks(todo, s.threads)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max(1, min(len(chunks), s.threads))) as pool:
            first = s.libok is None
            futs = [pool.submit(s.one, lib, c, first and k == 0, timeout) for k, c in enumerate(chunks)]
            outs = [f.result() for f in futs]
        s.libok = True
        for c, o in zip(chunks, outs):
            for t, r in zip(c, o):
                s.cache[t] = r
                for i in texts[t]: res[i] = r
        return res

    def one(s, lib, todo, withlib, timeout):
        src = ['use vstd::prelude::*;', 'verus! {', 'pub mod lib {', 'use vstd::prelude::*;', lib, '}']
        line = sum(x.count('\n') + 1 for x in src) + 1
        where = []
        head = 'mod o0 {\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::lib::*;'
        bc = re.findall(r'^\s*pub broadcast proof fn (\w+)', lib, re.M)
        if bc: head += '\nbroadcast use {%s};' % ', '.join('crate::lib::' + x for x in bc)
        src.append(head); line += head.count('\n') + 1
        for j, t in enumerate(todo):
            tt = t.replace('proof fn OB(', 'proof fn ob_%d(' % j, 1)
            n = tt.count('\n') + 1
            where.append((line, line + n - 1, j)); line += n
            src.append(tt)
        src.append('}')
        src.append('}\nfn main() {}')
        with s.lock: s.n += 1; k = s.n
        f = os.path.join(s.tmp, 'vc%d.rs' % k)
        open(f, 'w').write('\n'.join(src) + '\n')
        cmd = [VERUS, f, '--error-format=json', '--output-json', '--time-expanded', '--num-threads', '2', '--rlimit', str(s.rlimit), '--multiple-errors', '1']
        if not withlib: cmd += ['--verify-only-module', 'o0']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=s.tmp)
        s.runs += 1
        try: out = json.loads(p.stdout.decode(errors='replace'))
        except ValueError: raise RuntimeError('verus gave no result: ' + p.stderr.decode(errors='replace')[:3000])
        bad = {}; errs = []
        for l in p.stderr.decode(errors='replace').splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') != 'error': continue
            msg = d.get('message', '')
            hit = None
            for x in d.get('spans', []):
                for a, b, j in where:
                    if a <= x['line_start'] <= b: hit = j
            if hit is not None: bad[hit] = msg
            elif msg.startswith('aborting due to'): pass
            else: errs.append(msg + ' ' + str([(x['line_start'], x.get('label'), (x.get('text') or [{}])[0].get('text')) for x in d.get('spans', [])]))
        vr = out.get('verification-results', {})
        times = {}
        for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for fb in m.get('function-breakdown', []):
                nm = fb['function'].split('::')[-1]
                times[nm] = (fb['time-micros'] / 1000.0, fb['success'])
                s.smt_ms += fb['time-micros'] / 1000.0
        if vr.get('encountered-vir-error') or (not times and todo):
            raise RuntimeError('verus rejected the generated file %s: %s %s' % (f, list(bad.items())[:3], errs[:5]))
        if errs: raise RuntimeError('lemma library or generated text failed: %s' % errs[:5])
        if withlib: s.nlib = sum(1 for k in times if not k.startswith('ob_'))
        res = []
        for j, t in enumerate(todo):
            tm = times.get('ob_%d' % j)
            if j in bad:
                st = 'rlimit' if 'rlimit' in bad[j].lower() or 'resource' in bad[j].lower() else 'failed'
                r = (st, tm[0] if tm else 0.0, bad[j])
            elif tm is None: r = ('error', 0.0, 'no result for this obligation')
            elif not tm[1]: r = ('failed', tm[0], 'not verified')
            else: r = ('proved', tm[0], '')
            res.append(r)
        return res
