"""Path-wise symbolic execution of the real function bodies (clang AST) producing proof obligations.

Loops are cut at their heads by candidate invariants, calls to functions under contract use only the
contract, other SoDa functions are inlined, std:: operations use the trusted models in stl.py."""
import re, itertools
import terms as T
from terms import I, B, TRUE, FALSE
from ctypes_ import Types, irange, strip, TypeUnknown
from cast import ExtractionError, SKIP, Fn, ptype

MAXLEN = (1 << 31) - 2

class Unsupported(ExtractionError): pass

# control flow
class PathEnd(Exception): pass
class CReturn(Exception):
    def __init__(s, v): s.v = v
class CBreak(Exception): pass
class CContinue(Exception): pass
class CThrow(Exception):
    def __init__(s, typ, val=None): s.typ = typ; s.val = val

class Place:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def sub(s, *acc): return Place(s.root, s.path + tuple(acc))
    def __eq__(s, o): return isinstance(o, Place) and s.root == o.root and s.path == o.path
    def __hash__(s): return hash((s.root, s.path))
    def __repr__(s): return 'Place(%s,%s)' % (s.root, s.path)

class Ptr:
    """pointer to a named object (this, &local)"""
    def __init__(s, place): s.place = place
class Iter:
    def __init__(s, place, idx, kind, rev=False, base=None):
        s.place = place; s.idx = idx; s.kind = kind; s.rev = rev
        s.base = base      # map iterators: (map when the iteration started, its keys in order)
    def at(s, idx): return Iter(s.place, idx, s.kind, s.rev, s.base)
class Lock:
    def __init__(s, mutex, owns): s.mutex = mutex; s.owns = owns
class Closure:
    def __init__(s, node, method, caps, frame): s.node = node; s.method = method; s.caps = caps; s.frame = frame
class Manip:
    def __init__(s, name, args=()): s.name = name; s.args = args
class FuncRef:
    def __init__(s, fn): s.fn = fn
class Opaque:
    def __init__(s, what): s.what = what
class Default:
    """marker: omitted argument of a library function"""

class Ob:
    def __init__(s, name, kind, hyps, goal, hints, cand=None, line=None, prop=True):
        s.name = name; s.kind = kind; s.hyps = hyps; s.goal = goal; s.hints = hints; s.cand = cand; s.line = line
        s.prop = prop

class Template:
    def __init__(s, text, hint=None, where=None, name=None, onpath=None):
        s.text = text; s.hint = hint; s.where = where or []
        s.vars = {}
        for m in re.finditer(r'\{(\w+):([^{}]+)\}', text + ' ' + (hint or '')):
            s.vars[m.group(1)] = m.group(2)
        s.clean = re.sub(r'\{(\w+):([^{}]+)\}', r'{\1}', text)
        s.hclean = re.sub(r'\{(\w+):([^{}]+)\}', r'{\1}', hint) if hint else None
        s.name = name or s.clean

class Loop:
    def __init__(s): s.mods = set(); s.cands = None; s.meas = None; s.line = None; s.killed = set(); s.entry = None; s.vars = {}; s.ssmods = {}

def sanitize(n):
    n = re.sub(r'^SoDa::', '', n)
    return re.sub(r'\W+', '_', n)

class Engine:
    """shared across exploration runs of one function"""
    def __init__(s, prog, contracts=None, templates=None, pnames=None, opts=None):
        s.prog = prog; s.types = Types(prog)
        s.contracts = contracts or []      # list of Contract
        s.templates = templates or []
        s.opts = opts or {}
        s.loops = {}
        s.inlined = set(); s.used_contracts = set(); s.trusted = set()
        s.hook_access = None
        s.callhooks = {}
        s.structs_done = {}
        s.meas_killed = set(); s.cand_killed = set()
        s.extra = []

    def frameno(s, path):
        """the same call site has the same number on every path"""
        if not hasattr(s, 'framenos'): s.framenos = {}
        return s.framenos.setdefault(path, len(s.framenos) + 1)
    # ---- sorts
    def sort(s, ct):
        k = ct[0]
        if k in ('int',): return 'int'
        if k == 'bool': return 'bool'
        if k in ('string', 'cstr'): return 'Seq<int>'
        if k in ('list', 'vector', 'queue', 'deque', 'stack', 'array', 'initializer_list'): return 'Seq<%s>' % s.sort(ct[1])
        if k == 'set': return 'Seq<%s>' % s.sort(ct[1])
        if k == 'map': return 'Map<%s, %s>' % (s.sort(ct[1]), s.sort(ct[2]))
        if k in ('ptr', 'sptr', 'null', 'func', 'mutex', 'cv', 'duration', 'other', 'lock', 'iter?', 'iter'):
            if k == 'ptr' and ct[1][0] == 'cstr': return 'Seq<Seq<int>>'
            if k == 'other' and s.opts.get('sortmap', {}).get(ct[1]): return s.opts['sortmap'][ct[1]]
            return 'int'
        if k == 'ref': return s.sort(ct[1])
        if k == 'double': return 'F64'
        if k == 'class': return s.struct(ct[1])
        if k == 'pair':
            a, b = s.sort(ct[1]), s.sort(ct[2])
            n = 'Pair_' + re.sub(r'\W+', '_', a + '_' + b)
            T.STRUCTS.setdefault(n, [('first', a), ('second', b)])
            return n
        if k in ('sstream', 'ostream'): return 'SS'
        raise Unsupported('no sort for type %s' % (ct,))

    def fields(s, q):
        rec = s.prog.rec(q); out = []
        for b in rec.bases:
            ct = s.types.parse(b)
            if ct[0] == 'class': out += s.fields(ct[1])
        for f in rec.fields:
            ct = s.types.parse(ptype(f))
            out.append((f['name'], ct))
        return out

    def struct(s, q):
        n = s.structs_done.get(q)
        if n: return n
        n = s.opts.get('structnames', {}).get(q) or sanitize(q)
        s.structs_done[q] = n
        T.STRUCTS[n] = []
        fs = []
        for fn, ct in s.fields(q): fs.append((fn, s.sort(ct)))
        if not fs: fs = [('dummy_', 'int')]
        T.STRUCTS[n] = fs
        return n

    # ---- exploration
    def explore(s, body, maxpaths=4000):
        """body(ex) is run once per path; discovers loop modifications to a fixpoint first"""
        while True:
            obs = []; s.changed = False; npaths = 0; ends = 0
            work = [[]]
            while work:
                pre = work.pop()
                ex = Exec(s, pre)
                try:
                    try:
                        body(ex); ends += 1
                    except CThrow as c:
                        ex.line = None
                        ex.oblige('ensures', FALSE, 'no exception escapes (%s)' % c.typ)
                except PathEnd: pass
                except RecursionError: raise Unsupported('recursion too deep')
                npaths += 1
                if npaths > maxpaths: raise Unsupported('too many paths')
                for k in range(len(pre), len(ex.taken)):
                    if ex.taken[k][1]:   # forked here: schedule the alternative
                        work.append([d for d, _ in ex.taken[:k]] + [not ex.taken[k][0]])
                obs.extend(ex.obs)
                if s.changed: break
            if not s.changed: break
        s.npaths = npaths
        return obs

class Exec:
    def __init__(s, eng, pre):
        s.e = eng; s.prog = eng.prog; s.types = eng.types
        s.pre = pre; s.taken = []
        s.vars = {}; s.vtypes = {}; s.vnames = {}
        s.hyps = []; s.hypset = set(); s.obs = []
        s.hints = []
        s.nfresh = {}
        s.frames = [Frame(None, None, 0, ())]; s.nframe = 0; s.ntmp = 0
        s.scopes = [[]]
        s.entry = {}      # names usable in templates: P0.., T
        s.locks = set(); s.lockcount = {}
        s.events = []
        s.writelog = None
        s.refs = {}
        s.active_hints = []
        s.line = None
        s.pyvars = {}
        s.monitor = None
        s.bounds = {}

    # ---------- basic
    def fresh(s, name, sort):
        name = re.sub(r'\W+', '_', name) or 'v'
        if name[0].isdigit(): name = 'v' + name
        n = s.nfresh.get(name, 0); s.nfresh[name] = n + 1
        return T.const('%s_%d' % (name, n), sort)

    def assume(s, h):
        if T.isbool(h):
            if not h.args[0]: raise PathEnd()
            return
        if h.op == 'and':
            for x in h.args: s.assume(x)
            return
        if h.uid not in s.hypset:
            s.hypset.add(h.uid); s.hyps.append(h)
            if h.op == '<=':
                x, y = h.args
                if T.isint(x):
                    b = s.bounds.setdefault(y.uid, [None, None])
                    if b[0] is None or b[0] < x.args[0]: b[0] = x.args[0]
                if T.isint(y):
                    b = s.bounds.setdefault(x.uid, [None, None])
                    if b[1] is None or b[1] > y.args[0]: b[1] = y.args[0]

    def known(s, c):
        if T.isbool(c): return c.args[0]
        if c.uid in s.hypset: return True
        n = T.not_(c)
        if n.uid in s.hypset: return False
        if c.op in ('<', '<='):
            a, b = s.rng(c.args[0]), s.rng(c.args[1])
            if (a[1] < b[0]) or (c.op == '<=' and a[1] <= b[0]): return True
            if (b[1] < a[0]) or (c.op == '<' and b[1] <= a[0]): return False
            x, y = c.args
            if T.isint(x):      # k <= y : any stronger lower bound known?
                lo = s.bounds.get(y.uid)
                if lo is not None and lo[0] is not None and lo[0] >= x.args[0]: return True
                if lo is not None and lo[1] is not None and lo[1] < x.args[0]: return False
            if T.isint(y):
                lo = s.bounds.get(x.uid)
                if lo is not None and lo[1] is not None and lo[1] <= y.args[0]: return True
                if lo is not None and lo[0] is not None and lo[0] > y.args[0]: return False
            if c.op == '<=' and T.mk('<', (x, y), 'bool').uid in s.hypset: return True
            if c.op == '<=' and (T.eq(x, y).uid in s.hypset or T.eq(y, x).uid in s.hypset): return True
            if c.op == '<' and T.mk('<', (y, x), 'bool').uid in s.hypset: return False
            if c.op == '<' and (T.eq(x, y).uid in s.hypset or T.eq(y, x).uid in s.hypset): return False
        if c.op == '==' and c.args[0].sort == 'int':
            x, y = c.args
            if T.isint(y):
                lo = s.bounds.get(x.uid)
                if lo is not None and ((lo[0] is not None and lo[0] > y.args[0]) or (lo[1] is not None and lo[1] < y.args[0])): return False
            if T.mk('<', (x, y), 'bool').uid in s.hypset or T.mk('<', (y, x), 'bool').uid in s.hypset: return False
        if c.op == 'and':
            ks = [s.known(x) for x in c.args]
            if any(k is False for k in ks): return False
            if all(k is True for k in ks): return True
        if c.op == 'or':
            ks = [s.known(x) for x in c.args]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        if c.op == 'not':
            k = s.known(c.args[0])
            return None if k is None else not k
        return None

    def branch(s, c):
        k = s.known(c)
        if k is not None: return k
        i = len(s.taken)
        if i < len(s.pre): d = s.pre[i]; s.taken.append((d, False))
        else: d = True; s.taken.append((d, True))
        s.assume(c if d else T.not_(c))
        return d

    def choose(s, name):
        """nondeterministic choice without a condition"""
        i = len(s.taken)
        if i < len(s.pre): d = s.pre[i]; s.taken.append((d, False))
        else: d = True; s.taken.append((d, True))
        return d

    def oblige(s, kind, goal, what='', cand=None, then=True, prop=True):
        if kind in s.e.opts.get('skip', ()):
            s.e.trusted.add('not proved in this function: ' + kind)
            if then and not T.isbool(goal): s.assume(goal)
            return
        if len(s.taken) < len(s.pre):      # already recorded by the path this one was forked from
            if then and not T.isbool(goal): s.assume(goal)
            return
        name = '%s %s%s' % (kind, what, (' @line %s' % s.line) if s.line else '')
        hints = [h for hs in s.active_hints for h in hs] + list(s.hints)
        s.obs.append(Ob(name, kind, list(s.hyps), goal, hints, cand, s.line, prop))
        if then and not T.isbool(goal): s.assume(goal)

    # ---------- typed facts
    def typed(s, t, ct):
        """typing facts of a C++ value"""
        if isinstance(t, T.T) and t.op not in ('int', 'bool'):
            if ct[0] == 'int' and t.sort == 'int':
                lo, hi = ct[3] if len(ct) > 3 else irange(ct)
                r = s.rng(t)
                if not (lo <= r[0] and r[1] <= hi):
                    if t.op in ('const', 'proj', 'index', 'mget', 'raw') or t.op.startswith('app:'):
                        s.assume(T.cmp('<=', I(lo), t)); s.assume(T.cmp('<=', t, I(hi)))
                        s.ranges()[t.uid] = (lo, hi)
        return t
    def ranges(s):
        if not hasattr(s, '_rng'): s._rng = {}
        return s._rng
    def rng(s, t):
        INF = 1 << 200
        if t.uid in s.ranges(): return s.ranges()[t.uid]
        o = t.op
        if o == 'int': return (t.args[0], t.args[0])
        if o == 'len': return (0, MAXLEN)
        if o == '+':
            a, b = s.rng(t.args[0]), s.rng(t.args[1]); return (a[0] + b[0], a[1] + b[1])
        if o == '-':
            a, b = s.rng(t.args[0]), s.rng(t.args[1]); return (a[0] - b[1], a[1] - b[0])
        if o == 'ite':
            a, b = s.rng(t.args[1]), s.rng(t.args[2]); return (min(a[0], b[0]), max(a[1], b[1]))
        if o == '*':
            a, b = s.rng(t.args[0]), s.rng(t.args[1])
            if abs(a[0]) >= INF or abs(a[1]) >= INF or abs(b[0]) >= INF or abs(b[1]) >= INF: return (-INF, INF)
            c = [x * y for x in a for y in b]; return (min(c), max(c))
        m = re.match(r'app:([us])w(\d+)$', o)
        if m: return irange(('int', int(m.group(2)), m.group(1) == 's'))
        return (-INF, INF)

    def length(s, t):
        """container length with the machine limit as a documented assumption"""
        l = T.length(t)
        s.lenfacts(l)
        return l
    def lenfacts(s, l):
        if l.op == 'len':
            s.assume(T.cmp('<=', l, I(MAXLEN)))
            s.assume(T.mk('<=', (I(0), l), 'bool'))
        elif l.op in ('+', '-'):
            for a in l.args: s.lenfacts(a)

    def wrap(s, t, ct):
        if ct[0] == 'bool': return t if t.sort == 'bool' else T.not_(T.eq(t, I(0)))
        if ct[0] != 'int': raise Unsupported('integer conversion to %s' % (ct,))
        lo, hi = irange(ct)
        r = s.rng(t)
        if lo <= r[0] and r[1] <= hi: return t
        if T.isint(t):
            n = t.args[0] & ((1 << ct[1]) - 1)
            if ct[2] and n >> (ct[1] - 1): n -= 1 << ct[1]
            return I(n)
        if s.known(T.cmp('<=', I(lo), t)) and s.known(T.cmp('<=', t, I(hi))): return t
        # undo nested wraps to a wider type
        m = re.match(r'app:([us])w(\d+)$', t.op)
        if m and int(m.group(2)) >= ct[1]: t = t.args[0]; 
        return T.app(('s' if ct[2] else 'u') + 'w%d' % ct[1], [t], 'int')

    # ---------- places
    def newtmp(s, val, name='tmp'):
        k = ('tmp', s.ntmp); s.ntmp += 1
        s.vars[k] = val
        return Place(k)

    def read(s, p):
        if not isinstance(p, Place): return p
        if p.root not in s.vars:
            raise Unsupported('read of unknown variable %s' % (p.root,))
        v = s.vars[p.root]
        if s.e.hook_access: s.e.hook_access(s, p, False)
        for a in p.path: v = s.acc(v, a)
        return v
    def acc(s, v, a):
        if a[0] == 'f':
            if isinstance(v, T.T) and v.sort in T.STRUCTS: return T.proj(v, a[1])
            if isinstance(v, dict): return v[a[1]]
            raise Unsupported('field %s of %s' % (a[1], v))
        if a[0] == 'i': return T.index(v, a[1])
        if a[0] == 'k': return T.mget(v, a[1])
        raise Unsupported(str(a))
    def write(s, p, val):
        if s.e.hook_access: s.e.hook_access(s, p, True)
        if s.writelog is not None:
            f = p.path[0][1] if p.path and p.path[0][0] == 'f' else None
            for wl in s.writelog: wl.add((p.root, f))
        s.vars[p.root] = s.upd(s.vars[p.root], p.path, val) if p.path else val
    def upd(s, v, path, val):
        if not path: return val
        a = path[0]
        if a[0] == 'f':
            if isinstance(v, dict):
                d = dict(v); d[a[1]] = s.upd(v[a[1]], path[1:], val); return d
            return T.setf(v, a[1], s.upd(T.proj(v, a[1]), path[1:], val))
        if a[0] == 'i':
            return T.update(v, a[1], s.upd(T.index(v, a[1]), path[1:], val) if path[1:] else val)
        if a[0] == 'k':
            return T.minsert(v, a[1], s.upd(T.mget(v, a[1]), path[1:], val) if path[1:] else val)
        raise Unsupported(str(a))

    def val(s, x):
        return s.read(x) if isinstance(x, Place) else x

    # heap objects by class
    def heap(s, cls):
        k = ('heap', cls)
        if k not in s.vars:
            if cls in ('int', 'bool', 'F64') or cls.startswith('Seq<'): so = cls
            else: so = s.e.struct(cls) if cls in s.prog.recs else cls
            s.vars[k] = T.const('heap_' + re.sub(r'\W+', '_', cls), 'Map<int, %s>' % so)
            s.vnames[k] = 'heap_' + sanitize(cls)
        return Place(k)

    def deref(s, v, ct):
        """v: pointer value; ct: pointee type"""
        if isinstance(v, Ptr): return v.place
        if getattr(v, 'kind', None) in ('map', 'mfind'):
            return {'first': s.map_iter_field(v, 'first'), 'second': s.map_iter_field(v, 'second')}
        if isinstance(v, Iter): return s.iter_place(v)
        if isinstance(v, T.T) and v.sort == 'int':
            s.oblige('nonnull', T.not_(T.eq(v, I(0))), 'pointer dereference')
            for pl, addr in getattr(s, 'addrs', {}).items():
                if v is addr: return pl
            base = ct[1] if ct[0] == 'class' else s.e.sort(ct)
            base = s.e.opts.get('heapclass', {}).get(base, base)
            return s.heap(base).sub(('k', v))
        raise Unsupported('dereference of %s' % (v,))

    # iterators
    def iter_place(s, it):
        if it.kind == 'map':
            raise Unsupported('map iterator dereference as value')
        n = s.length(s.read(it.place))
        i = it.idx if not it.rev else T.sub(n, T.add(it.idx, I(1)))
        s.oblige('bounds', T.and_(T.cmp('<=', I(0), i), T.cmp('<', i, n)), 'iterator dereference')
        return it.place.sub(('i', i))

    # ---------- functions
    def ctype(s, node):
        t = node['type']
        for q in (t.get('desugaredQualType'), t.get('qualType')):
            if q is None: continue
            r = s.types.parse(q)
            if r[0] == 'ptr' and r[1][0] == 'other' and node.get('kind') == 'CXXOperatorCallExpr':      # smart pointer ->: element_type
                inn = s.inner(node)
                a = s.ctype(inn[1]) if len(inn) == 2 else r
                while a[0] == 'ref': a = a[1]
                if a[0] == 'sptr': return ('ptr', a[1])
            if r[0] not in ('other', 'iter?'): return r
        return s.types.parse(t.get('desugaredQualType') or t['qualType'])

    def inner(s, n): return [c for c in n.get('inner', []) if c and c.get('kind') not in SKIP and c.get('kind')]

    def call(s, fn, this, args, node=None, virtual=False):
        """args: list of evaluated args (Place for refs, values otherwise); this: Place or None"""
        for c in s.e.contracts:
            if c.matches(fn) and not (s.frames[-1].fn is None):
                s.e.used_contracts.add(fn.qual)
                return c.apply(s, fn, this, args)
        if fn.body is None: raise Unsupported('no body for %s' % fn.qual)
        if len(s.frames) > 14 or sum(1 for f in s.frames if f.fn is not None and f.fn.cid == fn.cid) >= 1:
            raise Unsupported('recursive call of %s without contract' % fn.qual)
        if s.frames[-1].fn is not None: s.e.inlined.add(fn.qual)
        return s.run_fn(fn, this, args, node)

    def run_fn(s, fn, this, args, node=None, obj_init=None):
        path = s.frames[-1].path + ((node or {}).get('id'),)
        fr = Frame(fn, this, s.e.frameno(path), path)
        s.frames.append(fr)
        saved_line = s.line
        try:
            for i, p in enumerate(fn.params):
                k = ('v', fr.no, p['id'])
                ct = s.types.parse(ptype(p))
                if i < len(args) and not isinstance(args[i], Default): a = args[i]
                else:
                    d = s.prog.default_args.get(fn.cid, {}).get(i)
                    if d is None: raise Unsupported('missing argument %d of %s' % (i, fn.qual))
                    a = s.ev(d)
                    if ct[0] != 'ref': a = s.val(a)
                    elif not isinstance(a, Place): a = s.newtmp(a)
                s.bind(k, p.get('name', 'p%d' % i), ct, a)
            for ini in fn.inits: s.ctor_init(ini, this, fn)
            ret = None
            s.scopes.append([])
            try:
                s.stmt(fn.body)
            except CReturn as r: ret = r.v
            except (CThrow,):
                s.cleanup(); raise
            s.cleanup()
            return ret
        finally:
            s.frames.pop(); s.line = saved_line

    def bind(s, k, name, ct, a):
        s.vnames[k] = name; s.vtypes[k] = ct
        if ct[0] == 'ref':
            if isinstance(a, Place): s.refs[k] = a; s.vars.pop(k, None)
            else: s.refs.pop(k, None); s.vars[k] = a if not isinstance(a, T.T) else a; 
        else:
            s.refs.pop(k, None)
            s.vars[k] = s.val(a)
        s.frames[-1].locals.append(k)

    def cleanup(s):
        for c in reversed(s.scopes.pop()): c()

    def ctor_init(s, ini, this, fn):
        inn = s.inner(ini)
        if 'anyInit' in ini:
            f = ini['anyInit']['name']
            p = this.sub(('f', f))
            s.init_place(p, inn[0], s.types.parse(ini['anyInit']['type'].get('desugaredQualType', ini['anyInit']['type']['qualType'])))
        elif 'baseInit' in ini:
            ct = s.types.parse(ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType']))
            if inn and ct[0] == 'class':
                n = inn[0]
                while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'): n = s.inner(n)[0]
                if n['kind'] == 'CXXConstructExpr': s.construct(ct[1], n, this)
                elif n['kind'] == 'CXXInheritedCtorInitExpr': raise Unsupported('inherited constructor')
            # base classes outside SoDa (std::runtime_error): no modelled state
        else:
            raise Unsupported('constructor initialiser form')

    def init_place(s, p, n, ct):
        v = s.ev(n)
        if ct[0] == 'ref': raise Unsupported('reference member')
        s.write(p, s.conv(s.val(v), ct))

    def conv(s, v, ct):
        """normalise a value for storage in an object of type ct"""
        if isinstance(v, dict) and ct[0] == 'pair':      # a copy of a map element / of an insert result
            a, b = s.val(v['first']), s.val(v['second'])
            if isinstance(a, T.T) and isinstance(b, T.T): return T.ctor(s.e.sort(ct), [a, b])
            return {'first': a, 'second': b}
        if isinstance(v, Ptr):
            a = s.addr(v)
            if a is not None and (ct[0] != 'class'): return a
        if ct[0] == 'int' and isinstance(v, T.T) and v.sort == 'bool': return T.ite(v, I(1), I(0))
        return v

    def default_value(s, ct, name='v'):
        """value-initialised object"""
        k = ct[0]
        if k == 'int': return I(0)
        if k == 'bool': return FALSE
        if k in ('string',): return T.empty('int')
        if k in ('list', 'vector', 'queue', 'deque', 'stack', 'set'): return T.empty(s.e.sort(ct[1]))
        if k == 'map': return T.mempty(s.e.sort(ct))
        if k in ('ptr', 'sptr', 'null', 'func'): return I(0)
        if k in ('mutex', 'cv', 'duration', 'other'): return I(0)
        if k == 'double': return T.app('f64_of_int', [I(0)], 'F64')
        if k == 'sstream': return s.new_ss()
        if k == 'class': return s.uninit(ct, name)
        if k == 'pair':
            so = s.e.sort(ct); return T.ctor(so, [s.default_value(ct[1]), s.default_value(ct[2])])
        raise Unsupported('default value of %s' % (ct,))
    def new_ss(s, **kw):
        if 'SS' not in T.STRUCTS:
            declare_ss()
        d = dict(buf=T.empty('int'), width=I(0), fill=I(32), base=I(10), left=I(0), upper=FALSE, showbase=FALSE, fmode=I(0), prec=I(6), inp=T.empty('int'), pos=I(0), ok=TRUE)
        d.update(kw)
        return T.ctor('SS', [d[f] for f, _ in T.STRUCTS['SS']])
    def uninit(s, ct, name):
        """indeterminate scalar / default-constructed class members"""
        k = ct[0]
        if k in ('int', 'bool', 'double', 'ptr', 'other', 'mutex', 'cv', 'duration'):
            so = s.e.sort(ct)
            return s.typed(s.fresh(name, so), ct)
        if k == 'class':
            sn = s.e.struct(ct[1])
            fl = s.e.fields(ct[1])
            if not fl: return T.ctor(sn, [I(0)])
            return T.ctor(sn, [s.uninit(c, name + '_' + f) for f, c in fl])
        return s.default_value(ct)

    def construct(s, cls, n, place):
        """run constructor n (CXXConstructExpr) of SoDa class cls on place"""
        args = [c for c in s.inner(n)]
        sig = n.get('ctorType', {}).get('qualType', '')
        m = re.match(r'.*?\((.*)\)', sig)
        cands = [f for f in s.prog.recs[cls].methods if f.node['kind'] == 'CXXConstructorDecl']
        norm = lambda x: strip(x.split('(', 1)[1].rsplit(')', 1)[0]) if '(' in x else x
        pick = [f for f in cands if norm(f.node['type']['qualType']) == norm(sig)]
        fn = None
        for f in pick:
            b = s.prog.fn_by_id.get(f.cid)
            if b is not None and b.body is not None: fn = b
        if fn is None:
            for f in pick:
                if not f.node.get('isImplicit') and any(c.matches(f) for c in s.e.contracts): fn = f
        if fn is None:
            # implicit copy / move / default constructor
            if len(args) == 1 and s.ctype(args[0]) in (('class', cls), ('ref', ('class', cls))):
                s.write(place, s.val(s.ev(args[0]))); return
            if len(args) == 0 and (not pick or pick[0].node.get('isImplicit') or pick[0].node.get('explicitlyDefaulted')):
                # implicit default constructor: bases and members default-initialised (already so)
                for b in s.prog.recs[cls].bases:
                    ct = s.types.parse(b)
                    if ct[0] == 'class':
                        bc = [f for f in s.prog.recs[ct[1]].methods if f.node['kind'] == 'CXXConstructorDecl' and not f.params]
                        for f in bc:
                            fb = s.prog.fn_by_id.get(f.cid)
                            if fb is not None and fb.body is not None: s.call(fb, place, [], n)
                return
            raise Unsupported('constructor %s(%s)' % (cls, sig))
        vals = s.eval_args(fn, args)
        s.call(fn, place, vals, n)

    def eval_args(s, fn, args):
        out = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr': out.append(Default()); continue
            ct = s.types.parse(ptype(fn.params[i])) if i < len(fn.params) else ('other', '')
            v = s.ev(a)
            if ct[0] == 'ref':
                if not isinstance(v, Place) and isinstance(v, T.T): v = s.newtmp(v)
            else: v = s.val(v)
            out.append(v)
        return out

    # ---------- statements
    def stmt(s, n):
        k = n['kind']
        ln = loc_line(n)
        if ln: s.line = ln
        m = getattr(s, 'st_' + k, None)
        if m: return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            s.ev(n); return
        raise Unsupported('statement %s' % k)

    def st_CompoundStmt(s, n):
        s.scopes.append([])
        try:
            for c in s.inner(n): s.stmt(c)
        except (CReturn, CBreak, CContinue, CThrow):
            s.cleanup(); raise
        s.cleanup()
    def st_NullStmt(s, n): pass
    def st_AttributedStmt(s, n): s.stmt(s.inner(n)[-1])
    def st_LabelStmt(s, n): s.stmt(s.inner(n)[-1])
    def st_DeclStmt(s, n):
        for c in s.inner(n):
            if c['kind'] == 'VarDecl': s.vardecl(c)
            elif c['kind'] in ('CXXRecordDecl', 'EnumDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'UsingDecl', 'EmptyDecl'):
                if c['kind'] == 'EnumDecl': s.prog._reg(c, 'local')
                if c['kind'] == 'CXXRecordDecl': s.prog._reg(c, 'local')
            else: raise Unsupported('declaration %s' % c['kind'])
    def vardecl(s, c):
        k = ('v', s.frames[-1].no, c['id'])
        ct = s.ctype(c)
        if c.get('storageClass') == 'static':
            raise Unsupported('static local')
        inn = s.inner(c)
        name = c.get('name', 'v')
        if ct[0] == 'lock': return s.lock_decl(k, c, ct, inn)
        if not inn:
            s.bind(k, name, ct, s.uninit(ct, name)); s.note_decl(k); return
        v = s.ev(inn[-1])
        if ct[0] == 'ref':
            s.outlives(inn[-1])
            if isinstance(v, T.T): v = s.newtmp(v)
            s.bind(k, name, ct, v)
        else:
            s.bind(k, name, ct, s.conv(s.val(v), ct))
        s.note_decl(k)
    def outlives(s, n):
        """a reference bound to n: n must not live inside a temporary that ends with the full expression
        (an object reached through the operator-> of a temporary proxy; binding through '.' extends the life)"""
        while n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'MemberExpr'): n = s.inner(n)[0]
        if n['kind'] != 'CXXOperatorCallExpr': return
        a = s.inner(n)
        if len(a) != 2 or s.inner(a[0])[0].get('referencedDecl', {}).get('name') != 'operator->': return
        o = a[1]
        while o['kind'] in ('ParenExpr', 'ImplicitCastExpr'): o = s.inner(o)[0]
        if o['kind'] == 'MaterializeTemporaryExpr' and re.search(r'\bproxy\b', o['type'].get('qualType', '')):
            s.oblige('requires', FALSE, 'a reference does not outlive the temporary it refers into')
    def note_decl(s, k):
        if s.writelog is not None:
            for wl in s.writelog: wl.add((k, None))

    def lock_decl(s, k, c, ct, inn):
        n = inn[-1]
        while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'): n = s.inner(n)[0]
        if n['kind'] != 'CXXConstructExpr': raise Unsupported('lock construction')
        args = [s.ev(a) for a in s.inner(n) if a['kind'] != 'CXXDefaultArgExpr']
        if not args or not isinstance(args[0], Place): raise Unsupported('lock of unknown mutex')
        deferred = any(isinstance(a, Opaque) and 'defer' in a.what for a in args[1:])
        if len(args) > 1 and not deferred: raise Unsupported('lock options')
        lk = Lock(args[0], False)
        s.vars[k] = lk; s.vnames[k] = c.get('name', 'lock'); s.vtypes[k] = ct; s.frames[-1].locals.append(k)
        if not deferred: s.acquire(lk)
        def rel():
            if lk.owns: s.release(lk)
        s.scopes[-1].append(rel)
    def acquire(s, lk):
        if s.line: pass
        s.oblige('lock', B(lk.mutex not in s.locks), 'mutex is not already held by this thread (self deadlock)')
        lk.owns = True; s.locks.add(lk.mutex)
        s.lockcount[lk.mutex] = s.lockcount.get(lk.mutex, 0) + 1
        s.events.append(('acquire', lk.mutex))
        if s.monitor: s.monitor.acquire(s, lk)
    def release(s, lk):
        s.oblige('lock', B(lk.mutex in s.locks), 'mutex is held when released')
        lk.owns = False; s.locks.discard(lk.mutex)
        s.events.append(('release', lk.mutex))
        if s.monitor: s.monitor.release(s, lk)

    def st_IfStmt(s, n):
        inn = s.inner(n)
        s.scopes.append([])
        try:
            if n.get('hasInit'): s.stmt(inn[0]); inn = inn[1:]
            if n.get('hasVar'): s.stmt(inn[0]); inn = inn[1:]
            c = s.cond(inn[0])
            if s.branch(c): s.stmt(inn[1])
            elif len(inn) > 2: s.stmt(inn[2])
        except (CReturn, CBreak, CContinue, CThrow):
            s.cleanup(); raise
        s.cleanup()

    def cond(s, n):
        v = s.val(s.ev(n))
        return s.tobool(v)
    def tobool(s, v):
        if isinstance(v, T.T):
            if v.sort == 'bool': return v
            if v.sort == 'int': return T.not_(T.eq(v, I(0)))
        if isinstance(v, Ptr): return TRUE
        raise Unsupported('condition value %s' % (v,))

    def st_ReturnStmt(s, n):
        inn = s.inner(n)
        if not inn: raise CReturn(None)
        v = s.ev(inn[0])
        fn = s.frames[-1].fn
        rt = None
        if fn is not None:
            rts = fn.type[:fn.type.index('(')].strip() if '(' in fn.type else ''
            if rts.endswith('&') : 
                if not isinstance(v, Place) and isinstance(v, T.T): v = s.newtmp(v)
                raise CReturn(v)
        raise CReturn(s.val(v))
    def st_BreakStmt(s, n): raise CBreak()
    def st_ContinueStmt(s, n): raise CContinue()

    def st_SwitchStmt(s, n):
        inn = s.inner(n)
        v = s.val(s.ev(inn[0]))
        body = inn[-1]
        flat = []
        def flatten(st):
            if st['kind'] == 'CaseStmt':
                ii = s.inner(st); flat.append(('case', ii[0]))
                if len(ii) > 1: flatten(ii[-1])
            elif st['kind'] == 'DefaultStmt':
                flat.append(('default',)); flatten(s.inner(st)[0])
            else: flat.append(('stmt', st))
        if body['kind'] == 'CompoundStmt':
            for c in s.inner(body): flatten(c)
        else: flatten(body)
        start = None; dflt = None
        groups = []      # labels in front of the same statement are decided together
        for i, f in enumerate(flat):
            if f[0] == 'stmt': continue
            if i == 0 or flat[i - 1][0] == 'stmt': groups.append([i, [], False])
            if f[0] == 'default': dflt = i; groups[-1][2] = True
            else: groups[-1][1].append(s.val(s.ev(f[1])))
        for i, cvs, isd in groups:
            if isd or not cvs: continue
            if s.branch(T.or_(*[T.eq(v, c) for c in cvs])): start = i; break
        if start is None: start = dflt
        if start is None: return
        s.scopes.append([])
        try:
            for f in flat[start:]:
                if f[0] == 'stmt': s.stmt(f[1])
        except CBreak: pass
        except (CReturn, CContinue, CThrow):
            s.cleanup(); raise
        s.cleanup()

    def st_CXXTryStmt(s, n):
        inn = s.inner(n)
        try:
            s.stmt(inn[0])
        except CThrow as t:
            for c in inn[1:]:
                ci = s.inner(c)
                if len(ci) == 1: return s.stmt(ci[0])   # catch(...)
                d, body = ci[0], ci[1]
                ct = d['type'].get('desugaredQualType', d['type']['qualType'])
                if s.catches(ct, t.typ):
                    k = ('v', s.frames[-1].no, d['id'])
                    s.vars[k] = t.val if isinstance(t.val, T.T) else Opaque('exception')
                    s.vnames[k] = d.get('name', 'exc'); s.vtypes[k] = ('other', ct)
                    s.curexc = t
                    return s.stmt(body)
            raise
    STDBASE = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
               'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
               'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'YAML::BadFile': 'YAML::Exception', 'YAML::ParserException': 'YAML::Exception', 'YAML::RepresentationException': 'YAML::Exception', 'YAML::InvalidNode': 'YAML::RepresentationException', 'YAML::BadConversion': 'YAML::RepresentationException', 'YAML::TypedBadConversion<std::string>': 'YAML::BadConversion', 'YAML::Exception': 'std::runtime_error'}
    def exc_bases(s, t):
        t = strip(t).rstrip('&').rstrip('*')
        out = [t]
        r = s.types.find_rec(t)
        if r:
            out = [r]
            for b in s.prog.recs[r].bases: out += s.exc_bases(b)
        elif t in s.STDBASE: out += s.exc_bases(s.STDBASE[t])
        elif 'std::' + t in s.STDBASE: out += s.exc_bases('std::' + t)
        return out
    def catches(s, ct, typ):
        c = s.exc_bases(ct)[0]
        return c in s.exc_bases(typ)

    # ---------- loops
    def st_WhileStmt(s, n):
        inn = s.inner(n)
        if n.get('hasVar'): raise Unsupported('while with declaration')
        s.loop(n, lambda: s.cond(inn[0]), lambda: s.stmt(inn[1]), None)
    def st_DoStmt(s, n):
        inn = s.inner(n)
        # do B while(c)  ==  B; while(c) B   (break/continue handled)
        c0 = s.prog_const_false(inn[1])
        if c0:
            try: s.stmt(inn[0])
            except CBreak: pass
            except CContinue: pass
            return
        try: s.stmt(inn[0])
        except CBreak: return
        except CContinue: pass
        s.loop(n, lambda: s.cond(inn[1]), lambda: s.stmt(inn[0]), None)
    def prog_const_false(s, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'ConstantExpr'): n = s.inner(n)[0]
        return (n['kind'] == 'CXXBoolLiteralExpr' and n.get('value') is False) or (n['kind'] == 'IntegerLiteral' and n.get('value') == '0')
    def st_ForStmt(s, n):
        raw = n.get('inner', [])
        # clang: init, condvar, cond, inc, body (nulls are {})
        init, cv, cond, inc, body = (raw + [None] * 5)[:5]
        ok = lambda x: x and x.get('kind')
        if ok(cv): raise Unsupported('for with condition variable')
        s.scopes.append([])
        try:
            if ok(init): s.stmt(init)
            s.loop(n, (lambda: s.cond(cond)) if ok(cond) else (lambda: TRUE), lambda: s.stmt(body), (lambda: s.ev(inc)) if ok(inc) else None)
        except (CReturn, CThrow):
            s.cleanup(); raise
        s.cleanup()
    def st_CXXForRangeStmt(s, n):
        raw = n.get('inner', [])
        # init, range decl, begin, end, cond, inc, loopvar decl, body
        rng, var, body = raw[1], raw[-2], raw[-1]
        if raw[0] and raw[0].get('kind'): raise Unsupported('range-for with init')
        rv = s.inner(rng)[0]
        v = s.ev(s.inner(rv)[-1])
        s.outlives(s.inner(rv)[-1])
        h = s.e.opts.get('range')
        if h: v = h(s, v, n)
        if isinstance(v, T.T): v = s.newtmp(v)
        if not isinstance(v, Place): raise Unsupported('range-for over %s' % (v,))
        vt = s.inner(var)[0]
        ct = s.ctype(vt)
        kidx = ('v', s.frames[-1].no, n['id'] + '#idx')
        s.vars[kidx] = I(0); s.vnames[kidx] = 'idx'; s.vtypes[kidx] = ('int', 64, False); s.frames[-1].locals.append(kidx)
        rk = ('v', s.frames[-1].no, n['id'] + '#range')
        s.refs[rk] = v; s.vnames[rk] = 'range'; s.vtypes[rk] = s.ctype(rv); s.frames[-1].locals.append(rk)
        cont = s.read(v)
        ismap = T.is_map(cont.sort)
        if ismap:
            ks = map_keys(s, cont)
        lenterm = {}
        def cond():
            c = s.read(v)
            if ismap:
                # the key set must not change while iterating
                l = T.length(ks)
                return T.cmp('<', s.vars[kidx], l)
            return T.cmp('<', s.vars[kidx], s.length(c))
        def bodyf():
            k = ('v', s.frames[-1].no, vt['id'])
            i = s.vars[kidx]
            if ismap:
                key = T.index(ks, i)
                s.oblige('bounds', T.mhas(s.read(v), key), 'map iteration: current key still present', prop=False)
                pt = s.e.sort(('pair', s.ctype_elem(s.vtypes[rk], 1), s.ctype_elem(s.vtypes[rk], 2)))
                if ct[0] == 'ref' and not (vt['type'].get('desugaredQualType') or vt['type']['qualType']).strip().startswith('const '):
                    s.refs[k] = None; s.vars[k] = {'first': key, 'second': v.sub(('k', key))}
                    s.vnames[k] = vt.get('name'); s.vtypes[k] = ct; s.frames[-1].locals.append(k)
                    s.pairrefs = getattr(s, 'pairrefs', {}); s.pairrefs[k] = (key, v.sub(('k', key)))
                    s.refs.pop(k)
                else:
                    s.bind(k, vt.get('name'), ct if ct[0] != 'ref' else ct[1], T.ctor(pt, [key, T.mget(s.read(v), key)]))
                    s.note_decl(k)
            else:
                el = v.sub(('i', i))
                if ct[0] == 'ref':
                    s.bind(k, vt.get('name'), ct, el)
                else:
                    w = s.elemtype(s.vtypes[rk], v)
                    x = s.typed(s.read(el), w or ct)
                    if w != ct and isinstance(x, T.T) and x.sort == 'int' and ct[0] == 'int': x = s.wrap(x, ct)
                    s.bind(k, vt.get('name'), ct, x)
                s.note_decl(k)
            s.stmt(body)
        def step():
            s.write(Place(kidx), T.add(s.vars[kidx], I(1)))
        if ismap:
            s.assume_map_keys(cont, ks)
        s.loop(n, cond, bodyf, step, auto=('range', kidx, v, ks if ismap else None))
    def ctype_elem(s, ct, i):
        while ct[0] == 'ref': ct = ct[1]
        return ct[i]
    def elemtype(s, ct, v):
        """element type of the range (None if unknown): a loop variable of another integer type converts"""
        while ct and ct[0] == 'ref': ct = ct[1]
        if ct and ct[0] in ('string', 'cstr'): return ('int', 8, True)
        if ct and ct[0] in ('list', 'vector', 'deque') and len(ct) > 1 and isinstance(ct[1], tuple): return ct[1]
        return None
    def assume_map_keys(s, m, ks): map_key_facts(s, m, ks)

    def loopkey(s, n): return s.frames[-1].path + (n['id'],)

    def loop(s, n, cond, body, step, auto=None):
        key = s.loopkey(n)
        L = s.e.loops.get(key)
        if L is None: L = s.e.loops[key] = Loop(); L.line = s.line; L.fn = s.frames[-1].fn.qual if s.frames[-1].fn else '?'
        entry = dict(s.vars)
        frame = s.frames[-1]
        if s.writelog is None: s.writelog = []
        # names visible at the head
        env = s.loop_env(auto)
        if L.cands is None or L.candmods != frozenset(L.mods):
            L.cands = s.make_cands(L, env, auto); L.candmods = frozenset(L.mods)
            L.meas = s.make_measures(L, env, auto)
        live = [(i, c) for i, c in enumerate(L.cands) if (key, c[2]) not in s.e.cand_killed]
        ename = '%s loop@%s' % (L.fn, L.line)
        # 1. entry
        for i, c in live:
            g = s.inst(c, env, entry, entry)
            if g is TRUE: continue
            s.oblige('invariant-entry', g, '%s: %s' % (ename, c[2]), cand=(key, c[2]), then=False)
        # 2. havoc
        for (root, f) in sorted(L.mods, key=str):
            if root not in entry: continue
            s.havoc(root, f, L)
        for i, c in live:
            s.assume(s.inst(c, env, entry, s.vars))
        hint_new = []
        for i, c in live:
            h = s.inst_hint(c, env, entry, s.vars)
            if h: hint_new += h
        s.active_hints.append(hint_new)
        head = dict(s.vars)
        measures = [(m, s.inst(m, env, entry, s.vars, 'int')) for m in L.meas if (key, m[2]) not in s.e.meas_killed and all(e[1] is None or e[1] in s.vars for e in m[1].values())]
        # 3. condition
        wl = set(); s.writelog.append(wl)
        c = cond()
        if not s.branch(c):
            s.writelog.pop(); s.log_mods(L, wl, entry)
            s.loop_exit(auto, env)
            return
        try:
            body()
        except CBreak:
            s.writelog.pop(); s.log_mods(L, wl, entry)
            return
        except CContinue: pass
        except (CReturn, CThrow):
            s.writelog.pop(); s.log_mods(L, wl, entry)
            raise
        except PathEnd:
            s.writelog.pop(); s.log_mods(L, wl, entry)
            raise
        if step: step()
        s.writelog.pop(); s.log_mods(L, wl, entry)
        s.line = L.line
        for root in L.ssmods:
            if root in head and root in s.vars:
                for fl, _ in T.STRUCTS['SS']:
                    if fl not in L.ssmods[root] and T.proj(s.vars[root], fl) is not T.proj(head[root], fl):
                        L.ssmods[root].add(fl); s.e.changed = True
        for i, cc in live:
            g = s.inst(cc, env, entry, s.vars)
            h = s.inst_hint(cc, env, entry, s.vars)
            s.active_hints.append(h or [])
            s.oblige('invariant-preserved', g, '%s: %s' % (ename, cc[2]), cand=(key, cc[2]), then=False)
            s.active_hints.pop()
        for m, old in measures:
            new = s.inst(m, env, entry, s.vars, 'int')
            s.oblige('decreases', T.and_(T.cmp('<', new, old), T.cmp('<=', I(0), old)), '%s: %s' % (ename, m[2]), cand=('meas', key, m[2]), then=False)
        if not measures:
            s.oblige('termination', FALSE, '%s: no decreasing measure found' % ename, prop=True)
        raise PathEnd()

    def loop_exit(s, auto, env):
        pass

    def log_mods(s, L, wl, entry):
        for (root, f) in wl:
            if root in entry and (root, f) not in L.mods and (root, None) not in L.mods:
                L.mods.add((root, f)); s.e.changed = True

    def havoc(s, root, f, L=None):
        v = s.vars[root]
        if L is not None and isinstance(v, T.T) and v.sort == 'SS' and f is None:
            # only the fields of a stream that differ at a back edge are havocked
            for fl in sorted(L.ssmods.setdefault(root, {'buf'})):
                old = T.proj(v, fl); nv = s.fresh('%s_%s' % (s.vnames.get(root, 'ss'), fl), old.sort)
                v = T.setf(v, fl, nv)
            s.vars[root] = v
            return
        name = s.vnames.get(root, root[0] if isinstance(root[0], str) else 'v')
        if f is not None:
            if isinstance(v, T.T):
                old = T.proj(v, f)
                ct = s.fieldtype(root, f)
                nv = s.fresh(str(name) + '_' + f, old.sort)
                s.vars[root] = T.setf(v, f, nv)
                if ct: s.typed(nv, ct)
                return
            raise Unsupported('havoc of %s.%s' % (root, f))
        if isinstance(v, T.T):
            nv = s.fresh(str(name), v.sort)
            s.vars[root] = nv
            ct = s.vtypes.get(root)
            if ct: s.typed(nv, ct[1] if ct[0] == 'ref' else ct)
        elif isinstance(v, Iter):
            nv = s.fresh(str(name) + '_i', 'int')
            s.vars[root] = v.at(nv)
        else:
            raise Unsupported('loop modifies %s of unsupported kind' % (name,))
    def fieldtype(s, root, f):
        ct = s.vtypes.get(root)
        if ct and ct[0] == 'ref': ct = ct[1]
        if ct and ct[0] == 'class':
            for fn, c in s.e.fields(ct[1]):
                if fn == f: return c
        return None

    # candidate machinery
    def loop_env(s, auto):
        """list of (label, getter(vars)->term, sort, ctype, rootkey)"""
        env = []
        seen = set()
        fr = s.frames[-1]
        def addv(label, root, path, ct):
            if (root, path) in seen: return
            seen.add((root, path))
            v = s.vars.get(root)
            if v is None: return
            try:
                for a in path: v = s.acc(v, a)
            except (Unsupported, KeyError, AssertionError): return
            if isinstance(v, Iter):
                env.append((label, root, path + (('idx',),), 'int', ('int', 64, False)))
                if v.base is not None: env.append((label + '.keys', None, v.base[1], v.base[1].sort, None))
                addv(label + '_c', v.place.root, v.place.path, None)
                return
            if not isinstance(v, T.T): return
            env.append((label, root, path, v.sort, ct))
            if v.sort in T.STRUCTS and (v.sort != 'SS'):
                for f, so in T.STRUCTS[v.sort]:
                    fct = None
                    c0 = ct[1] if ct and ct[0] == 'ref' else ct
                    if c0 and c0[0] == 'class':
                        for fn, c in s.e.fields(c0[1]):
                            if fn == f: fct = c
                    env.append((label + '.' + f, root, path + (('f', f),), so, fct))
            if v.sort == 'SS':
                env.append((label + '.buf', root, path + (('f', 'buf'),), 'Seq<int>', ('string',)))
        frames = s.frames if s.e.opts.get('allframes', False) else s.frames[-1:]
        for f in frames:
            for k in f.locals:
                if k in s.refs:
                    p = s.refs[k]
                    if all(a[0] == 'f' for a in p.path): addv(s.vnames.get(k, '?'), p.root, p.path, s.vtypes.get(k))
                    elif p.path[-1][0] == 'k' and all(a[0] == 'f' for a in p.path[:-1]):
                        nm = s.vnames.get(k, '?')      # reference to the element of a map
                        addv(nm, p.root, p.path, s.vtypes.get(k)); addv(nm + '.map', p.root, p.path[:-1], None)
                        env.append((nm + '.key', None, p.path[-1][1], p.path[-1][1].sort, None))
                elif k in s.vars: addv(s.vnames.get(k, '?'), k, (), s.vtypes.get(k))
            if f.this is not None and all(a[0] == 'f' for a in f.this.path):
                addv('this', f.this.root, f.this.path, s.vtypes.get(f.this.root))
        for k in s.vars:
            if k[0] in ('heap', 'glob', 'ghost'): addv(s.vnames.get(k, str(k)), k, (), s.vtypes.get(k))
        return env

    def tagmatch(s, tag, so, ct):
        while ct is not None and ct[0] == 'ref': ct = ct[1]
        if tag == 'str': return so == 'Seq<int>'
        if tag == 'seqn': return so.startswith('Seq<') and so != 'Seq<int>'
        if tag == 'int': return so == 'int' and (ct is None or (ct[0] == 'int' and ct[1] > 8))
        if tag == 'chr': return so == 'int' and ct is not None and ct[0] == 'int' and ct[1] == 8
        if tag == 'ref': return so == 'int' and ct is not None and ct[0] in ('sptr', 'ptr')
        if tag == 'bool': return so == 'bool'
        return so == tag

    def modified(s, L, e):
        _, root, path, so, ct = e
        for (r, f) in L.mods:
            if r == root and (f is None or not path or path[0] == ('f', f) or path[0][0] == 'idx'): return True
        return False

    def make_cands(s, L, env, auto):
        out = []
        names = set()
        def addc(tmpl, binding):
            nm = tmpl.name if not binding else tmpl.clean
            for v, e in binding.items(): nm = nm.replace('{%s}' % v, e[0]).replace('{%s.' % v, '{%s.' % e[0])
            key = nm
            j = 0
            while key in names: j += 1; key = nm + '#%d' % j
            names.add(key)
            out.append((tmpl, binding, key))
        def fallsto(tmpl):
            vs = list(tmpl.vars.items())
            pools = []
            for v, tag in vs:
                want_mod = None
                t2 = tag
                if tag.endswith('!'): want_mod = True; t2 = tag[:-1]
                elif tag.endswith('='): want_mod = False; t2 = tag[:-1]
                pl = [e for e in env if s.tagmatch(t2, e[3], e[4]) and (want_mod is None or s.modified(L, e) == want_mod)]
                pools.append(pl)
            cnt = 0
            for combo in itertools.product(*pools):
                if len(set((c[1], c[2]) for c in combo)) < len(combo): continue
                if combo and not any(s.modified(L, c) for c in combo): continue
                addc(tmpl, dict(zip([v for v, _ in vs], combo)))
                cnt += 1
                if cnt > 150: break
        for t in s.e.templates: fallsto(t)
        for t in AUTO: fallsto(t)
        if auto and auto[0] == 'range':
            pass
        return out

    def make_measures(s, L, env, auto):
        out = []; names = set()
        for t in list(s.e.opts.get('measures', [])) + MEASURES:
            vs = list(t.vars.items()); pools = []
            for v, tag in vs:
                want_mod = None; t2 = tag
                if tag.endswith('!'): want_mod = True; t2 = tag[:-1]
                elif tag.endswith('='): want_mod = False; t2 = tag[:-1]
                pools.append([e for e in env if s.tagmatch(t2, e[3], e[4]) and (want_mod is None or s.modified(L, e) == want_mod)])
            for combo in itertools.product(*pools):
                if len(set((c[1], c[2]) for c in combo)) < len(combo): continue
                if not any(s.modified(L, c) for c in combo): continue
                b = dict(zip([v for v, _ in vs], combo))
                nm = t.clean
                for v, e in b.items(): nm = nm.replace('{%s}' % v, e[0])
                while nm in names: nm += "'"
                names.add(nm)
                out.append((t, b, nm))
                if len(out) > 40: return out
        if auto and auto[0] == 'range' and auto[3] is not None:
            ks = auto[3]
            t = Template('{K} - {i:int}', name='keys - idx')
            e = [x for x in env if x[1] == auto[1]]
            if e: out.append((t, {'i': e[0], 'K': ('keys', None, T.length(ks))}, 'keys-idx'))
        return out

    def getv(s, e, vars_):
        if e[1] is None: return e[2]
        v = vars_[e[1]]
        for a in e[2]:
            if a[0] == 'idx': v = v.idx
            else: v = s.acc(v, a)
        return v

    def inst_text(s, text, c, env, entry, vars_):
        args = []; d = {}
        def sub(m):
            nm = m.group(1)
            if nm in d: return '{%d}' % d[nm]
            if nm.endswith('.entry'):
                b = c[1].get(nm[:-6]); t = s.getv(b, entry) if b else None
            elif nm in c[1]: t = s.getv(c[1][nm], vars_)
            elif nm in s.entry: t = s.entry[nm]
            else: raise Unsupported('template variable %s' % nm)
            if t is None or not isinstance(t, T.T): raise Unsupported('template variable %s has no term' % nm)
            d[nm] = len(args); args.append(t)
            return '{%d}' % d[nm]
        text = re.sub(r'\{([\w.]+)\}', sub, text)
        return text, args
    def inst(s, c, env, entry, vars_, sort='bool'):
        # a candidate that speaks of an object this path does not have says nothing on this path
        if sort == 'bool' and any(e[1] is not None and (e[1] not in entry or e[1] not in vars_) for e in c[1].values()): return TRUE
        tm = c[0]
        if callable(getattr(tm, 'fn', None)):
            a = {v: s.getv(e, vars_) for v, e in c[1].items()}
            return tm.fn(s, **a)
        text, args = s.inst_text(tm.clean, c, env, entry, vars_)
        return T.raw('(' + text + ')', sort, *args)
    def inst_hint(s, c, env, entry, vars_):
        tm = c[0]
        if not tm.hclean or any(e[1] is not None and (e[1] not in entry or e[1] not in vars_) for e in c[1].values()): return None
        text, args = s.inst_text(tm.hclean, c, env, entry, vars_)
        return [T.raw(text, 'bool', *args)]

    # ---------- expressions
    def ev(s, n):
        m = getattr(s, 'ex_' + n['kind'], None)
        if m is None: raise Unsupported('expression %s' % n['kind'])
        return m(n)

    def pass_(s, n): return s.ev(s.inner(n)[0])
    ex_ParenExpr = ex_ExprWithCleanups = ex_CXXBindTemporaryExpr = ex_ConstantExpr = ex_SubstNonTypeTemplateParmExpr = ex_FullExpr = pass_
    def ex_MaterializeTemporaryExpr(s, n):
        v = s.ev(s.inner(n)[0])
        if isinstance(v, T.T): return s.newtmp(v)
        return v
    def ex_IntegerLiteral(s, n): return I(int(n['value']))
    def ex_CharacterLiteral(s, n):
        v = int(n['value']); return I(v if v < 128 else v - 256)
    def ex_CXXBoolLiteralExpr(s, n): return B(n['value'])
    def ex_CXXNullPtrLiteralExpr(s, n): return I(0)
    def ex_GNUNullExpr(s, n): return I(0)
    def ex_StringLiteral(s, n):
        return T.strlit(cstring_bytes(n['value']))
    def ex_FloatingLiteral(s, n):
        return f64lit(n['value'])
    def ex_CXXThisExpr(s, n):
        t = s.frames[-1].this
        if t is None: raise Unsupported('this')
        return Ptr(t)
    def ex_DeclRefExpr(s, n):
        r = n['referencedDecl']; k = r['kind']
        if k == 'EnumConstantDecl':
            if r['id'] in s.prog.enums: return I(s.prog.enums[r['id']])
            h = s.e.opts.get('enumval')
            if h:
                x = h(s, r)
                if x is not None: return x
            return Opaque('enum:' + r.get('name', ''))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncRef(n)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for fr in reversed(s.frames):
                key = ('v', fr.no, r['id'])
                cap = fr.caps.get(r['id']) if fr.caps else None
                if cap is not None: return cap
                if key in s.refs: return s.refs[key]
                if key in s.vars:
                    return Place(key)
                if fr.fn is not None and not fr.caps and not fr.lam: break
            # global / static member
            cid = s.prog.canon.get(r['id'], r['id'])
            g = s.prog.globals.get(r['id']) or s.prog.globals.get(cid)
            nm = r.get('name')
            if g or nm in ('cerr', 'cout', 'clog'):
                key = ('glob', nm)
                if key not in s.vars:
                    ct = s.types.parse(r['type'].get('desugaredQualType', r['type']['qualType']))
                    if nm in ('cerr', 'cout', 'clog'): s.vars[key] = s.fresh_ss(nm)
                    else:
                        init = None
                        if g and 'const' in r['type']['qualType']:
                            init = [c for c in s.inner(g[1])]
                        if init: s.vars[key] = s.val(s.ev(init[-1]))
                        else: s.vars[key] = s.typed(T.const('g_' + nm, s.e.sort(ct)), ct)
                    s.vtypes[key] = ct; s.vnames[key] = nm
                return Place(key)
            if nm == 'npos': return I((1 << 64) - 1)
            if not g and s.frames[-1].fn is not None:
                v = s.prog.trait_value(n, s.frames[-1].fn)
                if v is not None: return B(v)
            return Opaque('var:' + str(nm))
        raise Unsupported('reference to %s %s' % (k, r.get('name')))
    def ev_global(s, cls, name):
        """current value of a static data member"""
        for id_, (sc, n) in s.prog.globals.items():
            if n.get('name') == name and sc == cls:
                return s.val(s.ex_DeclRefExpr({'referencedDecl': dict(n)}))
        raise ExtractionError('static member %s::%s not found' % (cls, name))
    def fresh_ss(s, nm):
        d = s.new_ss()
        return T.setf(d, 'buf', s.fresh(nm + '_buf', 'Seq<int>'))

    def ex_ImplicitCastExpr(s, n): return s.cast(n)
    ex_CXXStaticCastExpr = ex_CStyleCastExpr = ex_CXXFunctionalCastExpr = ex_CXXConstCastExpr = ex_ImplicitCastExpr
    def cast(s, n):
        ck = n.get('castKind'); e = s.inner(n)[0]
        ct = None
        if ck == 'LValueToRValue':
            v = s.ev(e)
            r = s.val(v)
            return s.typed(r, s.ctype(n)) if isinstance(r, T.T) else r
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'NullToPointer', 'BitCast', 'MemberPointerToBoolean'):
            if ck == 'NullToPointer': return I(0)
            v = s.ev(e)
            h = s.e.opts.get('tobase')
            if h and ck in ('UncheckedDerivedToBase', 'DerivedToBase'): return h(s, v, n)
            return v
        if ck == 'IntegralCast':
            v = s.val(s.ev(e)); ct = s.ctype(n)
            if isinstance(v, T.T) and v.sort == 'bool': v = T.ite(v, I(1), I(0))
            return s.wrap(v, ct)
        if ck == 'IntegralToBoolean': return s.tobool(s.val(s.ev(e)))
        if ck == 'PointerToBoolean':
            v = s.val(s.ev(e))
            if isinstance(v, T.T) and v.sort.startswith('Seq'): return TRUE
            return s.tobool(v)
        if ck == 'ToVoid': s.ev(e); return None
        if ck == 'IntegralToFloating':
            v = s.val(s.ev(e)); return T.app('f64_of_int', [v], 'F64')
        if ck == 'FloatingToIntegral':
            v = s.val(s.ev(e)); ct = s.ctype(n)
            return s.typed(T.app('f64_to_int', [v], 'int'), ct)
        if ck == 'FloatingCast': return s.val(s.ev(e))
        if ck == 'FloatingToBoolean': return T.not_(T.app('feq', [s.val(s.ev(e)), T.app('f64_of_int', [I(0)], 'F64')], 'bool'))
        raise Unsupported('cast %s' % ck)

    def ex_UnaryOperator(s, n):
        op = n['opcode']; e = s.inner(n)[0]
        if op == '!': return T.not_(s.tobool(s.val(s.ev(e))))
        if op == '-':
            v = s.val(s.ev(e)); ct = s.ctype(n)
            if v.sort == 'F64': return T.app('fneg', [v], 'F64')
            return s.arith('-', I(0), v, ct)
        if op == '+': return s.val(s.ev(e))
        if op == '~':
            v = s.val(s.ev(e)); ct = s.ctype(n)
            return s.wrap(T.sub(I(-1), v), ct)
        if op in ('++', '--'):
            p = s.ev(e); ct = s.ctype(n)
            old = s.read(p)
            if isinstance(old, Iter): 
                new = old.at(T.add(old.idx, I(1 if op == '++' else -1)))
                s.write(p, new)
                return old if n.get('isPostfix') else p
            if not isinstance(old, T.T): raise Unsupported('++ on %s' % (old,))
            s.typed(old, ct)
            new = s.arith('+' if op == '++' else '-', old, I(1), ct if not (ct[0] == 'int' and ct[1] < 32) else ('int', 32, True))
            new = s.wrap(new, ct)
            s.write(p, new)
            return old if n.get('isPostfix') else p
        if op == '*':
            v = s.val(s.ev(e))
            return s.deref(v, s.ctype(n))
        if op == '&':
            v = s.ev(e)
            if isinstance(v, Place): return Ptr(v)
            raise Unsupported('address of rvalue')
        raise Unsupported('unary %s' % op)

    def pure(s, n):
        """evaluation has no effect, no obligation and no branch"""
        k = n['kind']
        if k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'): return True
        if k == 'DeclRefExpr': return n['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl', 'EnumConstantDecl') and not s.e.hook_access
        if k == 'ParenExpr' or (k == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'IntegralCast', 'NoOp', 'IntegralToBoolean')) or (k == 'UnaryOperator' and n['opcode'] == '!'):
            return s.pure(s.inner(n)[0])
        if k == 'BinaryOperator' and n['opcode'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return all(s.pure(c) for c in s.inner(n))
        return False
    def arith(s, op, a, b, ct):
        if a.sort == 'bool': a = T.ite(a, I(1), I(0))
        if b.sort == 'bool': b = T.ite(b, I(1), I(0))
        if op == '+': r = T.add(a, b)
        elif op == '-': r = T.sub(a, b)
        elif op == '*': r = T.mul(a, b)
        elif op in ('/', '%'):
            s.oblige('division', T.not_(T.eq(b, I(0))), 'divisor is not zero')
            if ct[2]:
                lo, hi = irange(ct)
                ra, rb = s.rng(a), s.rng(b)
                if ra[0] >= 0 and rb[0] > 0:
                    r = T.mk('raw', ('({0} %s {1})' % op, a, b), 'int')
                else:
                    r = T.app('tdiv' if op == '/' else 'tmod', [a, b], 'int')
            else:
                if T.isint(a) and T.isint(b): r = I(a.args[0] // b.args[0] if op == '/' else a.args[0] % b.args[0])
                else: r = T.mk('raw', ('({0} %s {1})' % op, a, b), 'int')
            s.ranges()[r.uid] = irange(ct)
            return r
        elif op in ('&', '|', '^', '<<', '>>'):
            if T.isint(a) and T.isint(b):
                x, y = a.args[0], b.args[0]
                return I({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y < 64 else 0, '>>': x >> y}[op])
            if op == '>>' and T.isint(b) and s.rng(a)[0] >= 0: 
                r = T.mk('raw', ('({0} / %dint)' % (1 << b.args[0]), a), 'int'); s.ranges()[r.uid] = irange(ct); return r
            if op == '<<' and T.isint(b): return s.wrap(T.mul(a, I(1 << b.args[0])), ct)
            if op == '&' and T.isint(b) and (b.args[0] + 1) & b.args[0] == 0 and s.rng(a)[0] >= 0:
                r = T.mk('raw', ('({0} %% %dint)' % (b.args[0] + 1), a), 'int'); s.ranges()[r.uid] = (0, b.args[0]); return r
            r = T.app('bit_%s' % {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], [a, b], 'int')
            return s.typed(r, ct)
        else: raise Unsupported('operator %s' % op)
        if ct[0] == 'int' and ct[2]:
            lo, hi = irange(ct); r0 = s.rng(r)
            if not (lo <= r0[0] and r0[1] <= hi):
                s.oblige('overflow', T.and_(T.cmp('<=', I(lo), r), T.cmp('<=', r, I(hi))), 'signed arithmetic stays in range')
                s.ranges()[r.uid] = (lo, hi)
            return r
        return s.wrap(r, ct)

    def ex_BinaryOperator(s, n):
        op = n['opcode']; a, b = s.inner(n)[:2]
        if op in ('&&', '||') and s.pure(b):
            c = s.tobool(s.val(s.ev(a)))
            if T.isbool(c) and c.args[0] == (op == '||'): return c
            d = s.tobool(s.val(s.ev(b)))
            return T.and_(c, d) if op == '&&' else T.or_(c, d)
        if op == '&&':
            c = s.tobool(s.val(s.ev(a)))
            if T.isbool(c): return s.tobool(s.val(s.ev(b))) if c.args[0] else FALSE
            if not s.branch(c): return FALSE
            return s.tobool(s.val(s.ev(b)))
        if op == '||':
            c = s.tobool(s.val(s.ev(a)))
            if T.isbool(c): return TRUE if c.args[0] else s.tobool(s.val(s.ev(b)))
            if s.branch(c): return TRUE
            return s.tobool(s.val(s.ev(b)))
        if op == ',':
            s.ev(a); return s.ev(b)
        if op == '=':
            v = s.val(s.ev(b)); p = s.ev(a)
            s.assign(p, v, s.ctype(a)); return p
        x = s.val(s.ev(a)); y = s.val(s.ev(b))
        if op in ('==', '!=', '<', '>', '<=', '>='): return s.compare(op, x, y)
        ct = s.ctype(n)
        if isinstance(x, T.T) and isinstance(y, T.T) and (x.sort == 'F64' or y.sort == 'F64'):
            f = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
            if f: return T.app(f, [x, y], 'F64')
        if isinstance(x, Iter) and op in '+-':
            if isinstance(y, Iter): return T.sub(x.idx, y.idx)
            return x.at(T.add(x.idx, y) if op == '+' else T.sub(x.idx, y))
        if not (isinstance(x, T.T) and isinstance(y, T.T)): raise Unsupported('operator %s on %s, %s' % (op, x, y))
        return s.arith(op, x, y, ct)
    def compare(s, op, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            ax = s.addr(x); ay = s.addr(y)
            if ax is None or ay is None:
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    r = B(x.place == y.place)
                elif (isinstance(x, Ptr) and y is I(0)) or (isinstance(y, Ptr) and x is I(0)): r = FALSE
                else: raise Unsupported('pointer comparison')
            else: r = T.eq(ax, ay)
            return r if op == '==' else T.not_(r)
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == '==': return T.eq(x.idx, y.idx)
            if op == '!=': return T.not_(T.eq(x.idx, y.idx))
            return T.cmp(op, x.idx, y.idx)
        if not (isinstance(x, T.T) and isinstance(y, T.T)): raise Unsupported('comparison %s of %s, %s' % (op, x, y))
        if x.sort == 'F64' or y.sort == 'F64':
            f = {'==': 'feq', '!=': 'feq', '<': 'flt', '>': 'flt', '<=': 'fle', '>=': 'fle'}[op]
            if op in ('>', '>='): x, y = y, x
            r = T.app(f, [x, y], 'bool')
            return T.not_(r) if op == '!=' else r
        if x.sort == 'bool' and y.sort == 'int': x = T.ite(x, I(1), I(0))
        if y.sort == 'bool' and x.sort == 'int': y = T.ite(y, I(1), I(0))
        if op == '==': return T.eq(x, y)
        if op == '!=': return T.not_(T.eq(x, y))
        return T.cmp(op, x, y)
    def addr(s, v):
        if isinstance(v, Ptr):
            if v.place.root[0] == 'heap' and len(v.place.path) == 1: return v.place.path[0][1]
            return getattr(s, 'addrs', {}).get(v.place)
        if isinstance(v, T.T): return v
        return v if isinstance(v, T.T) else None
    def assign(s, p, v, ct):
        if not isinstance(p, Place): raise Unsupported('assignment target')
        s.write(p, s.conv(v, ct))
    def ex_CompoundAssignOperator(s, n):
        op = n['opcode'][:-1]; a, b = s.inner(n)[:2]
        y = s.val(s.ev(b)); p = s.ev(a); x = s.val(p)
        ct = s.ctype(n)
        if isinstance(x, Iter):
            s.write(p, x.at(T.add(x.idx, y) if op == '+' else T.sub(x.idx, y))); return p
        if x.sort == 'F64' or y.sort == 'F64':
            f = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op]
            if x.sort != 'F64':
                r = T.app('f64_to_int', [T.app(f, [T.app('f64_of_int', [x], 'F64'), y], 'F64')], 'int')
                s.write(p, s.typed(r, ct)); return p
            s.write(p, T.app(f, [x, y], 'F64')); return p
        s.typed(x, ct)
        q = n.get('computeResultType') or n.get('computeLHSType') or n['type']
        cct = s.types.parse(q.get('desugaredQualType', q['qualType']))
        x2 = T.ite(x, I(1), I(0)) if x.sort == 'bool' else s.wrap(x, cct) if cct[0] == 'int' else x
        r = s.arith(op, x2, y, cct)
        if ct[0] == 'bool': r = s.tobool(r)
        else: r = s.wrap(r, ct)
        s.write(p, r); return p
    def ex_ConditionalOperator(s, n):
        c, a, b = s.inner(n)[:3]
        cv = s.tobool(s.val(s.ev(c)))
        return s.ev(a) if s.branch(cv) else s.ev(b)
    def ex_MemberExpr(s, n):
        e = s.inner(n)[0]; nm = n.get('name')
        b = s.ev(e)
        ct = s.ctype(e)
        if n.get('isArrow'):
            b = s.val(b)
            pt = ct[1] if ct[0] in ('ptr', 'sptr') else ct
            if getattr(b, 'kind', None) in ('map', 'mfind'): return s.map_iter_field(b, nm)
            b = s.deref(b, pt)
        if getattr(b, 'kind', None) in ('map', 'mfind'): return s.map_iter_field(b, nm)
        if isinstance(b, dict): return b[nm]
        mr = n.get('referencedMemberDecl')
        d = s.prog.decl.get(mr)
        if d is not None and d.get('kind') == 'VarDecl':
            return s.ex_DeclRefExpr({'referencedDecl': dict(d)})
        if isinstance(b, Place):
            v = s.vars.get(b.root)
            if isinstance(v, dict) and not b.path:
                x = v[nm]
                return x
            return b.sub(('f', nm))
        if isinstance(b, T.T) and b.sort in T.STRUCTS: return T.proj(b, nm)
        raise Unsupported('member %s of %s' % (nm, b))
    def map_iter_field(s, it, nm):
        if it.kind == 'mfind':
            s.oblige('bounds', T.not_(it.end), 'map iterator dereference (not end())')
            if it.key is None: raise Unsupported('dereference of end()')
            s.oblige('bounds', T.mhas(s.read(it.place), it.key), 'map iterator: the element still exists', prop=False)
            return it.key if nm == 'first' else it.place.sub(('k', it.key))
        m0, ks = it.base
        s.oblige('bounds', T.and_(T.cmp('<=', I(0), it.idx), T.cmp('<', it.idx, T.length(ks))), 'map iterator dereference')
        key = T.index(ks, it.idx)
        s.oblige('bounds', T.mhas(s.read(it.place), key), 'map iteration: current key still present', prop=False)
        if nm == 'first': return key
        return it.place.sub(('k', key))
    def ex_ArraySubscriptExpr(s, n):
        a, b = s.inner(n)[:2]
        base = s.val(s.ev(a)); i = s.val(s.ev(b))
        if isinstance(base, Ptr): base = s.read(base.place)
        if isinstance(base, T.T) and T.is_seq(base.sort):
            lim = T.length(base)
            if base.sort == 'Seq<int>': # C string: the terminator may be read
                s.oblige('bounds', T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, lim)), 'array subscript')
                if s.branch(T.eq(i, lim)): return I(0)
                return T.index(base, i)
            s.oblige('bounds', T.and_(T.cmp('<=', I(0), i), T.cmp('<', i, lim)), 'array subscript')
            return T.index(base, i)
        raise Unsupported('subscript')
    def ex_CXXDefaultArgExpr(s, n): return Default()
    def ex_CXXDefaultInitExpr(s, n): raise Unsupported('default member initialiser')
    def ex_ImplicitValueInitExpr(s, n): return s.default_value(s.ctype(n))
    ex_CXXScalarValueInitExpr = ex_ImplicitValueInitExpr
    def ex_UnaryExprOrTypeTraitExpr(s, n): raise Unsupported('sizeof')
    def ex_CXXTypeidExpr(s, n): return Opaque('typeid')
    def ex_InitListExpr(s, n):
        ct = s.ctype(n); inn = s.inner(n)
        if not inn and ct[0] != 'array': return s.default_value(ct)
        if ct[0] in ('int', 'bool', 'ptr', 'double') and len(inn) == 1: return s.val(s.ev(inn[0]))
        if ct[0] == 'class':
            fl = s.e.fields(ct[1])
            vals = [s.conv(s.val(s.ev(i)), c) for i, (f, c) in zip(inn, fl)]
            return T.ctor(s.e.struct(ct[1]), vals)
        if ct[0] == 'array': return T.lit([s.val(s.ev(i)) for i in inn], s.e.sort(ct[1]))
        if ct[0] == 'pair' and len(inn) == 2:
            return T.ctor(s.e.sort(ct), [s.conv(s.val(s.ev(i)), c) for i, c in zip(inn, ct[1:])])
        raise Unsupported('initialiser list of %s' % (ct,))
    def ex_CXXThrowExpr(s, n):
        inn = s.inner(n)
        if not inn:
            raise getattr(s, 'curexc', CThrow('unknown'))
        e = inn[0]
        t = e['type'].get('desugaredQualType', e['type']['qualType'])
        try: s.note_throw(e)
        except Unsupported: pass
        raise CThrow(s.exc_bases(t)[0])
    def note_throw(s, e):
        """evaluate exception arguments only for SoDa state effects: none are modelled"""
        return None
    def ex_LambdaExpr(s, n):
        inn = s.inner(n)
        rec = inn[0]
        meth = None
        for c in s.inner(rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()': meth = c
            if c['kind'] == 'FunctionTemplateDecl': raise Unsupported('generic lambda')
        fields = [c for c in s.inner(rec) if c['kind'] == 'FieldDecl']
        inits = [c for c in inn[1:] if c['kind'] != 'CompoundStmt']
        caps = {}
        for f, i in zip(fields, inits):
            d = i
            while d['kind'] not in ('DeclRefExpr', 'CXXThisExpr') and s.inner(d): d = s.inner(d)[0]
            if d['kind'] == 'DeclRefExpr':
                ft = f['type'].get('desugaredQualType', f['type']['qualType'])
                v = s.ev(i)
                if ft.rstrip().endswith('&'): caps[d['referencedDecl']['id']] = v
                else: caps[d['referencedDecl']['id']] = s.newtmp(s.val(v))
        if meth is None: raise Unsupported('lambda without call operator')
        fn = Fn(meth, 'lambda', None); fn.cid = meth['id']
        if fn.body is None:
            b = [c for c in inn if c['kind'] == 'CompoundStmt']
            fn.body = b[-1]
        return Closure(n, fn, caps, s.frames[-1])
    def call_closure(s, c, args, node):
        path = s.frames[-1].path + ((node or {}).get('id'), 'lambda')
        fr = Frame(c.method, c.frame.this, s.e.frameno(path), path)
        fr.caps = c.caps; fr.lam = True
        s.frames.append(fr)
        try:
            for i, p in enumerate(c.method.params):
                ct = s.types.parse(ptype(p)); a = args[i]
                if ct[0] != 'ref': a = s.val(a)
                s.bind(('v', fr.no, p['id']), p.get('name', 'p'), ct, a)
            s.scopes.append([])
            ret = None
            try: s.stmt(c.method.body)
            except CReturn as r: ret = r.v
            except CThrow: s.cleanup(); raise
            s.cleanup()
            return ret
        finally: s.frames.pop()

    def ex_CXXNewExpr(s, n):
        inn = s.inner(n)
        ct = s.ctype(n)
        if ct[0] != 'ptr' or ct[1][0] != 'class': raise Unsupported('new of %s' % (ct,))
        cls = ct[1][1]
        ce = [c for c in inn if c['kind'] in ('CXXConstructExpr',)]
        if not ce: raise Unsupported('new form')
        return s.new_object(cls, lambda pl: s.construct(cls, ce[0], pl))
    def new_object(s, cls, init):
        h = s.e.opts.get('newref')
        ref = h(s, cls) if h else s.fresh('new_' + sanitize(cls), 'int')
        s.assume(T.cmp('<', I(0), ref))
        s.on_alloc(cls, ref)
        h = s.heap(cls)
        so = s.e.struct(cls)
        pl = s.newtmp(s.uninit(('class', cls), 'obj'))
        old = getattr(s, 'addrs', {})
        s.addrs = dict(old); s.addrs[pl] = ref
        init(pl)
        s.write(h.sub(('k', ref)), s.read(pl))
        s.addrs = old
        return ref
    def on_alloc(s, cls, ref):
        """a new object is different from every object that exists (its address is not in the heap domain)"""
        h = s.read(s.heap(cls))
        s.assume(T.not_(T.mhas(h, ref)))
        for f in s.e.opts.get('alloc_facts', []): f(s, cls, ref)

    def ex_CXXDeleteExpr(s, n): s.ev(s.inner(n)[0]); return None

    # calls
    def callee(s, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'): n = s.inner(n)[0]
        return n
    def soda_fn(s, id_):
        cid = s.prog.canon.get(id_, id_)
        f = s.prog.fn_by_id.get(cid)
        if f is None: f = s.prog.fn_by_id.get('decl:' + str(cid))
        return f
    def ex_CallExpr(s, n):
        inn = s.inner(n); c = s.callee(inn[0])
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            f = s.soda_fn(r['id'])
            if f is None and str(r['id']).startswith('L'):
                c2 = [g for g in s.prog.fns if g.name == r.get('name') and g.cls is None and len(g.params) == len(inn) - 1]
                if len(set(g.cid for g in c2)) == 1: f = c2[0]
            if f is not None: return s.call(f, None, s.eval_args(f, inn[1:]), n)
            if not stl_knows(r.get('name')):
                c2 = [g for g in s.prog.lazy(r.get('name')) if len(g.params) == len(inn) - 1]
                if len(c2) == 1: return s.call(c2[0], None, s.eval_args(c2[0], inn[1:]), n)
            import stl
            return stl.call_function(s, r.get('name'), n, inn[1:], r)
        raise Unsupported('call through %s' % c['kind'])
    def ex_CXXMemberCallExpr(s, n):
        inn = s.inner(n); me = inn[0]
        while me['kind'] == 'ParenExpr': me = s.inner(me)[0]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call through %s' % me['kind'])
        f = s.soda_fn(me.get('referencedMemberDecl'))
        oe = s.inner(me)[0]
        if f is None and str(me.get('referencedMemberDecl')).startswith('L'):
            ct0 = s.ctype(oe)
            while ct0[0] in ('ref', 'ptr', 'sptr'): ct0 = ct0[1]
            if ct0[0] == 'class': f = s.prog.by_name(ct0[1], me.get('name'), len(inn) - 1)
        if f is not None:
            obj = s.ev(oe)
            ct = s.ctype(oe)
            if me.get('isArrow'):
                v = s.val(obj)
                this = s.deref(v, ct[1] if ct[0] in ('ptr', 'sptr') else ct)
            else:
                this = obj if isinstance(obj, Place) else s.newtmp(obj)
            h = s.e.callhooks.get(f.qual) or s.e.callhooks.get(f.name if f.virtual else None)
            args = s.eval_args(f, inn[1:])
            if h: return h(s, f, this, args, n)
            f2 = f
            if f.static: this = None
            return s.call(f2, this, args, n)
        import stl
        return stl.call_method(s, me, n, inn[1:])
    def ex_CXXOperatorCallExpr(s, n):
        inn = s.inner(n); c = s.callee(inn[0]); r = c.get('referencedDecl', {})
        f = s.soda_fn(r.get('id'))
        if f is not None and f.body is not None:
            if f.cls is not None:
                obj = s.ev(inn[1])
                if isinstance(obj, Closure): return s.call_closure(obj, [s.ev(a) for a in inn[2:]], n)
                this = obj if isinstance(obj, Place) else s.newtmp(obj)
                if isinstance(s.val(this) if isinstance(this, Place) and this.root in s.vars else None, Closure):
                    return s.call_closure(s.val(this), [s.ev(a) for a in inn[2:]], n)
                return s.call(f, this, s.eval_args(f, inn[2:]), n)
            return s.call(f, None, s.eval_args(f, inn[1:]), n)
        import stl
        return stl.call_operator(s, r.get('name', ''), n, inn[1:], r)
    def ex_CXXConstructExpr(s, n):
        ct = s.ctype(n)
        if ct[0] == 'class':
            pl = s.newtmp(s.uninit(ct, 'obj'))
            s.construct(ct[1], n, pl)
            return s.read(pl)
        import stl
        return stl.construct(s, ct, n, s.inner(n))
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr
    def ex_CXXStdInitializerListExpr(s, n): return s.ev(s.inner(n)[0])
    def ex_CXXDynamicCastExpr(s, n): raise Unsupported('dynamic_cast')
    def ex_PredefinedExpr(s, n): return T.strlit(b'fn')
    def ex_CXXPseudoDestructorExpr(s, n): return None
    def ex_CXXNoexceptExpr(s, n): return B(n.get('value', False))
    def ex_TypeTraitExpr(s, n): return B(n.get('value', False))

class Frame:
    def __init__(s, fn, this, no, path):
        s.fn = fn; s.this = this; s.no = no; s.path = path; s.locals = []; s.caps = None; s.lam = False

def declare_ss():
    T.STRUCTS['SS'] = [('buf', 'Seq<int>'), ('width', 'int'), ('fill', 'int'), ('base', 'int'), ('left', 'int'), ('upper', 'bool'), ('showbase', 'bool'), ('fmode', 'int'), ('prec', 'int'), ('inp', 'Seq<int>'), ('pos', 'int'), ('ok', 'bool')]
declare_ss()

def map_keys(s, m):
    """the keys of a std::map in iteration order"""
    k, v = T.map_kv(m.sort)
    # the key order depends only on the domain
    return T.app('map_keys_' + re.sub(r'\W+', '_', k), [T.raw('{0}.dom()', 'Set<%s>' % k, m)], 'Seq<%s>' % k)
def map_key_facts(s, m, ks):
    s.e.trusted.add('std::map iteration: visits every key exactly once')
    k, v = T.map_kv(m.sort)
    n = re.sub(r'\W+', '_', k)
    s.assume(T.raw('map_keys_ok_%s({0}.dom(), {1})' % n, 'bool', m, ks))
    s.lenfacts(T.length(ks))

STLNAMES = set('setw setfill setprecision setbase move forward as_const addressof make_shared make_unique isdigit isspace isalpha isalnum isupper islower isxdigit ispunct toupper tolower max min swap to_string reverse transform distance next prev begin end isnan isinf isfinite signbit fabs floor ceil trunc round abs pow modf labs strlen terminate abort log10 LoadFile dynamic_pointer_cast static_pointer_cast any_of all_of count find find_if for_each copy fill sort move_backward sqrt exp log fmod lround accumulate'.split())
def stl_knows(n): return n in STLNAMES or (n or '').startswith('__')

def loc_line(n):
    for p in ('range',):
        r = n.get(p)
        if r:
            b = r.get('begin', {})
            b = b.get('expansionLoc', b)
            if 'line' in b: return b['line']
    return None

def cstring_bytes(lit):
    """clang prints string literals in C syntax"""
    s = lit[lit.index('"') + 1: lit.rindex('"')]
    out = bytearray(); i = 0
    b = s.encode('utf-8', 'surrogateescape')
    esc = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('\\'): 92, ord('"'): 34, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11, ord("'"): 39, ord('?'): 63}
    while i < len(b):
        c = b[i]
        if c == 92:
            i += 1; c = b[i]
            if c in esc: out.append(esc[c]); i += 1
            elif c == ord('x'):
                j = i + 1; h = ''
                while j < len(b) and chr(b[j]) in '0123456789abcdefABCDEF': h += chr(b[j]); j += 1
                out.append(int(h, 16) & 255); i = j
            else:
                j = i; o = ''
                while j < len(b) and len(o) < 3 and chr(b[j]) in '01234567': o += chr(b[j]); j += 1
                out.append(int(o, 8) & 255); i = j
        else: out.append(c); i += 1
    return bytes(out)

def f64lit(v):
    import struct
    bits = struct.unpack('<Q', struct.pack('<d', float(v)))[0]
    return T.app('f64_lit', [I(bits)], 'F64')

AUTO = [Template('0int <= {v:int!}'), Template('{i:int!} <= {S:str}.len()'), Template('{i:int} <= {S:str!}.len()'),
        Template('{S:str!}.len() <= {S.entry}.len()'), Template('{v.entry} <= {v:int!}'), Template('{v:int!} <= {v.entry}'),
        Template('{i:int!} <= {L:seqn}.len()'), Template('{i:int!} <= {n:int=} || ({n} < {i.entry} && {i} == {i.entry})')]
MEASURES = [Template('{S:str}.len() - {i:int}'), Template('{S:str!}.len() as int'), Template('{n:int} - {i:int!}'), Template('{i:int!} + 0'), Template('{L:seqn}.len() - {i:int}'),
            Template('{L:seqn!}.len() as int')]
