"""Immutable, lightly simplified terms over Verus spec types (int, bool, Seq<..>, Map<..>, structs)."""

class Sort:
    pass

def is_seq(s): return s.startswith('Seq<')
def elem(s):
    assert is_seq(s), s
    return s[4:-1]
def is_map(s): return s.startswith('Map<')
def map_kv(s):
    body = s[4:-1]; d = 0
    for i, c in enumerate(body):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == ',' and d == 0: return body[:i].strip(), body[i+1:].strip()
    raise ValueError(s)

_table = {}

class T:
    __slots__ = ('op', 'args', 'sort', 'fv', '_s', 'uid')
    def __repr__(self): return show(self)

_uid = [0]
def mk(op, args, sort):
    key = (op, tuple(a.uid if isinstance(a, T) else ('#', a) for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t._s = None
        _uid[0] += 1; t.uid = _uid[0]
        fv = frozenset()
        if op == 'const': fv = frozenset([(args[0], sort)])
        else:
            for a in args:
                if isinstance(a, T): fv = fv | a.fv
        t.fv = fv
        _table[key] = t
    return t

STRUCTS = {}   # struct name -> list of (field, sort)

def const(name, sort): return mk('const', (name,), sort)
def I(n): return mk('int', (int(n),), 'int')
def B(b): return mk('bool', (bool(b),), 'bool')
TRUE = B(True); FALSE = B(False)
def isint(t): return t.op == 'int'
def isbool(t): return t.op == 'bool'

def add(a, b):
    if isint(a) and isint(b): return I(a.args[0] + b.args[0])
    if isint(a): a, b = b, a
    if isint(b):
        if b.args[0] == 0: return a
        if a.op == '+' and isint(a.args[1]): return add(a.args[0], I(a.args[1].args[0] + b.args[0]))
        return mk('+', (a, b), 'int')
    if a.op == '+' and isint(a.args[1]): return add(add(a.args[0], b), a.args[1])
    if b.op == '+' and isint(b.args[1]): return add(add(a, b.args[0]), b.args[1])
    return mk('+', (a, b), a.sort)
def sub(a, b):
    if isint(a) and isint(b): return I(a.args[0] - b.args[0])
    if isint(b): return add(a, I(-b.args[0]))
    if a is b and a.sort == 'int': return I(0)
    if a.op == '+' and isint(a.args[1]) and b.op == '+' and isint(b.args[1]):
        return add(sub(a.args[0], b.args[0]), I(a.args[1].args[0] - b.args[1].args[0]))
    if a.op == '+' and isint(a.args[1]): return add(sub(a.args[0], b), a.args[1])
    if b.op == '+' and isint(b.args[1]): return add(sub(a, b.args[0]), I(-b.args[1].args[0]))
    if a.op == '+' and a.args[0] is b: return a.args[1]
    if a.op == '+' and a.args[1] is b: return a.args[0]
    return mk('-', (a, b), a.sort)
def mul(a, b):
    if isint(a) and isint(b): return I(a.args[0] * b.args[0])
    if isint(b) and b.args[0] == 1: return a
    if isint(a) and a.args[0] == 1: return b
    return mk('*', (a, b), a.sort)
def neg(a): return sub(I(0), a)

def cmp(op, a, b):
    if op == '>': return cmp('<', b, a)
    if op == '>=': return cmp('<=', b, a)
    if isint(a) and isint(b):
        return B(a.args[0] < b.args[0] if op == '<' else a.args[0] <= b.args[0])
    if a is b: return B(op == '<=')
    if isint(a) and b.op == '+' and isint(b.args[1]): return cmp(op, I(a.args[0] - b.args[1].args[0]), b.args[0])
    if isint(b) and a.op == '+' and isint(a.args[1]): return cmp(op, a.args[0], I(b.args[0] - a.args[1].args[0]))
    if op == '<' and isint(a): return cmp('<=', I(a.args[0] + 1), b)
    if op == '<' and isint(b): return cmp('<=', a, I(b.args[0] - 1))
    if op == '<=' and isint(a) and a.args[0] <= 0 and b.op == 'len': return TRUE
    if op == '<=' and isint(b) and b.args[0] < 0 and a.op == 'len': return FALSE
    if a.op == '+' and isint(a.args[1]) and b.op == '+' and isint(b.args[1]):
        k = a.args[1].args[0] - b.args[1].args[0]
        if k == 0: return cmp(op, a.args[0], b.args[0])
    if op == '<=' and a.op == '+' and a.args[1] is I(1): return cmp('<', a.args[0], b)
    if op == '<' and b.op == '+' and b.args[1] is I(1): return cmp('<=', a, b.args[0])
    return mk(op, (a, b), 'bool')

def eq(a, b):
    if a is b: return TRUE
    if isint(a) and isint(b): return B(a.args[0] == b.args[0])
    if isbool(a) and isbool(b): return B(a.args[0] == b.args[0])
    if isbool(a): a, b = b, a
    if isbool(b): return a if b.args[0] else not_(a)
    if a.op == 'ite' and isint(b) and isint(a.args[1]) and isint(a.args[2]):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and isint(a): return eq(b, a)
    if a.op == 'len' and isint(b) and b.args[0] == 0: return cmp('<=', a, b)
    if b.op == 'len' and isint(a) and a.args[0] == 0: return cmp('<=', b, a)
    if isint(b) and a.op == '+' and isint(a.args[1]): return eq(a.args[0], I(b.args[0] - a.args[1].args[0]))
    if isint(a) and b.op == '+': return eq(b, a)
    if a.op == 'lit' and not a.args and b.op != 'lit': a, b = b, a
    if b.op == 'lit' and not b.args and a.op in ('push',): return FALSE
    if a.op == 'lit' and b.op == 'lit' and all(isint(x) for x in a.args + b.args):
        return B(a is b)
    if a.op == 'ctor' and b.op == 'ctor' and a.sort == b.sort:
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    return mk('==', (a, b), 'bool')
def not_(a):
    if isbool(a): return B(not a.args[0])
    if a.op == 'not': return a.args[0]
    if a.op == '<': return cmp('<=', a.args[1], a.args[0])
    if a.op == '<=': return cmp('<', a.args[1], a.args[0])
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'bool')
def and_(*xs):
    out = []
    for x in xs:
        if isbool(x):
            if not x.args[0]: return FALSE
        elif x.op == 'and': out.extend(x.args)
        else: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, 'bool')
def or_(*xs):
    out = []
    for x in xs:
        if isbool(x):
            if x.args[0]: return TRUE
        elif x.op == 'or': out.extend(x.args)
        else: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', out, 'bool')
def imp(a, b):
    if isbool(a): return b if a.args[0] else TRUE
    if isbool(b): return TRUE if b.args[0] else not_(a)
    return mk('==>', (a, b), 'bool')
def ite(c, a, b):
    if isbool(c): return a if c.args[0] else b
    if a is b: return a
    if a.sort == 'bool' and isbool(a) and isbool(b):
        return c if a.args[0] else not_(c)
    return mk('ite', (c, a, b), a.sort)

# sequences
def lit(elems, esort): return mk('lit', tuple(elems), 'Seq<%s>' % esort)
def empty(esort): return lit((), esort)
def strlit(bs): return lit([I(b if b < 128 else b - 256) for b in bs], 'int')
def length(s):
    if s.op == 'lit': return I(len(s.args))
    if s.op == 'push': return add(length(s.args[0]), I(1))
    if s.op == 'concat': return add(length(s.args[0]), length(s.args[1]))
    if s.op == 'update': return length(s.args[0])
    if s.op == 'reverse': return length(s.args[0])
    return mk('len', (s,), 'int')
def push(s, x):
    if s.op == 'lit': return lit(s.args + (x,), elem(s.sort))
    return mk('push', (s, x), s.sort)
def concat(a, b):
    if a.op == 'lit' and not a.args: return b
    if b.op == 'lit' and not b.args: return a
    if a.op == 'lit' and b.op == 'lit': return lit(a.args + b.args, elem(a.sort))
    return mk('concat', (a, b), a.sort)
def index(s, i):
    if s.op == 'lit' and isint(i) and 0 <= i.args[0] < len(s.args): return s.args[i.args[0]]
    if s.op == 'update' and s.args[1] is i: return s.args[2]
    if s.op == 'push' and i is length(s.args[0]): return s.args[1]
    return mk('index', (s, i), elem(s.sort))
def update(s, i, x):
    if s.op == 'update' and s.args[1] is i: return update(s.args[0], i, x)
    if s.op == 'lit' and isint(i) and 0 <= i.args[0] < len(s.args):
        a = list(s.args); a[i.args[0]] = x; return lit(a, elem(s.sort))
    return mk('update', (s, i, x), s.sort)
def subrange(s, a, b):
    if isint(a) and a.args[0] == 0 and b is length(s): return s
    if a is b: return empty(elem(s.sort))
    return mk('subrange', (s, a, b), s.sort)

# maps
def mget(m, k):
    _, v = map_kv(m.sort)
    if m.op == 'minsert':
        if m.args[1] is k: return m.args[2]
        if isint(m.args[1]) and isint(k): return mget(m.args[0], k)
    return mk('mget', (m, k), v)
def minsert(m, k, v):
    if m.op == 'minsert' and m.args[1] is k: return minsert(m.args[0], k, v)
    return mk('minsert', (m, k, v), m.sort)
def mremove(m, k): return mk('mremove', (m, k), m.sort)
def mhas(m, k):
    if m.op == 'minsert' and m.args[1] is k: return TRUE
    if m.op == 'mempty': return FALSE
    return mk('mhas', (m, k), 'bool')
def mempty(sort): return mk('mempty', (), sort)

# structs
def ctor(sname, vals):
    vals = tuple(vals)
    # eta: S{a: x.a, b: x.b} -> x
    if vals and all(v.op == 'proj' and v.args[1] == f for v, (f, _) in zip(vals, STRUCTS[sname])):
        b = vals[0].args[0]
        if b.sort == sname and all(v.args[0] is b for v in vals): return b
    return mk('ctor', vals, sname)
def proj(t, f):
    fs = STRUCTS[t.sort]
    for i, (n, s) in enumerate(fs):
        if n == f:
            if t.op == 'ctor': return t.args[i]
            if t.op == 'ite': return ite(t.args[0], proj(t.args[1], f), proj(t.args[2], f))
            return mk('proj', (t, f), s)
    raise KeyError('%s.%s' % (t.sort, f))
def setf(t, f, v):
    return ctor(t.sort, [v if n == f else proj(t, n) for n, _ in STRUCTS[t.sort]])

def app(fn, args, sort): return mk('app:' + fn, tuple(args), sort)

def forall(vars_, body, trigger=None):
    """vars_: list of const terms used as bound variables"""
    t = mk('forall', (body,) + tuple(vars_) + ((trigger,) if trigger is not None else ()), 'bool')
    t.fv = body.fv - frozenset(v.fv.__iter__().__next__() for v in vars_)
    return t

def raw(text, sort, *args):
    """text with {0},{1} placeholders for term arguments"""
    return mk('raw', (text,) + args, sort)

def esc(f):
    return f if f not in KW else f + '_'
KW = {'type', 'match', 'fn', 'in', 'ref', 'self', 'move', 'use', 'mod', 'loop', 'where', 'impl', 'box', 'final', 'proof', 'spec', 'tracked', 'ghost', 'exec', 'open', 'closed', 'is', 'has', 'choose', 'forall', 'exists', 'assert', 'assume', 'requires', 'ensures', 'decreases', 'invariant', 'let', 'mut', 'pub', 'str', 'char', 'as', 'dyn', 'int', 'nat', 'real', 'seq', 'map', 'set', 'by', 'via', 'when', 'no_unwind'}

def esort(s): return s

def show(t):
    if t._s is not None: return t._s
    op, a = t.op, t.args
    if op == 'const': r = a[0]
    elif op == 'int': r = ('%dint' % a[0]) if a[0] >= 0 else '(-%dint)' % -a[0]
    elif op == 'bool': r = 'true' if a[0] else 'false'
    elif op in ('+', '-', '*', '<', '<=', '==', '==>'): r = '(%s %s %s)' % (show(a[0]), op, show(a[1]))
    elif op == 'not': r = '!(%s)' % show(a[0])
    elif op == 'and': r = '(' + ' && '.join(show(x) for x in a) + ')'
    elif op == 'or': r = '(' + ' || '.join(show(x) for x in a) + ')'
    elif op == 'ite': r = '(if %s { %s } else { %s })' % (show(a[0]), show(a[1]), show(a[2]))
    elif op == 'lit':
        e = elem(t.sort)
        r = ('seq![%s]' % ', '.join(show(x) for x in a)) if a else 'Seq::<%s>::empty()' % e
    elif op == 'len': r = '(%s.len() as int)' % show(a[0])
    elif op == 'push': r = '%s.push(%s)' % (show(a[0]), show(a[1]))
    elif op == 'concat': r = '(%s + %s)' % (show(a[0]), show(a[1]))
    elif op == 'index': r = '%s[%s]' % (show(a[0]), show(a[1]))
    elif op == 'update': r = '%s.update(%s, %s)' % (show(a[0]), show(a[1]), show(a[2]))
    elif op == 'subrange': r = '%s.subrange(%s, %s)' % (show(a[0]), show(a[1]), show(a[2]))
    elif op == 'reverse': r = '%s.reverse()' % show(a[0])
    elif op == 'mget': r = '%s[%s]' % (show(a[0]), show(a[1]))
    elif op == 'minsert': r = '%s.insert(%s, %s)' % (show(a[0]), show(a[1]), show(a[2]))
    elif op == 'mremove': r = '%s.remove(%s)' % (show(a[0]), show(a[1]))
    elif op == 'mhas': r = '%s.dom().contains(%s)' % (show(a[0]), show(a[1]))
    elif op == 'mempty': r = 'Map::<%s, %s>::empty()' % map_kv(t.sort)
    elif op == 'ctor':
        r = '%s { %s }' % (t.sort, ', '.join('%s: %s' % (esc(n), show(x)) for (n, _), x in zip(STRUCTS[t.sort], a)))
        r = '(' + r + ')'
    elif op == 'proj': r = '%s.%s' % (show(a[0]), esc(a[1]))
    elif op.startswith('app:'): r = '%s(%s)' % (op[4:], ', '.join(show(x) for x in a))
    elif op == 'forall':
        body = show(a[0]); vs = [x for x in a[1:] if x.op == 'const']; tr = [x for x in a[1:] if x.op != 'const']
        r = '(forall|%s| %s%s)' % (', '.join('%s: %s' % (v.args[0], v.sort) for v in vs),
                                   ('#![trigger %s] ' % show(tr[0])) if tr else '', body)
    elif op == 'raw': r = a[0].format(*[show(x) for x in a[1:]])
    else: raise ValueError(op)
    t._s = r
    return r
