"""Trusted models (contracts) of the std:: operations the code uses.

Every model is a functional contract over Verus spec sequences/maps; ex.e.trusted records each one used."""
import re
import terms as T
import verus
from terms import I, B, TRUE, FALSE
from ctypes_ import irange, strip

NPOS = (1 << 64) - 1
SIZE = ('int', 64, False)

def S():
    import sym
    return sym

def trust(ex, what): ex.e.trusted.add(what)

class MIter:
    """result of map::find: the element with this key, or end()"""
    def __init__(s, place, key, end): s.place = place; s.key = key; s.end = end; s.kind = 'mfind'

def unsupported(msg): raise S().Unsupported(msg)

def inset(x, d):
    """membership of a character in a character set"""
    if d.op == 'lit': return T.or_(*[T.eq(x, e) for e in d.args])
    return T.raw('{0}.contains({1})', 'bool', d, x)

# ---------------------------------------------------------------- searching
def search(ex, s, d, pos, first=True, neg=False):
    """index of the first/last character of s (from pos) that is (not, if neg) in the set d; npos if none"""
    n = ex.length(s)
    k = T.const('k_', 'int')
    hit = lambda i: (T.not_(inset(T.index(s, i), d)) if neg else inset(T.index(s, i), d))
    if first:
        fn = 'ffno' if neg else 'ffo'
        trust(ex, 'std::string::find_first_%sof/find(char)' % ('not_' if neg else ''))
        r = T.app(fn, [s, d, pos], 'int')
        if ex.branch(T.cmp('<', r, n)):
            ex.assume(T.cmp('<=', pos, r)); ex.assume(T.cmp('<=', I(0), r)); ex.ranges()[r.uid] = (0, S().MAXLEN)
            ex.assume(hit(r))
            ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<=', pos, k), T.cmp('<', k, r)), T.not_(hit(k))), T.index(s, k)))
            return r
        ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<=', pos, k), T.cmp('<', k, n)), T.not_(hit(k))), T.index(s, k)))
        return I(NPOS)
    fn = 'flno' if neg else 'flo'
    trust(ex, 'std::string::find_last_%sof/rfind(char)' % ('not_' if neg else ''))
    lim = n if T.isint(pos) and pos.args[0] == NPOS else T.ite(T.cmp('<', pos, n), T.add(pos, I(1)), n)
    r = T.app(fn, [s, d, lim], 'int')      # -1 if none below lim
    if ex.branch(T.cmp('<=', I(0), r)):
        ex.assume(T.cmp('<', r, lim)); ex.assume(T.cmp('<', r, n)); ex.ranges()[r.uid] = (0, S().MAXLEN)
        ex.assume(hit(r))
        ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<', r, k), T.cmp('<', k, lim)), T.not_(hit(k))), T.index(s, k)))
        return r
    ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<=', I(0), k), T.cmp('<', k, lim)), T.not_(hit(k))), T.index(s, k)))
    return I(NPOS)

def search_str(ex, s, p, pos):
    trust(ex, 'std::string::find(string)')
    r = T.app('fsub_', [s, p, pos], 'int')
    n, m = ex.length(s), ex.length(p)
    k = T.const('k_', 'int')
    if p.op == 'lit':
        at = lambda i: T.and_(*[T.eq(T.index(s, T.add(i, I(j))), c) for j, c in enumerate(p.args)])
    else:
        at = lambda i: T.eq(T.subrange(s, i, T.add(i, m)), p)
    trig = T.index(s, k) if p.op == 'lit' and p.args else T.subrange(s, k, T.add(k, m))
    if ex.branch(T.cmp('<', r, I(0))):
        ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<=', pos, k), T.cmp('<=', T.add(k, m), n)), T.not_(at(k))), trig))
        return I(NPOS)
    ex.assume(T.cmp('<=', pos, r)); ex.assume(T.cmp('<=', T.add(r, m), n)); ex.ranges()[r.uid] = (0, S().MAXLEN)
    ex.assume(at(r))
    ex.assume(T.forall([k], T.imp(T.and_(T.cmp('<=', pos, k), T.cmp('<', k, r)), T.not_(at(k))), trig))
    return r

def isstr(v): return isinstance(v, T.T) and v.sort == 'Seq<int>'

def tostr(ex, v, ct=None):
    if isstr(v): return v
    if isinstance(v, T.T) and v.sort == 'int': return T.lit([v], 'int')   # a char
    unsupported('string operand %s' % (v,))

def str_compare(ex, a, b):
    """the sign of std::string::compare is that of the lexicographic order of the unsigned bytes; its magnitude is left open"""
    trust(ex, 'std::string::compare')
    if a.op == 'lit' and b.op != 'lit': same = same_lit(b, a)
    elif b.op == 'lit': same = same_lit(a, b)
    else: same = T.raw('({0} =~= {1})', 'bool', a, b)
    if ex.known(same) is True: return I(0)
    r = ex.typed(T.app('str_cmp', [a, b], 'int'), ('int', 32, True))
    ex.assume(T.raw('(({0} == 0) == {1}) && (({0} < 0) == str_lt({2}, {3}))', 'bool', r, same, a, b))
    return r
def same_lit(a, b):
    n = len(b.args)
    return T.and_(T.eq(T.length(a), I(n)), *[T.eq(T.index(a, I(i)), b.args[i]) for i in range(n)])

def clampsub(ex, s, pos, n):
    """[pos, min(pos+n,len)) after the out_of_range check"""
    L = ex.length(s)
    if ex.branch(T.cmp('<', L, pos)): raise S().CThrow('std::out_of_range')
    if T.isint(n) and n.args[0] == NPOS: return pos, L
    if pos is L: return pos, L
    end = T.add(pos, n)
    if ex.branch(T.cmp('<=', end, L)): return pos, end
    return pos, L

def args_of(ex, nodes):
    return [ex.ev(a) for a in nodes]
def vals_of(ex, nodes):
    return [ex.val(ex.ev(a)) for a in nodes]

def nondef(vs): return [v for v in vs if not isinstance(v, S().Default)]

# ---------------------------------------------------------------- methods
def call_method(ex, me, n, argn):
    sym = S()
    oe = ex.inner(me)[0]; name = me.get('name')
    obj = ex.ev(oe); ct = ex.ctype(oe)
    while ct[0] == 'ref': ct = ct[1]
    if me.get('isArrow'):
        v = ex.val(obj)
        if ct[0] == 'iter' or isinstance(v, sym.Iter): obj = ex.iter_place(v); ct = ct[1] if ct[0] == 'ptr' else v_elem(ex, ct)
        elif isinstance(v, MIter): unsupported('method through map iterator')
        else:
            pt = ct[1]
            obj = ex.deref(v, pt); ct = pt
    k = ct[0]
    if isinstance(obj, sym.Place) and obj.root in ex.vars:
        raw = ex.vars[obj.root]
        if isinstance(raw, sym.Lock): return lock_method(ex, raw, name, argn)
        if k == 'other' and isinstance(raw, T.T):
            try:
                if ex.val(obj).sort == 'SS': k = 'sstream'
            except sym.Unsupported: pass
    if k == 'lock': return lock_method(ex, ex.val(obj), name, argn)
    if k == 'mutex': return mutex_method(ex, obj, name)
    if k == 'cv': return cv_method(ex, obj, name, argn, n)
    if k in ('sstream', 'ostream', 'istream'): return stream_method(ex, obj, name, argn, n)
    if k == 'string' or k == 'cstr': return string_method(ex, obj, name, argn, n)
    if k in ('list', 'vector', 'queue', 'deque', 'stack'): return seq_method(ex, obj, ct, name, argn, n)
    if k == 'map': return map_method(ex, obj, ct, name, argn, n)
    if k == 'sptr':
        v = ex.val(obj)
        if name == 'get': return v
        if name == 'reset' and not argn: ex.write(obj, I(0)); return None
        if name == 'operator bool': return T.not_(T.eq(v, I(0)))
        unsupported('smart pointer method %s' % name)
    h = ex.e.opts.get('methods', {}).get(name)
    if h: return h(ex, obj, ct, name, argn, n)
    if name == 'what': return T.strlit(b'what')
    if name == 'operator bool' and isinstance(ex.val(obj), T.T): return ex.tobool(ex.val(obj))
    if k == 'duration' and name == 'count':
        return ex.typed(ex.val(obj), ('int', 64, True))
    unsupported('method %s on %s' % (name, ct))

def tick_ns(ct):
    a = ct[1]
    if a and a[0].startswith('chrono::'):
        return {'nanoseconds': 1, 'microseconds': 10**3, 'milliseconds': 10**6, 'seconds': 10**9, 'minutes': 60 * 10**9, 'hours': 3600 * 10**9}.get(a[0][8:]) or unsupported('duration type %s' % a[0])
    if len(a) < 2: return 10**9
    r = a[1].replace('std::', '').replace(' ', '').replace('L', '')
    m = {'milli': 10**6, 'micro': 10**3, 'nano': 1}.get(r)
    if m: return m
    m = re.match(r'ratio<(\d+)(?:,(\d+))?>', r)
    if not m or a[0].strip() not in ('long', 'long long', 'int', 'int64_t'): unsupported('duration type %s' % (a,))
    n, d = int(m.group(1)), int(m.group(2) or 1)
    if (n * 10**9) % d: unsupported('duration period %s' % r)
    return n * 10**9 // d
def tick_scale(ex, v, ct):
    k = tick_ns(ct)
    return v if k == 1 else T.mul(v, I(k))

def v_elem(ex, ct):
    if ct[0] == 'iter':
        c = ct[1]
        if c[0] == 'map': return ('pair', c[1], c[2])
        if c[0] == 'string': return ('int', 8, True)
        return c[1]
    unsupported('iterator element')

def lock_method(ex, lk, name, argn):
    if name == 'unlock':
        ex.release(lk); return None
    if name == 'lock':
        ex.acquire(lk); return None
    if name == 'owns_lock': return B(lk.owns)
    unsupported('lock method %s' % name)
def mutex_method(ex, pl, name):
    sym = S()
    if name == 'lock':
        lk = sym.Lock(pl, False); ex.acquire(lk); return None
    if name == 'unlock':
        lk = sym.Lock(pl, True); ex.release(lk); return None
    unsupported('mutex method %s' % name)
def cv_method(ex, pl, name, argn, n):
    if ex.monitor is None: unsupported('condition variable outside a monitor')
    if name in ('notify_all', 'notify_one'): ex.monitor.notify(ex, pl, name); return None
    if name in ('wait', 'wait_for', 'wait_until'):
        args = [ex.ev(a) for a in argn]
        return ex.monitor.wait(ex, pl, name, args, n)
    unsupported('condition variable method %s' % name)

def need(ex, c, what): ex.oblige('bounds', c, what)

def string_method(ex, pl, name, argn, n):
    sym = S()
    trust(ex, 'std::string::' + name)
    s = ex.val(pl)
    vs = nondef([ex.ev(a) for a in argn])
    v = [ex.val(x) for x in vs]
    L = lambda: ex.length(s)
    if name in ('size', 'length'): return L()
    if name == 'empty': L(); return T.eq(T.length(s), I(0))
    if name in ('c_str', 'data', 'str'): return s
    if name in ('reserve', 'shrink_to_fit'): return None
    if name == 'capacity': unsupported('capacity')
    if name == 'front': need(ex, T.cmp('<', I(0), L()), 'front() of a nonempty string'); return sub_i(pl, s, I(0))
    if name == 'back': need(ex, T.cmp('<', I(0), L()), 'back() of a nonempty string'); return sub_i(pl, s, T.sub(L(), I(1)))
    if name == 'clear': ex.write(pl, T.empty('int')); return None
    if name == 'push_back': ex.write(pl, T.push(s, v[0])); return None
    if name == 'pop_back':
        need(ex, T.cmp('<', I(0), L()), 'pop_back() of a nonempty string')
        ex.write(pl, T.subrange(s, I(0), T.sub(L(), I(1)))); return None
    if name == 'substr':
        a, b = clampsub(ex, s, v[0] if v else I(0), v[1] if len(v) > 1 else I(NPOS))
        return T.subrange(s, a, b)
    if name == 'at':
        if ex.branch(T.cmp('<', v[0], L())): return sub_i(pl, s, v[0])
        raise sym.CThrow('std::out_of_range')
    if name in ('find', 'find_first_of', 'find_first_not_of'):
        pos = v[1] if len(v) > 1 else I(0)
        if name == 'find' and isstr(v[0]):
            if v[0].op == 'lit' and len(v[0].args) == 1: return search(ex, s, v[0], pos)
            return search_str(ex, s, v[0], pos)
        return search(ex, s, tostr(ex, v[0]), pos, True, name == 'find_first_not_of')
    if name in ('rfind', 'find_last_of', 'find_last_not_of'):
        pos = v[1] if len(v) > 1 else I(NPOS)
        if name == 'rfind' and isstr(v[0]) and not (v[0].op == 'lit' and len(v[0].args) == 1): unsupported('rfind(string)')
        return search(ex, s, tostr(ex, v[0]), pos, False, name == 'find_last_not_of')
    if name == 'erase':
        if not v: ex.write(pl, T.empty('int')); return pl
        if isinstance(v[0], sym.Iter):
            i = v[0].idx
            if len(v) == 1:
                need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<', i, L())), 'erase(iterator)'); j = T.add(i, I(1))
            else:
                j = v[1].idx
                need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, j), T.cmp('<=', j, L())), 'erase(range)')
            ex.write(pl, cut(ex, s, i, j)); return sym.Iter(pl, i, v[0].kind)
        a, b = clampsub(ex, s, v[0], v[1] if len(v) > 1 else I(NPOS))
        ex.write(pl, cut(ex, s, a, b)); return pl
    if name in ('append', 'operator+='):
        ex.write(pl, T.concat(s, str_args(ex, vs, v, argn))); return pl
    if name in ('assign', 'operator='):
        ex.write(pl, str_args(ex, vs, v, argn)); return pl
    if name == 'insert':
        if isinstance(v[0], sym.Iter):
            i = v[0].idx
            need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, L())), 'insert position')
            if len(v) == 2 and not isstr(v[1]): x = T.lit([v[1]], 'int')
            elif len(v) == 3 and isinstance(v[1], T.T): x = T.app('seq_rep', [v[2], v[1]], 'Seq<int>')
            else: unsupported('insert form')
            r = sym.Iter(pl, i, v[0].kind)
        else:
            i = v[0]
            if ex.branch(T.cmp('<', L(), i)): raise sym.CThrow('std::out_of_range')
            x = str_args(ex, vs[1:], v[1:], argn[1:]); r = pl
        ex.write(pl, T.concat(T.concat(T.subrange(s, I(0), i), x), T.subrange(s, i, L()))); return r
    if name == 'replace' and len(v) == 3 and isinstance(v[0], T.T):
        a, b = clampsub(ex, s, v[0], v[1])
        ex.write(pl, T.concat(T.concat(T.subrange(s, I(0), a), tostr(ex, v[2])), T.subrange(s, b, L()))); return pl
    if name == 'resize':
        f = v[1] if len(v) > 1 else I(0)
        if ex.branch(T.cmp('<=', v[0], L())): ex.write(pl, T.subrange(s, I(0), v[0]))
        else: ex.write(pl, T.concat(s, T.app('seq_rep', [f, T.sub(v[0], L())], 'Seq<int>')))
        return None
    if name == 'compare' and len(v) == 1:
        return str_compare(ex, s, tostr(ex, v[0]))
    if name == 'compare' and len(v) == 3:
        a, b = clampsub(ex, s, v[0], v[1])
        return str_compare(ex, T.subrange(s, a, b), tostr(ex, v[2]))
    if name == 'swap':
        ex.write(pl, v[0]); ex.write(vs[0], s); return None
    return iter_method(ex, pl, 'string', s, name)

def range_of(ex, a, b):
    """the elements between two iterators over the same container"""
    s = ex.read(a.place)
    if not getattr(a, 'rev', False): return T.subrange(s, a.idx, b.idx)
    return T.subrange(T.mk('reverse', (s,), s.sort), a.idx, b.idx)

def str_args(ex, vs, v, argn):
    sym = S()
    if len(v) == 1: return tostr(ex, v[0])
    if len(v) == 2 and isinstance(v[0], sym.Iter): return range_of(ex, v[0], v[1])
    if len(v) == 2 and isstr(v[0]): 
        a, b = clampsub(ex, v[0], I(0), v[1]); return T.subrange(v[0], a, b)
    if len(v) == 2: return T.app('seq_rep', [v[1], v[0]], 'Seq<int>')
    if len(v) == 3 and isstr(v[0]):
        a, b = clampsub(ex, v[0], v[1], v[2]); return T.subrange(v[0], a, b)
    unsupported('string argument form')

def cut(ex, s, a, b):
    n = T.length(s)
    return T.concat(T.subrange(s, I(0), a), T.subrange(s, b, n))

def sub_i(pl, s, i):
    if isinstance(pl, S().Place): return pl.sub(('i', i))
    return T.index(s, i)

def iter_method(ex, pl, kind, s, name):
    sym = S()
    if name in ('begin', 'cbegin'): return sym.Iter(pl, I(0), kind)
    if name in ('end', 'cend'): return sym.Iter(pl, ex.length(s), kind)
    if name in ('rbegin', 'crbegin'): return sym.Iter(pl, I(0), kind, True)
    if name in ('rend', 'crend'): return sym.Iter(pl, ex.length(s), kind, True)
    unsupported('%s method %s' % (kind, name))

def seq_method(ex, pl, ct, name, argn, n):
    sym = S(); k = ct[0]
    trust(ex, 'std::%s::%s' % (k, name))
    s = ex.val(pl)
    vs = nondef([ex.ev(a) for a in argn])
    v = [ex.val(x) for x in vs]
    L = lambda: ex.length(s)
    if name == 'size': return L()
    if name == 'empty': L(); return T.eq(T.length(s), I(0))
    if name in ('reserve', 'shrink_to_fit'): return None
    if name == 'clear': ex.write(pl, T.empty(T.elem(s.sort))); return None
    if name in ('push_back', 'emplace_back') or (name in ('push', 'emplace') and k in ('queue', 'stack')):
        if len(v) != 1: unsupported('emplace with %d arguments' % len(v))
        ex.write(pl, T.push(s, ex.conv(v[0], ct[1]))); return None
    if name in ('push_front', 'emplace_front'):
        ex.write(pl, T.concat(T.lit([ex.conv(v[0], ct[1])], T.elem(s.sort)), s)); return None
    if k == 'stack' and name == 'top': need(ex, T.cmp('<', I(0), L()), 'top() of a nonempty stack'); return sub_i(pl, s, T.sub(L(), I(1)))
    if name == 'front': need(ex, T.cmp('<', I(0), L()), 'front() of a nonempty container'); return sub_i(pl, s, I(0))
    if name == 'back': need(ex, T.cmp('<', I(0), L()), 'back() of a nonempty container'); return sub_i(pl, s, T.sub(L(), I(1)))
    if name == 'pop_front' or (name == 'pop' and k == 'queue'):
        need(ex, T.cmp('<', I(0), L()), 'pop of a nonempty container'); ex.write(pl, T.subrange(s, I(1), L())); return None
    if name == 'pop_back' or (name == 'pop' and k == 'stack'):
        need(ex, T.cmp('<', I(0), L()), 'pop of a nonempty container'); ex.write(pl, T.subrange(s, I(0), T.sub(L(), I(1)))); return None
    if name == 'at':
        if ex.branch(T.cmp('<', v[0], L())): return sub_i(pl, s, v[0])
        raise sym.CThrow('std::out_of_range')
    if name == 'swap': ex.write(pl, v[0]); ex.write(vs[0], s); return None
    if name == 'reverse': ex.write(pl, T.mk('reverse', (s,), s.sort)); return None
    if name == 'erase' and isinstance(v[0], sym.Iter):
        i = v[0].idx
        j = v[1].idx if len(v) > 1 else T.add(i, I(1))
        need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, j), T.cmp('<=', j, L())) if len(v) > 1 else T.and_(T.cmp('<=', I(0), i), T.cmp('<', i, L())), 'erase')
        ex.write(pl, cut(ex, s, i, j)); return sym.Iter(pl, i, v[0].kind)
    if name == 'insert' and isinstance(v[0], sym.Iter):
        i = v[0].idx
        need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, L())), 'insert position')
        if len(v) == 2: x = T.lit([ex.conv(v[1], ct[1])], T.elem(s.sort))
        elif len(v) == 3 and isinstance(v[1], sym.Iter): x = T.subrange(ex.read(v[1].place), v[1].idx, v[2].idx)
        else: unsupported('insert form')
        ex.write(pl, T.concat(T.concat(T.subrange(s, I(0), i), x), T.subrange(s, i, L()))); return sym.Iter(pl, i, v[0].kind)
    if name == 'assign' and len(v) == 2 and isinstance(v[0], sym.Iter):
        ex.write(pl, T.subrange(ex.read(v[0].place), v[0].idx, v[1].idx)); return None
    return iter_method(ex, pl, k, s, name)

def map_method(ex, pl, ct, name, argn, n):
    sym = S()
    trust(ex, 'std::map::' + name)
    m = ex.val(pl)
    vs = nondef([ex.ev(a) for a in argn])
    v = [ex.val(x) for x in vs]
    if name == 'find':
        return MIter(pl, v[0], T.not_(T.mhas(m, v[0])))
    if name == 'count': return T.ite(T.mhas(m, v[0]), I(1), I(0))
    if name in ('end', 'cend'): return MIter(pl, None, TRUE)
    if name in ('begin', 'cbegin'):
        ks = sym.map_keys(ex, m); sym.map_key_facts(ex, m, ks)
        return sym.Iter(pl, I(0), 'map', base=(m, ks))
    if name == 'empty':
        ks = sym.map_keys(ex, m); sym.map_key_facts(ex, m, ks)
        return T.eq(T.length(ks), I(0))
    if name == 'size':
        ks = sym.map_keys(ex, m); sym.map_key_facts(ex, m, ks)
        return T.length(ks)
    if name == 'clear': ex.write(pl, T.mempty(m.sort)); return None
    if name == 'at':
        if ex.branch(T.mhas(m, v[0])): return pl.sub(('k', v[0]))
        raise sym.CThrow('std::out_of_range')
    if name == 'erase':
        key = v[0]
        if isinstance(key, MIter):
            need(ex, T.not_(key.end), 'erase(end())'); key = key.key
            ex.write(pl, T.mremove(m, key)); return None
        if isinstance(key, sym.Iter): unsupported('map erase(iterator)')
        if not ex.branch(T.mhas(m, key)): return I(0)
        ex.write(pl, T.mremove(m, key)); return I(1)
    if name in ('insert', 'emplace'):
        if len(v) == 2: key, val = v
        elif isinstance(v[0], T.T) and v[0].sort in T.STRUCTS: key, val = T.proj(v[0], 'first'), T.proj(v[0], 'second')
        else: unsupported('map insert form')
        new = ex.branch(T.not_(T.mhas(m, key)))
        if new: ex.write(pl, T.minsert(m, key, ex.conv(val, ct[2])))
        return {'first': MIter(pl, key, FALSE), 'second': B(new)}
    unsupported('map method %s' % name)

# ---------------------------------------------------------------- streams
def pad(ex, ss, text, internal_prefix=0):
    """text written to the stream with the current width; returns the new stream"""
    w = T.proj(ss, 'width'); fill = T.proj(ss, 'fill')
    t = text
    if not (T.isint(w) and w.args[0] <= 0):
        adj = T.proj(ss, 'left')
        if not T.isint(adj): unsupported('adjustment not static')
        if adj.args[0] == 2: unsupported('internal adjustment')
        t = T.app('padl' if adj.args[0] == 1 else 'padr', [text, w, fill], 'Seq<int>')
        trust(ex, 'std::ostream width/fill padding (padl: left adjusted, padr: right adjusted)')
    ss = T.setf(ss, 'buf', T.concat(T.proj(ss, 'buf'), t))
    return T.setf(ss, 'width', I(0))

def fmt_int(ex, ss, v, ct):
    base = T.proj(ss, 'base'); up = T.proj(ss, 'upper'); sb = T.proj(ss, 'showbase')
    if not T.isint(base): unsupported('stream base not static')
    trust(ex, 'std::ostream << integer')
    if base.args[0] == 10:
        if ct[2]: return T.app('dec_int', [v], 'Seq<int>')
        return T.app('dec_nat', [v], 'Seq<int>')
    if ct[2]: v = ex.wrap(v, ('int', ct[1], False))
    if not T.isbool(sb): unsupported('showbase not static')
    if base.args[0] == 16:
        t = T.app('hex_nat', [v, up], 'Seq<int>')
        if sb.args[0]: t = T.ite(T.eq(v, I(0)), t, T.concat(T.ite(up, T.strlit(b'0X'), T.strlit(b'0x')), t))
        return t
    t = T.app('oct_nat', [v], 'Seq<int>')
    if sb.args[0]: t = T.ite(T.eq(v, I(0)), t, T.concat(T.strlit(b'0'), t))
    return t

def stream_out(ex, pl, rn, node):
    """pl << (value of node)"""
    sym = S()
    ss = ex.val(pl)
    a = rn
    ct = ex.ctype(node) if node is not None else None
    while ct and ct[0] == 'ref': ct = ct[1]
    if isinstance(a, sym.FuncRef):
        r = a.fn['referencedDecl']; name = r.get('name')
        return manip(ex, pl, sym.Manip(name))
    if isinstance(a, sym.Manip): return manip(ex, pl, a)
    v = ex.val(a)
    if isinstance(v, sym.Manip): return manip(ex, pl, v)
    if isinstance(v, sym.Opaque):
        if v.what == 'exception': v = T.strlit(b'exception')
        else: unsupported('<< of %s' % v.what)
    if isstr(v): text = v; trust(ex, 'std::ostream << string')
    elif isinstance(v, T.T) and v.sort == 'F64':
        trust(ex, 'std::ostream << double (uninterpreted text fmt_double(value, mode, precision))')
        text = T.app('fmt_double', [v, T.proj(ss, 'fmode'), T.proj(ss, 'prec')], 'Seq<int>')
    elif isinstance(v, T.T) and v.sort == 'bool': text = T.ite(v, T.strlit(b'1'), T.strlit(b'0'))
    elif isinstance(v, T.T) and v.sort == 'int':
        if ct is None or ct[0] not in ('int', 'bool'): unsupported('<< of %s' % (ct,))
        if ct[0] == 'bool': text = T.ite(T.eq(v, I(0)), T.strlit(b'0'), T.strlit(b'1'))
        elif ct[1] == 8: text = T.lit([v], 'int'); trust(ex, 'std::ostream << char')
        else: text = fmt_int(ex, ss, v, ct)
    else: unsupported('<< of %s' % (v,))
    ex.write(pl, pad(ex, ss, text))
    return pl

def manip(ex, pl, m):
    ss = ex.val(pl)
    n = m.name
    st = lambda **kw: ex.write(pl, setmany(ss, kw))
    trust(ex, 'std::ostream manipulators')
    if n in ('setw', 'std::setw'): st(width=m.args[0])
    elif n == 'setfill': st(fill=m.args[0])
    elif n == 'setprecision': st(prec=m.args[0])
    elif n == 'setbase': st(base=m.args[0])
    elif n in ('hex', 'dec', 'oct'): st(base=I({'hex': 16, 'dec': 10, 'oct': 8}[n]))
    elif n in ('left', 'right', 'internal'): st(left=I({'left': 1, 'right': 0, 'internal': 2}[n]))
    elif n in ('uppercase', 'nouppercase'): st(upper=B(n == 'uppercase'))
    elif n in ('showbase', 'noshowbase'): st(showbase=B(n == 'showbase'))
    elif n in ('fixed', 'scientific', 'defaultfloat'): st(fmode=I({'fixed': 1, 'scientific': 2, 'defaultfloat': 0}[n]))
    elif n == 'endl': ex.write(pl, pad_raw(ss, T.strlit(b'\n')))
    elif n == 'ends': ex.write(pl, pad_raw(ss, T.strlit(b'\0')))
    elif n in ('flush', 'ws', 'skipws'): pass
    else: unsupported('manipulator %s' % n)
    return pl
def pad_raw(ss, t): return T.setf(ss, 'buf', T.concat(T.proj(ss, 'buf'), t))
def setmany(ss, kw):
    for k, v in kw.items(): ss = T.setf(ss, k, v)
    return ss

FLAGS = {'showbase': ('showbase', TRUE), 'uppercase': ('upper', TRUE), 'left': ('left', I(1)), 'right': ('left', I(0)), 'hex': ('base', I(16)), 'oct': ('base', I(8)), 'dec': ('base', I(10)), 'fixed': ('fmode', I(1)), 'scientific': ('fmode', I(2))}
def flagset(v):
    """flags denoted by an (opaque) std::ios flag expression"""
    sym = S()
    if isinstance(v, sym.Opaque):
        m = re.match(r'(?:var:|flags:)(.*)', v.what)
        if m: return [x for x in m.group(1).split('|')]
    unsupported('stream flags %s' % (v,))
def stream_method(ex, pl, name, argn, n):
    sym = S()
    trust(ex, 'std::stringstream::' + name)
    ss = ex.val(pl)
    vs = nondef([ex.ev(a) for a in argn]); v = [ex.val(x) for x in vs]
    if name == 'str':
        if not v: return T.proj(ss, 'buf')
        ex.write(pl, setmany(ss, dict(buf=v[0], inp=v[0], pos=I(0)))); return None
    if name == 'width':
        if v: ex.write(pl, T.setf(ss, 'width', v[0]))
        return T.proj(ss, 'width')
    if name == 'fill':
        if v: ex.write(pl, T.setf(ss, 'fill', v[0]))
        return T.proj(ss, 'fill')
    if name == 'precision':
        if v: ex.write(pl, T.setf(ss, 'prec', v[0]))
        return T.proj(ss, 'prec')
    if name in ('setf', 'unsetf'):
        fl = flagset(v[0])
        for f in fl:
            if f not in FLAGS: unsupported('stream flag %s' % f)
            fld, val = FLAGS[f]
            if name == 'unsetf':
                if fld == 'fmode': val = I(0)
                elif fld in ('showbase', 'upper'): val = FALSE
                elif fld == 'left': val = I(0)
                elif fld == 'base': val = I(10)
            ss = T.setf(ss, fld, val)
        ex.write(pl, ss); return None
    if name in ('fail', 'operator!'): return T.not_(T.proj(ss, 'ok'))
    if name in ('good', 'operator bool'):
        if name == 'good': unsupported('good()')
        return T.proj(ss, 'ok')
    if name == 'bad':      # nothing here raises badbit on a string stream
        return FALSE
    if name == 'eof':
        return T.app('ss_eof', [T.proj(ss, 'inp'), T.proj(ss, 'pos'), T.proj(ss, 'ok')], 'bool')
    if name in ('flush',): return pl
    if name == 'put': ex.write(pl, pad_raw(ss, T.lit([v[0]], 'int'))); return pl
    if name == 'write' and len(v) == 2 and isstr(v[0]):
        a, b = clampsub(ex, v[0], I(0), v[1]); ex.write(pl, pad_raw(ss, T.subrange(v[0], a, b))); return pl
    if name == 'clear': ex.write(pl, T.setf(ss, 'ok', TRUE)); return None
    if name == 'operator<<':
        return stream_out(ex, pl, vs[0], argn[0])
    if name == 'operator>>':
        return stream_in(ex, pl, vs[0], argn[0])
    if name == 'copyfmt' : unsupported('copyfmt')
    unsupported('stream method %s' % name)

def tname(ct):
    if ct[0] == 'int': return '%s%d' % ('i' if ct[2] else 'u', ct[1]) if ct[1] != 8 else 'chr'
    return {'bool': 'bool', 'double': 'f64', 'string': 'str'}.get(ct[0]) or unsupported('>> into %s' % (ct,))
def xt_name(node_or_ct, q=None):
    if q:
        q = strip(q).rstrip('&')
        m = {'int': 'int', 'unsigned int': 'uint', 'long': 'long', 'unsigned long': 'ulong', 'double': 'double', 'float': 'float', 'char': 'char', 'short': 'short', 'bool': 'bool', 'unsigned short': 'ushort', 'std::string': 'string', 'std::basic_string<char>': 'string', 'string': 'string', 'long double': 'ldouble', 'long long': 'llong', 'unsigned long long': 'ullong', 'signed char': 'schar', 'unsigned char': 'uchar'}
        return m.get(q)
def stream_in(ex, pl, target, node):
    sym = S()
    if not isinstance(target, sym.Place): unsupported('>> target')
    ct = ex.ctype(node)
    while ct[0] == 'ref': ct = ct[1]
    q = node['type'].get('desugaredQualType', node['type']['qualType'])
    nm = xt_name(None, q) or tname(ct)
    so = ex.e.sort(ct)
    trust(ex, 'std::istream >> %s (%s)' % (q, 'spec/extract.rs' if nm in verus.XT_NUM else 'uninterpreted extraction xt_%s_*' % nm))
    ss = ex.val(pl)
    inp, pos, ok = T.proj(ss, 'inp'), T.proj(ss, 'pos'), T.proj(ss, 'ok')
    old = ex.val(target)
    okf = T.and_(ok, T.app('xt_%s_ok' % nm, [inp, pos], 'bool'))
    new = T.app('xt_%s_val' % nm, [inp, pos], so); ex.typed(new, ct)
    bad = T.app('xt_%s_bad' % nm, [inp, pos, ok, old], so); ex.typed(bad, ct)
    nv = T.ite(okf, new, bad)
    np = T.app('xt_%s_pos' % nm, [inp, pos, ok], 'int')
    ex.e.extra.append(('xt', nm, so))
    ex.write(pl, setmany(ss, dict(ok=okf, pos=np)))
    ex.write(target, nv)
    return pl

# ---------------------------------------------------------------- operators
def call_operator(ex, op, n, argn, ref):
    sym = S()
    o = op[len('operator'):]
    if o in ('<<', '>>') :
        a = ex.ev(argn[0]); ct = ex.ctype(argn[0])
        if isinstance(a, sym.Place) and isinstance(ex.vars.get(a.root), T.T) and ex.val(a).sort == 'SS':
            b = ex.ev(argn[1])
            if o == '<<':
                bt = ex.ctype(argn[1])
                while bt[0] == 'ref': bt = bt[1]
                if bt[0] == 'class':
                    h = ex.e.opts.get('outop', {}).get(bt[1])
                    if h: h(ex, a, b); return a
                    f = ex.prog.find_operator(o, bt[1])
                    if f is None: unsupported('operator<< for %s' % bt[1])
                    if not isinstance(b, sym.Place): b = ex.newtmp(b)
                    return ex.call(f, None, [a, b], n)
                return stream_out(ex, a, b, argn[1])
            return stream_in(ex, a, b, argn[1])
        unsupported('%s on %s' % (o, ct))
    args = [ex.ev(a) for a in argn]
    cts = [ex.ctype(a) for a in argn]
    cts = [c[1] if c[0] == 'ref' else c for c in cts]
    v = [ex.val(a) for a in args]
    if o == '=':
        if not isinstance(args[0], sym.Place): unsupported('assignment to rvalue')
        x = v[1]
        if cts[0][0] == 'string': x = tostr(ex, x)
        if isinstance(x, MIter) or isinstance(x, sym.Iter): ex.write(args[0], x); return args[0]
        h = ex.e.opts.get('assign')
        if h: x = h(ex, args[0], x)
        ex.assign(args[0], x, cts[0])
        return args[0]
    if cts[0][0] == 'duration' or (len(cts) > 1 and cts[1][0] == 'duration'):
        if o in ('==', '!=', '<', '>', '<=', '>='):
            x, y = [tick_scale(ex, a, c) if c[0] == 'duration' else unsupported('duration comparison') for a, c in zip(v, cts)]
            return ex.compare(o, x, y)
        unsupported('duration operator %s' % o)
    if o == '[]':
        if cts[0][0] == 'map':
            m = ex.val(args[0]); key = v[1]
            trust(ex, 'std::map::operator[]')
            if not ex.branch(T.mhas(m, key)):
                ex.write(args[0], T.minsert(m, key, ex.default_value(cts[0][2])))
            return args[0].sub(('k', key))
        s = v[0]; i = v[1]; L = ex.length(s)
        trust(ex, 'std::%s::operator[]' % cts[0][0])
        if cts[0][0] == 'string':
            if ex.known(T.cmp('<', i, L)) is not True:
                need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<=', i, L)), 'string subscript')
                if ex.branch(T.eq(i, L)): return ex.newtmp(I(0))
                ex.assume(T.cmp('<', i, L))
            return sub_i(args[0], s, i)
        need(ex, T.and_(T.cmp('<=', I(0), i), T.cmp('<', i, L)), 'vector subscript')
        return sub_i(args[0], s, i)
    if o in ('==', '!='):
        r = eqv(ex, v[0], v[1])
        return r if o == '==' else T.not_(r)
    if o in ('<', '>', '<=', '>='):
        if isstr(v[0]) or isstr(v[1]):
            return ex.compare(o, str_compare(ex, tostr(ex, v[0]), tostr(ex, v[1])), I(0))
        return ex.compare(o, v[0], v[1])
    if o == '*':
        if isinstance(v[0], sym.Iter) and v[0].kind != 'map': return ex.iter_place(v[0])
        return ex.deref(v[0], cts[0][1])
    if o == '->':
        if isinstance(v[0], MIter):
            return v[0]
        if isinstance(v[0], sym.Iter):
            return v[0]
        return v[0]
    if o in ('++', '--') and isinstance(v[0], sym.Iter):
        it = v[0]; nv = it.at(T.add(it.idx, I(1 if o == '++' else -1)))
        ex.write(args[0], nv)
        return it if len(args) > 1 else args[0]
    if o in ('+', '-') and isinstance(v[0], sym.Iter):
        if isinstance(v[1], sym.Iter): return T.sub(v[0].idx, v[1].idx)
        return v[0].at(T.add(v[0].idx, v[1]) if o == '+' else T.sub(v[0].idx, v[1]))
    if o == '+=' and isinstance(v[0], sym.Iter):
        ex.write(args[0], v[0].at(T.add(v[0].idx, v[1]))); return args[0]
    if o == '+':
        trust(ex, 'std::string operator+')
        if cts[0][0] in ('string', 'cstr') or cts[1][0] in ('string', 'cstr'):
            a = v[0]; b = v[1]
            if isstr(a) and not isstr(b): return T.push(a, b)
            return T.concat(tostr(ex, a), tostr(ex, b))
    if o == '+=' and cts[0][0] == 'string':
        trust(ex, 'std::string operator+=')
        ex.write(args[0], T.push(v[0], v[1]) if not isstr(v[1]) else T.concat(v[0], v[1])); return args[0]
    if o == '|':
        return sym.Opaque('flags:' + '|'.join(flagset(v[0]) + flagset(v[1])))
    if o == '!' and isinstance(v[0], T.T) and v[0].sort == 'SS': return T.not_(T.proj(v[0], 'ok'))
    if o == '()':
        h = ex.e.opts.get('callop')
        if isinstance(v[0], sym.Closure): return ex.call_closure(v[0], args[1:], n)
        if h: return h(ex, v[0], v[1:], n, cts)
    unsupported('operator%s on %s' % (o, cts))

def eqv(ex, a, b):
    sym = S()
    if isinstance(a, MIter) or isinstance(b, MIter):
        if isinstance(a, sym.Iter): a, b = b, a
        if isinstance(b, sym.Iter):      # begin()-style iterator against end()
            if a.key is not None: unsupported('map iterator comparison')
            m0, ks = b.base
            ex.oblige('bounds', T.raw('({0}.dom() =~= {1}.dom())', 'bool', ex.read(b.place), m0), 'map iteration: the keys do not change meanwhile', prop=False)
            return T.eq(b.idx, T.length(ks))
        if a.key is None: return b.end
        if b.key is None: return a.end
        return T.or_(T.and_(a.end, b.end), T.and_(T.not_(a.end), T.not_(b.end), T.eq(a.key, b.key)))
    return ex.compare('==', a, b)

# ---------------------------------------------------------------- construction
def construct(ex, ct, n, argn):
    sym = S()
    while ct[0] == 'ref': ct = ct[1]
    k = ct[0]
    args = [ex.ev(a) for a in argn]
    vs = nondef(args); v = [ex.val(a) for a in vs]
    if k in ('mutex', 'cv') and not v: return I(0)
    if k == 'string':
        trust(ex, 'std::string constructors')
        if not v: return T.empty('int')
        if len(v) == 1:
            if isinstance(v[0], sym.Opaque): return T.empty('int')
            return tostr(ex, v[0])
        return str_args(ex, vs, v, argn) if not (len(v) == 2 and isinstance(v[1], T.T) and not isstr(v[0]) and not isinstance(v[0], sym.Iter)) else T.app('seq_rep', [v[1], v[0]], 'Seq<int>')
    if k in ('list', 'vector', 'deque', 'queue', 'stack', 'set'):
        if not v: return ex.default_value(ct)
        if len(v) == 1 and isinstance(v[0], T.T) and T.is_seq(v[0].sort): return v[0]
        if len(v) == 2 and isinstance(v[0], sym.Iter): return T.subrange(ex.read(v[0].place), v[0].idx, v[1].idx)
        unsupported('%s constructor' % k)
    if k == 'map':
        if not v: return ex.default_value(ct)
        if len(v) == 1 and isinstance(v[0], T.T): return v[0]
    if k in ('sstream', 'ostream'):
        trust(ex, 'std::stringstream')
        if not v or isinstance(v[0], sym.Opaque): return ex.new_ss()
        if isstr(v[0]): return ex.new_ss(buf=v[0], inp=v[0])
    if k == 'sptr':
        if not v: return I(0)
        if isinstance(v[0], sym.Ptr): unsupported('smart pointer to stack object')
        return v[0]
    if k == 'pair' and len(v) == 2:
        return T.ctor(ex.e.sort(ct), v)
    if k == 'pair' and len(v) == 1: return v[0]
    if k in ('iter', 'iter?') and len(v) == 1: return v[0]
    if len(v) == 1 and isinstance(v[0], (sym.Iter, MIter)): return v[0]
    if k == 'func':
        if len(v) == 1:
            if isinstance(v[0], T.T): return v[0]
            return ex.fresh('func', 'int')
        if not v: return I(0)
    if k == 'duration':
        if not v: return ex.fresh('dur', 'int')
        if len(v) == 1 and isinstance(v[0], T.T):
            trust(ex, 'std::chrono::duration: a signed tick count, converted exactly')
            at = ex.ctype(argn[0])
            while at[0] == 'ref': at = at[1]
            if at[0] == 'duration':
                a, b = tick_ns(at), tick_ns(ct)
                if a % b: unsupported('inexact duration conversion')
                r = T.mul(v[0], I(a // b)) if a != b else v[0]
                lo, hi = irange(('int', 64, True))
                ex.oblige('overflow', T.and_(T.cmp('<=', I(lo), r), T.cmp('<=', r, I(hi))), 'duration conversion in range')
                return r
            if at[0] == 'int': return ex.wrap(v[0], ('int', 64, True))
        unsupported('duration construction')
    h = ex.e.opts.get('construct')
    if h:
        r = h(ex, ct, n, args)
        if r is not None: return r
    if k == 'other' and len(v) == 1: return v[0]
    unsupported('construction of %s' % (ct,))

# ---------------------------------------------------------------- functions
def call_function(ex, name, n, argn, ref):
    sym = S()
    h = ex.e.opts.get('functions', {}).get(name)
    if h: return h(ex, name, n, argn)
    if name in ('setw', 'setfill', 'setprecision', 'setbase'):
        return sym.Manip(name, [ex.val(ex.ev(argn[0]))])
    if name in ('move', 'forward', 'as_const', 'addressof'):
        return ex.ev(argn[0])
    args = [ex.ev(a) for a in argn]
    v = [ex.val(a) for a in args]
    if name in ('make_shared', 'make_unique'):
        ct = ex.ctype(n); cls = ct[1][1]
        return make_object(ex, cls, args)
    if name in ('isdigit', 'isspace', 'isalpha', 'isalnum', 'isupper', 'islower', 'isxdigit', 'ispunct'):
        trust(ex, '%s in the "C" locale' % name)
        return T.ite(T.app('c_' + name, [v[0]], 'bool'), I(1), I(0))
    if name in ('toupper', 'tolower'):
        trust(ex, '%s in the "C" locale' % name)
        r = T.app('c_' + name, [v[0]], 'int'); ex.ranges()[r.uid] = ex.rng(v[0]) if ex.rng(v[0])[0] > -300 else irange(('int', 32, True)); return r
    if name in ('max', 'min') and len(v) == 2:
        c = ex.compare('<', v[0], v[1])
        return T.ite(c, v[1], v[0]) if name == 'max' else T.ite(T.not_(ex.compare('<', v[1], v[0])), v[0], v[1])
    if name == 'swap':
        a, b = v; ex.write(args[0], b); ex.write(args[1], a); return None
    if name == 'to_string':
        ct = ex.ctype(argn[0]); trust(ex, 'std::to_string')
        return T.app('dec_int' if ct[2] else 'dec_nat', [v[0]], 'Seq<int>')
    if name in ('stoi', 'stol') and isstr(v[0]) and all(a['kind'] == 'CXXDefaultArgExpr' for a in argn[1:]):
        x = 'int' if name == 'stoi' else 'long'; trust(ex, 'std::%s: the number a stream would read from the text, or an exception' % name)
        ex.e.extra.append(('xt', x, 'int'))
        if not ex.branch(T.app('xt_%s_ok' % x, [v[0], I(0)], 'bool')):
            if ex.branch(ex.fresh('no_digits', 'bool')): raise sym.CThrow('std::invalid_argument')
            raise sym.CThrow('std::out_of_range')
        r = T.app('xt_%s_val' % x, [v[0], I(0)], 'int'); ex.typed(r, ('int', 32 if x == 'int' else 64, True)); return r
    if name == 'reverse':
        a, b = v
        s = ex.read(a.place)
        if not (a.idx is I(0) and b.idx is T.length(s)): unsupported('partial reverse')
        trust(ex, 'std::reverse')
        ex.write(a.place, T.mk('reverse', (s,), s.sort)); return None
    if name == 'transform' and len(v) == 4: return transform(ex, v)
    if name in ('distance',): return T.sub(v[1].idx, v[0].idx)
    if name in ('next', 'prev') and isinstance(v[0], sym.Iter):
        d = v[1] if len(v) > 1 and isinstance(v[1], T.T) else I(1)
        return v[0].at(T.add(v[0].idx, d) if name == 'next' else T.sub(v[0].idx, d))
    if name in ('begin', 'end') and isinstance(args[0], sym.Place):
        s = ex.val(args[0]); return sym.Iter(args[0], I(0) if name == 'begin' else ex.length(s), 'string')
    if name in ('isnan', 'isinf', 'isfinite', 'signbit', '__builtin_isnan', '__builtin_isinf'):
        return T.app('f64_' + name.replace('__builtin_', ''), [v[0]], 'bool')
    if name in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'abs') and v[0].sort == 'F64':
        return T.app('f64_' + ('fabs' if name == 'abs' else name), [v[0]], 'F64')
    if name == 'pow': return T.app('f64_pow', [as_f(v[0]), as_f(v[1])], 'F64')
    if name == 'modf':
        p = v[1]
        if not isinstance(p, sym.Ptr): unsupported('modf target')
        ex.write(p.place, T.app('f64_trunc', [v[0]], 'F64'))
        return T.app('f64_frac', [v[0]], 'F64')
    if name in ('abs', 'labs') and v[0].sort == 'int':
        ct = ex.ctype(argn[0])
        ex.oblige('overflow', T.cmp('<', I(irange(ct)[0]), v[0]), 'abs() in range')
        return T.ite(T.cmp('<', v[0], I(0)), T.neg(v[0]), v[0])
    if name in ('strlen',): return ex.length(v[0])
    if name in ('terminate', 'abort'):
        ex.oblige('abort', FALSE, 'program termination reached'); raise sym.PathEnd()
    if name in ('__cxa_demangle',): return T.strlit(b'')
    unsupported('function %s' % name)

def as_f(v): return v if v.sort == 'F64' else T.app('f64_of_int', [v], 'F64')

def transform(ex, v):
    sym = S()
    a, b, d, f = v
    s = ex.read(a.place)
    if not (a.idx is I(0) and b.idx is T.length(s) and d.place == a.place and d.idx is I(0) and isinstance(f, sym.Closure)): unsupported('transform form')
    x = ex.fresh('tr', 'int')
    nt = len(ex.taken)
    p = f.method.params[0]
    ct = ex.types.parse(p['type'].get('desugaredQualType', p['type']['qualType']))
    arg = ex.wrap(x, ct)
    nh = len(ex.hyps)
    r = ex.val(ex.call_closure(f, [arg], None))
    if len(ex.taken) != nt: unsupported('branching transform')
    for h in ex.hyps[nh:]: ex.hypset.discard(h.uid)
    del ex.hyps[nh:]
    r = ex.wrap(r, ('int', 8, True))
    trust(ex, 'std::transform')
    txt = T.show(r)
    body = re.sub(r'\b%s\b' % re.escape(x.args[0]), '{0}[k__]', txt.replace('{', '{{').replace('}', '}}'))
    body = body.replace('{{', '{{').replace('}}', '}}')
    res = ex.fresh('transformed', 'Seq<int>')
    ex.assume(T.eq(T.length(res), T.length(s)))
    ex.assume(T.raw('forall|k__: int| #![trigger {1}[k__]] 0 <= k__ < {0}.len() ==> {1}[k__] == ' + body, 'bool', s, res))
    ex.transformed = getattr(ex, 'transformed', []) + [(s, res)]
    ex.write(a.place, res)
    return d

def make_object(ex, cls, args):
    """make_shared<cls>(args...): overload by number of parameters"""
    sym = S()
    rec = ex.prog.rec(cls)
    c = []
    for f in rec.methods:
        if f.node['kind'] != 'CXXConstructorDecl' or f.node.get('isImplicit'): continue
        b = ex.prog.fn_by_id.get(f.cid)
        if b is None or b.body is None: continue
        nd = len(ex.prog.default_args.get(f.cid, {}))
        if len(b.params) - nd <= len(args) <= len(b.params): c.append(b)
    if len(c) > 1:
        c2 = [b for b in c if all(argfits(ex, ex.types.parse(p['type'].get('desugaredQualType', p['type']['qualType'])), a) for p, a in zip(b.params, args))]
        c = c2 or c
    if len(c) > 1:
        c2 = [b for b in c if len(b.params) == len(args)]
        c = c2 if len(c2) == 1 else c
    if len(c) != 1: unsupported('make_shared<%s>: %d candidate constructors' % (cls, len(c)))
    fn = c[0]
    vals = []
    for p, a in zip(fn.params, args):
        ct = ex.types.parse(p['type'].get('desugaredQualType', p['type']['qualType']))
        vals.append(a if ct[0] == 'ref' else ex.val(a))
    trust(ex, 'std::make_shared/make_unique: constructs a new object with these arguments')
    return ex.new_object(cls, lambda pl: ex.call(fn, pl, vals, None))

def argfits(ex, ct, a):
    while ct[0] == 'ref': ct = ct[1]
    try: v = ex.val(a)
    except Exception: return True
    if isinstance(v, T.T):
        try: so = ex.e.sort(ct)
        except Exception: return True
        if ct[0] == 'bool': return v.sort == 'bool'
        return v.sort == so
    return True
