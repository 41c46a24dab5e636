"""B01, B02, B03: SoDa::Barrier as a monitor.  Every critical section of the real code is checked to be one step of the
transition relation of spec/barrier.rs; the properties are theorems about all histories of such steps."""
import terms as T, sym, stl
from terms import I, B, TRUE, FALSE
from sym import Engine, Unsupported, CThrow, PathEnd
from contracts import *

SPECS = ['barrier.rs']
CLS = 'SoDa::Barrier'
SHARED = ('waiting', 'barrier_count', 'corrupted')
MAXMS = 10**12

class Seg:
    def __init__(s, pre): s.pre = pre; s.post = None

class Mon:
    """rely/guarantee bookkeeping for one call: what the other threads may do is any number of steps that keep jb"""
    def __init__(s, ex, this, pid):
        s.pid = pid; s.this = this; s.segs = []; s.open = False; s.slept = []; s.expired = False; s.calls = []; s.notes = []
        s.name = T.proj(ex.vars[this.root], 'name'); s.n = T.proj(ex.vars[this.root], 'num_waiters')
    def state(s, ex): return ex.vars[s.this.root]
    def havoc(s, ex, lk=None):
        b = ex.fresh('s', 'Barrier')
        ex.typed(T.proj(b, 'waiting'), ('int', 32, False)); ex.typed(T.proj(b, 'barrier_count'), ('int', 32, False))
        ex.assume(T.cmp('<', T.proj(b, 'barrier_count'), I(2**32 - 1)))
        ex.assume(T.raw('jb({0})', 'bool', b))
        b = T.setf(T.setf(b, 'name', s.name), 'num_waiters', s.n)
        ex.assume(T.raw('jb({0})', 'bool', b))
        ex.vars[s.this.root] = b
        s.segs.append(Seg(b)); s.open = True
    def is_mtx(s, lk): return lk.mutex == s.this.sub(('f', 'mtx'))
    def acquire(s, ex, lk):
        if s.is_mtx(lk): s.havoc(ex)
    def release(s, ex, lk):
        if s.is_mtx(lk): s.end(ex)
    def end(s, ex): s.segs[-1].post = s.state(ex); s.open = False
    def notify(s, ex, pl, name):
        if pl != s.this.sub(('f', 'cv')): raise Unsupported('another condition variable')
        s.notes.append((len(s.segs), name))
    def undecided(s, ex, what):
        if s.pid == 'B01': return ex.oblige('sleep', T.eq(T.proj(s.state(ex), 'barrier_count'), T.proj(s.segs[0].pre, 'barrier_count')), what)
        ex.oblige('sleep', T.not_(T.raw('decided({0}, {1})', 'bool', s.state(ex), T.proj(s.segs[0].pre, 'barrier_count'))), what)
    def wait(s, ex, pl, name, args, n):
        if pl != s.this.sub(('f', 'cv')): raise Unsupported('another condition variable')
        lk = ex.val(args[0])
        if not isinstance(lk, sym.Lock): raise Unsupported('wait without lock')
        ex.oblige('lock', B(lk.owns and s.is_mtx(lk)), 'the barrier mutex is held when waiting')
        pred = ex.val(args[-1])
        if name == 'wait_until' or not isinstance(pred, sym.Closure): raise Unsupported('condition wait without predicate')
        if name == 'wait_for':
            ct = ex.ctype(ex.inner(n)[2])
            while ct[0] == 'ref': ct = ct[1]
            if ct[0] != 'duration': raise Unsupported('wait_for of %s' % (ct,))
            s.slept.append(stl.tick_scale(ex, ex.val(args[1]), ct))
        else: s.slept.append(None)
        def ask():
            st = s.state(ex)
            v = ex.tobool(ex.val(ex.call_closure(pred, [], n)))
            if s.state(ex) is not st: raise Unsupported('predicate with side effects')
            return ex.branch(v)
        if ask(): return TRUE
        s.undecided(ex, 'the round is not decided when the waiter goes to sleep')
        s.end(ex); s.havoc(ex)
        if ask(): return TRUE
        s.undecided(ex, 'the round is not decided while the waiter stays asleep')
        if name == 'wait': raise PathEnd()
        s.expired = True
        return FALSE

class WaitContract:
    """a nested wait(duration): may end in any way, and its outcome must be passed on"""
    qual = CLS + '::wait'
    def matches(s, fn): return fn.qual == s.qual and 'duration' in fn.type
    def apply(s, ex, fn, this, args):
        d = ex.val(args[0])
        ct = ex.types.parse(sym.ptype(fn.params[0]))
        while ct[0] == 'ref': ct = ct[1]
        ex.oblige('requires', T.not_(T.eq(d, I(0))), 'a nested wait does not recurse again')
        ex.oblige('requires', B(this == ex.monitor.this and not ex.locks), 'the nested wait is on this barrier and no lock is held')
        if ex.monitor.segs: raise Unsupported('nested wait after a critical section')
        if ex.choose('normal'): o = None
        else: o = CLS + ('::Timeout' if ex.choose('timeout') else '::Corrupt')
        ex.monitor.calls.append((stl.tick_scale(ex, d, ct), o))
        if o: raise CThrow(o)

def access(ex, p, write):
    m = ex.monitor
    if m is None or p.root != m.this.root: return
    f = p.path[0][1] if p.path and p.path[0][0] == 'f' else None
    if f in SHARED or (f is None and write):
        ex.oblige('lock', B(m.this.sub(('f', 'mtx')) in ex.locks), '%s of barrier state %s under the barrier mutex' % ('write' if write else 'read', f))
    elif write: ex.oblige('frame', FALSE, 'field %s is not changed by wait' % f)

def wait_goal(fn, pid):
    dur = 'duration' in fn.type
    def body(ex):
        b = T.const('bar', ex.e.struct(CLS)); ex.typed(T.proj(b, 'num_waiters'), ('int', 32, False))
        ex.assume(T.cmp('<=', I(1), T.proj(b, 'num_waiters')))
        this = ex.newtmp(b); ex.vtypes[this.root] = ('class', CLS); ex.vnames[this.root] = 'self'
        args, (asked,) = symargs(ex, fn, ['timeout'])
        ex.assume(T.cmp('<=', asked, I(MAXMS))); ex.assume(T.cmp('<=', I(-MAXMS), asked))
        m = ex.monitor = Mon(ex, this, pid)
        out = None
        try: ex.run_fn(fn, this, args)
        except CThrow as c: out = c.typ
        ex.line = None
        ok = {None: 'normal return', CLS + '::Timeout': 'Timeout', CLS + '::Corrupt': 'Corrupt'}
        if out not in ok: ex.oblige('ensures', FALSE, 'only Timeout and Corrupt are thrown (%s)' % out); return
        ex.oblige('lock', B(not ex.locks), 'the mutex is released on the way out (%s)' % ok[out])
        def waited(ns):
            if pid == 'B02': ex.oblige('ensures', T.raw('wait_ns({0}, {1})', 'bool', asked, ns), 'the wait ends at the requested timeout, 0 meaning as long as necessary')
        if m.calls:
            if len(m.calls) != 1 or m.segs: raise Unsupported('several waits in one')
            waited(m.calls[0][0])
            ex.oblige('ensures', B(m.calls[0][1] == out), 'the outcome of the nested wait is passed on')
            return
        def rel(what, *a): ex.oblige('ensures', T.raw('%s(%s)' % (what, ', '.join('{%d}' % i for i in range(len(a)))), 'bool', *a), '%s: critical section is a %s step' % (ok[out], what))
        def woken(k): ex.oblige('wake', B(any(i >= k and w == 'notify_all' for i, w in m.notes)), '%s: all waiters are woken' % ok[out])
        sg = m.segs
        if not sg: ex.oblige('ensures', FALSE, '%s without looking at the barrier' % ok[out]); return
        if any(x.post is None for x in sg): ex.oblige('lock', FALSE, 'critical section left open'); return
        for x in m.slept:
            if x is not None: waited(x)
        if len(sg) == 1:
            if out is None: rel('arrive_done', sg[0].pre, sg[0].post); woken(1)
            elif out.endswith('Corrupt'): rel('rejected', sg[0].pre, sg[0].post)
            else: ex.oblige('ensures', FALSE, 'a Timeout without having waited')
        elif len(sg) == 2 and m.slept:
            r = T.proj(sg[0].pre, 'barrier_count')
            rel('arrive_wait', sg[0].pre, sg[0].post)
            if out is None: rel('wake_ok', r, sg[1].pre, sg[1].post)
            elif out.endswith('Corrupt'): rel('wake_corrupt', r, sg[1].pre, sg[1].post)
            else:
                rel('wake_timeout', r, sg[1].pre, sg[1].post)
                if pid != 'B01': woken(2)
                ex.oblige('ensures', B(m.expired), 'a Timeout is thrown only when the timeout has expired')
        else: raise Unsupported('%d critical sections in one wait' % len(sg))
    return body

def ctor_goal(fn):
    def body(ex):
        args, (name, n) = symargs(ex, fn, ['name', 'num_waiters'])
        this = ex.newtmp(ex.uninit(('class', CLS), 'obj'))
        ex.run_fn(fn, this, args); ex.line = None
        ex.oblige('ensures', T.raw('new_barrier({0}, {1}, {2})', 'bool', ex.read(this), name, n), 'a new barrier starts with no arrivals, not poisoned')
    return body
def make_goal(fn):
    def body(ex):
        args, (name, n) = symargs(ex, fn, ['name', 'num_waiters'])
        r = ex.val(ex.run_fn(fn, None, args)); ex.line = None
        o = ex.read(ex.heap(CLS).sub(('k', r)))
        ex.oblige('ensures', T.raw('new_barrier({0}, {1}, {2})', 'bool', o, name, n), 'makeBarrier hands out a new barrier that starts with no arrivals')
    return body

def waits(P, pid):
    prog = P('src/Barrier.cxx'); g = []
    for fn in prog.fns:
        if fn.qual != CLS + '::wait' or fn.body is None: continue
        eng = Engine(prog, contracts=[WaitContract()])
        eng.hook_access = access
        g.append(Goal('Barrier::wait(%s)' % ('duration' if 'duration' in fn.type else 'ms'), fn, eng, wait_goal(fn, pid), SPECS))
    if len(g) != 2: raise Unsupported('Barrier::wait: %d definitions' % len(g))
    return g
def ctors(P):
    prog = P('src/Barrier.cxx'); g = []
    for fn in prog.fns:
        if fn.qual == CLS + '::Barrier' and fn.body is not None and len(fn.params) == 2:
            g.append(Goal('Barrier::Barrier', fn, Engine(prog), ctor_goal(fn), SPECS))
    fn = prog.one('SoDa::makeBarrier')
    g.append(Goal('makeBarrier', fn, Engine(prog), make_goal(fn), SPECS))
    if len(g) != 2: raise Unsupported('Barrier constructor')
    return g
def goals_B01(P): return waits(P, 'B01') + ctors(P)
def goals_B02(P): return waits(P, 'B02') + ctors(P)
def goals_B03(P): return waits(P, 'B03') + ctors(P)
