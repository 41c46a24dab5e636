"""M01-M04: SoDa::MailBox.  Each operation is under a sequential contract on the whole mailbox state (M01-M03); M04 is the
locking discipline that makes those contracts the steps of every concurrent history."""
import terms as T, sym, stl
from terms import I, B, TRUE, FALSE
from sym import Engine, Unsupported, CThrow
from contracts import *

SPECS = ['mailbox.rs']
TU = '/verif/tu/inst.cxx'
CLS = 'SoDa::MailBox<SoDaVerif::VMsg>'
SUB = CLS + '::SubscriptionCl'
MISS = 'SoDa::MailBoxBase::MissingSubscriber'; MISM = 'SoDa::MailBoxBase::SubscriptionMismatch'; CONV = 'SoDa::MailBoxBase::BadConversion'
SHARED = ('message_queues', 'subscription_counter')
M = 'Map<int, Seq<int>>'
TEMPL = [
    Template('{Q:%s!} =~= {Q.entry}.insert({k:int=}, {Q}[{k}])' % M),
    Template('put_upto({Q.entry}, {Q:%s!}, map_keys_int({Q.entry}.dom()), {i:int!}, {m:ref=}, {o:int=})' % M),
    Template('min_upto({Q:%s=}, map_keys_int({Q}.dom()), {i:int!}, {r:int!})' % M),
    Template('{i:int!} <= map_keys_int({Q:%s}.dom()).len()' % M),
]
MEAS = [Template('map_keys_int({Q:%s}.dom()).len() - {i:int!}' % M)]

class Mon:
    """M04: another thread may do anything to the mailbox while its mutex is not held"""
    def __init__(s, ex, this): s.this = this; s.nseg = 0
    def mtx(s): return s.this.sub(('f', 'mtx'))
    def acquire(s, ex, lk):
        if lk.mutex != s.mtx(): return
        ex.oblige('lock', B(s.nseg == 0), 'the operation is one uninterrupted critical section')
        s.nseg += 1
        old = ex.vars[s.this.root]; b = mbstate(ex, 'w')
        ex.vars[s.this.root] = T.setf(b, 'name', T.proj(old, 'name'))
    def release(s, ex, lk): pass

def access(ex, p, write):
    m = ex.monitor
    if m is None or p.root != m.this.root: return
    f = p.path[0][1] if p.path and p.path[0][0] == 'f' else None
    if f in SHARED or (f is None and write):
        ex.oblige('lock', B(m.mtx() in ex.locks), '%s of %s under the mailbox mutex' % ('write' if write else 'read', f))
    elif write: ex.oblige('frame', FALSE, 'field %s of the mailbox does not change' % f)

def mbstate(ex, name):
    b = ex.fresh(name, 'MB')
    ex.typed(T.proj(b, 'subscription_counter'), ('int', 32, True))
    ex.assume(T.cmp('<', T.proj(b, 'subscription_counter'), I(2**31 - 1)))
    ex.assume(T.raw('jm({0})', 'bool', b))
    return b

def rel(ex, what, *a, label=None):
    ex.oblige('ensures', T.raw('%s(%s)' % (what, ', '.join('{%d}' % i for i in range(len(a)))), 'bool', *a), label or '%s holds' % what)

def op_goal(fn, pid, op, case):
    """case: own / foreign subscription object, null, or None (no subscription argument)"""
    def body(ex):
        b = mbstate(ex, 'mb')
        this = ex.newtmp(b); ex.vtypes[this.root] = ('class', CLS); ex.vnames[this.root] = 'mailbox'
        addr = T.const('self_addr', 'int'); ex.assume(T.cmp('<', I(0), addr))
        ex.addrs = {this: addr}
        hp = ex.heap(SUB); h0 = T.const('subs_heap', ex.read(hp).sort)
        ref = T.const('sub_ref', 'int'); idx = T.const('sub_index', 'int'); ex.typed(idx, ('int', 32, True))
        owner = addr
        if case == 'foreign':
            owner = T.const('owner', 'int'); ex.assume(T.cmp('<', I(0), owner)); ex.assume(T.not_(T.eq(owner, addr)))
        if case in ('own', 'foreign'):
            ex.assume(T.cmp('<', I(0), ref))
            h0 = T.minsert(h0, ref, T.ctor('SubC', [idx if f == 'subscriber_index' else owner for f, _ in T.STRUCTS['SubC']]))
        ex.vars[hp.root] = h0
        if pid == 'M04': ex.monitor = Mon(ex, this)
        msg = T.const('msg', 'int')
        def arg():
            pl = ex.newtmp(ref); ex.vtypes[pl.root] = ('sptr', ('class', SUB), 'unique_ptr'); ex.vnames[pl.root] = 'subs'; return pl
        self, args, sp = this, [], None
        if op == 'put': args = [msg] + ([] if case == 'null' else [arg()]); sp = args[1] if len(args) > 1 else None
        elif op == 'unsubscribe': args = [idx]
        elif op == 'dtor':
            sp0 = T.ctor('SubC', [idx if f == 'subscriber_index' else addr for f, _ in T.STRUCTS['SubC']])
            self = ex.newtmp(sp0); ex.vtypes[self.root] = ('class', SUB); ex.vnames[self.root] = 'subscription'
        elif case in ('own', 'foreign'): sp = arg(); args = [sp]
        ex.entry.update({'MB0': b})
        out = None; r = None
        try: r = ex.run_fn(fn, self, args)
        except CThrow as c: out = c.typ
        ex.line = None
        t = ex.vars[this.root]
        if pid == 'M04':
            ex.oblige('lock', B(not ex.locks), 'the mutex is released on the way out (%s)' % (out or 'normal return'))
            return
        r = ex.val(r) if r is not None else None
        live = T.raw('is_sub({0}, {1})', 'bool', b, idx)
        same = lambda w: rel(ex, 'same_m', b, t, label='nothing changes: ' + w)
        # subscription objects
        if op != 'subscribe': ex.oblige('ensures', T.eq(ex.vars[hp.root], h0), 'subscription objects are not changed')
        if sp is not None: ex.oblige('ensures', T.eq(ex.read(sp), ref), 'the caller keeps its subscription')
        if out == MISM or case == 'foreign':
            ex.oblige('ensures', B(out == MISM and case == 'foreign'), 'SubscriptionMismatch exactly for a subscription of another mailbox (%s)' % (out or 'normal return'))
            return same('foreign subscription')
        if out == MISS and op not in ('dtor', 'put', 'subscribe', 'count', 'min'):
            ex.oblige('ensures', T.not_(live), 'MissingSubscriber only for an ended subscription')
            return same('ended subscription')
        if out is not None: ex.oblige('ensures', FALSE, 'no other exception (%s)' % out); return
        if op in ('get', 'ready', 'clear', 'unsubscribe'): ex.oblige('ensures', live, 'an ended subscription is rejected')
        if pid == 'M03': return
        if op == 'get':
            rel(ex, 'get_st', b, t, idx, label='get removes only the oldest pending message')
            rel(ex, 'get_rs', b, idx, r, label='get returns the oldest pending message, or null')
        elif op == 'put':
            if case == 'null': rel(ex, 'put_all', b, t, msg, label='the message is appended for every subscriber')
            else: rel(ex, 'put_st', b, t, msg, idx, label='the message is appended for every subscriber but the excluded one')
        elif op == 'subscribe':
            nid = T.proj(b, 'subscription_counter')
            rel(ex, 'subscribe_st', b, t, nid, label='a new subscription with a new id and no messages')
            h1 = T.minsert(h0, r, T.ctor('SubC', [nid if f == 'subscriber_index' else addr for f, _ in T.STRUCTS['SubC']]))
            ex.oblige('ensures', T.and_(T.not_(T.eq(r, I(0))), T.eq(ex.vars[hp.root], h1)), 'the handle is a new object naming this mailbox and the new id')
        elif op == 'clear': rel(ex, 'clear_st', b, t, idx, label='clear empties exactly this subscription')
        elif op == 'unsubscribe': rel(ex, 'unsub_st', b, t, idx, label='ending removes exactly this subscription')
        elif op == 'dtor':
            ex.oblige('ensures', T.raw('if is_sub({0}, {2}) {{ unsub_st({0}, {1}, {2}) }} else {{ same_m({0}, {1}) }}', 'bool', b, t, idx), 'destroying the handle ends exactly its own subscription')
        else:
            same('query')
            if op == 'ready': rel(ex, 'ready_rs', b, idx, r, label='ready count is the number of pending messages')
            elif op == 'count': rel(ex, 'count_rs', b, r, label='subscriber count is the number of subscriptions')
            elif op == 'min':
                ex.oblige('ensures', T.raw('{0}.message_queues.dom().len() > 0 ==> min_rs({0}, {1})', 'bool', b, r), 'minimum over all subscriptions')
    return body

def ctor_goal(fn, make):
    def body(ex):
        args, (name,) = symargs(ex, fn, ['name'])
        if make:
            r = ex.val(ex.run_fn(fn, None, args)); ex.line = None
            ex.oblige('ensures', T.not_(T.eq(r, I(0))), 'makeMailBox returns an object')
            o = ex.read(ex.heap(CLS).sub(('k', r)))
        else:
            this = ex.newtmp(ex.uninit(('class', CLS), 'obj'))
            ex.run_fn(fn, this, args); ex.line = None
            o = ex.read(this)
        rel(ex, 'new_mb', o, name, label='a new mailbox has no subscriptions')
    return body

def conv_goal(fn):
    def body(ex):
        p = T.const('p', 'int'); ex.assume(T.cmp('<', I(0), p))
        out = None; r = None
        try: r = ex.val(ex.run_fn(fn, None, [p]))
        except CThrow as c: out = c.typ
        ex.line = None
        is_ = T.raw('dyn_is({0})', 'bool', p)
        if out == CONV: ex.oblige('ensures', T.not_(is_), 'BadConversion only when the mailbox is of another type')
        elif out is None: ex.oblige('ensures', T.and_(is_, T.eq(r, p)), 'conversion succeeds exactly for the same type and returns the same mailbox')
        else: ex.oblige('ensures', FALSE, 'no other exception (%s)' % out)
    return body

def dyncast(ex, name, n, argn):
    stl.trust(ex, 'std::dynamic_pointer_cast: the same pointer if the object has the requested type, else null')
    v = ex.val(ex.ev(argn[0]))
    return T.ite(T.raw('dyn_is({0})', 'bool', v), v, I(0))

def engine(prog, pid):
    e = Engine(prog, templates=TEMPL, opts=dict(structnames={CLS: 'MB', SUB: 'SubC', 'SoDa::MailBoxBase': 'MBB'}, measures=MEAS, functions={'dynamic_pointer_cast': dyncast}, skip=() if pid == 'M04' else ('lock',)))
    e.struct(CLS); e.struct(SUB); e.struct('SoDa::MailBoxBase')
    if pid == 'M04': e.hook_access = access
    return e

OPS = [('get', 'get', ('own', 'foreign')), ('readyCount', 'ready', ('own', 'foreign')), ('clear', 'clear', ('own', 'foreign')), ('put', 'put', ('own', 'foreign', 'null')),
       ('subscribe', 'subscribe', (None,)), ('unsubscribe', 'unsubscribe', (None,)), ('minReadyCount', 'min', (None,)), ('subscriberCount', 'count', (None,))]

def goals(P, pid):
    prog = P(TU); g = []
    for name, op, cases in OPS:
        fs = prog.find(CLS + '::' + name)
        if len(fs) != 1: raise Unsupported('MailBox::%s: %d definitions' % (name, len(fs)))
        for c in cases:
            if pid in ('M01', 'M02') and c == 'foreign': continue
            if pid == 'M01' and op in ('ready', 'min', 'count'): continue
            if pid == 'M03' and (c == 'null' or op in ('subscribe', 'min', 'count')): continue
            g.append(Goal('MailBox::%s%s' % (name, '/' + c if c else ''), fs[0], engine(prog, pid), op_goal(fs[0], pid, op, c), SPECS))
    if pid != 'M03':
        d = prog.one(SUB + '::~SubscriptionCl')
        g.append(Goal('MailBox::SubscriptionCl::~SubscriptionCl', d, engine(prog, pid), op_goal(d, pid, 'dtor', None), SPECS))
    if pid in ('M01', 'M02'):
        g.append(Goal('MailBox::MailBox', prog.one(CLS + '::MailBox'), engine(prog, pid), ctor_goal(prog.one(CLS + '::MailBox'), False), SPECS))
        mk = prog.one('SoDa::makeMailBox'); g.append(Goal('makeMailBox', mk, engine(prog, pid), ctor_goal(mk, True), SPECS))
    if pid == 'M03':
        cv = prog.one('SoDa::MailBoxBase::convert'); g.append(Goal('MailBoxBase::convert', cv, engine(prog, pid), conv_goal(cv), SPECS))
    return g
def goals_M01(P): return goals(P, 'M01')
def goals_M02(P): return goals(P, 'M02')
def goals_M03(P): return goals(P, 'M03')
def goals_M04(P): return goals(P, 'M04')
