"""C01-C08: Format and Format_ext."""
import terms as T
from terms import I, B, TRUE, FALSE
import sym
from sym import Engine, Template, CThrow
from contracts import *

SPECS = ['format.rs']
NUM = ['format.rs', 'format_num.rs']
SRC = 'src/Format.cxx'
FMT = 'SoDa::Format'

SCAN_T = [
    Template('{s:int!} != 2 ==> scan_go({F:str=}, {i:int!}, {s:int!}, {n:int!}, flat({L:Seq<Format_FmtStringSeg>!}) + lits({C:str!})) == scan({F})',
             hint='scan_num({F}, {i} + 1, 0, {n}, 0, flat({L}) + lits({C}));'),
    Template('{s:int!} == 2 ==> scan_go({F:str=}, {i:int!}, {s:int!}, {n:int!}, flat({L:Seq<Format_FmtStringSeg>!})) == scan({F})'),
    Template('{s:int!} == 2 ==> {C:str!}.len() == 0'),
    Template('0 <= {s:int!} <= 2'),
]
INS_T = [Template('ins_upto({L:Seq<Format_FmtStringSeg>!}, {L.entry}, {i:int!}, {n:int=}, {S:str=})')]
STR_T = [Template('!{b:bool!} == filled_upto({L:Seq<Format_FmtStringSeg>=}, {i:int!})'), Template('{b:bool!} == filled_upto({L:Seq<Format_FmtStringSeg>=}, {i:int!})'),
         Template('{R:str!} == rend_upto({L:Seq<Format_FmtStringSeg>=}, {i:int!})', hint='rend_step({L}, {i}); rend_ends({L});'),
         Template('({c:int!} == 0) == filled_upto({L:Seq<Format_FmtStringSeg>=}, {i:int!})'),
         Template('{c:int!} <= {i:int!}')]
LOOP_I = [Template('{O:str!} == grp({R:str=}, {k:int!}, {P2}, 3, {R}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }}))'),
          Template('{k:int!} < {R:str=}.len() ==> {i:int!} == gpos({k:int!}, 3)'),
          Template('{k:int!} < {R:str=}.len() ==> {i:int!} == 3 - gpos({k:int!}, 3)'), Template('-1 <= {i:int!} <= 3'),
          Template('{i:int!} <= {k:int!}')]
# the same over the text itself, walked backwards by index or iterator, built in reverse, forwards, or by insertion
NLIM = '{V}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }})'
LOOP_I += [Template('{O:str!} == grp({V:str=}.reverse(), {k:int!}, {P2}, 3, %s)' % NLIM),
           Template('{O:str!} == grp({V:str=}.reverse(), {V}.len() - 1 - {k:int!}, {P2}, 3, %s)' % NLIM),
           Template('{O:str!} == grp({V:str=}.reverse(), {V}.len() - {k:int!}, {P2}, 3, %s)' % NLIM),
           Template('{k:int!} >= 0 ==> {i:int!} == gpos({V:str=}.len() - 1 - {k:int!}, 3)', hint='ggo({V}.len() - 1 - {k}, 3, {V}.len() - 1 - ({k} - 1));'),
           Template('{k:int!} > 0 ==> {i:int!} == gpos({V:str=}.len() - {k:int!}, 3)', hint='ggo({V}.len() - {k}, 3, {V}.len() - ({k} - 1));'),
           Template('{i:int!} <= {V:str=}.len() - 1 - {k:int!}'), Template('{k:int!} < {V:str=}.len()'), Template('-1 <= {k:int!}'),
           Template('{O:str!} =~= grp({R:str=}, {k:int!}, {P2}, 3, {R}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }})).reverse()'),
           Template('{O:str!} =~= grp({V:str=}.reverse(), {V}.len() - 1 - {k:int!}, {P2}, 3, %s).reverse()' % NLIM),
           Template('{O:str!} + gsep({V:str=}.len() - {k:int!}, {P2}, 3, %s, {V}.len() as int) + grp({V}.reverse(), {V}.len() - {k}, {P2}, 3, %s) =~= grp({V}.reverse(), {V}.len() as int, {P2}, 3, %s)' % (NLIM, NLIM, NLIM)),
           Template('{O:str!} =~= gins({O.entry}, {q:int!}, {P2}, {O.entry}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }})) && gmul({O.entry}.len() - ({q})) && {q} <= {O.entry}.len() && {q} > (if {P0} < 0 {{ 1int }} else {{ 0int }})',
                    hint='gins_step({O.entry}, {q}, {P2}, {O.entry}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }}));'),
           Template('{O:str!} =~= gins({O.entry}, {q:int!} + 3, {P2}, {O.entry}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }})) && gmul({O.entry}.len() - ({q} + 3)) && {q} + 3 <= {O.entry}.len() && {q} + 3 > (if {P0} < 0 {{ 1int }} else {{ 0int }})',
                    hint='gins_step({O.entry}, {q} + 3, {P2}, {O.entry}.len() - (if {P0} < 0 {{ 1int }} else {{ 0int }}));'),
]
PAD_T = [Template('{O:str!} =~= {O.entry} + seq_rep(32, {i:int!} - {i.entry})'), Template('{i.entry} <= {i:int!}'),
         Template('{i:int!} <= {n:int=} || {i} == {i.entry}'),
         Template('{O:str!} =~= {O.entry} + seq_rep(32, {n.entry} - {n:int!}) && ({n} == {n.entry} || 0 <= {n} < {n.entry})'),
         Template('{O:str!} =~= {S:str=} + seq_rep(32, {i:int!} - {i.entry})'),
         Template('{O:str!} == {S:str=} + seq_rep(32, {O}.len() - {S}.len())'),
         Template('{O:str!} =~= {S:str=}.subrange(0, {i:int!})'),
         Template('{O:str!} =~= {O.entry} + {S:str=}.subrange(0, {i:int!})'),
         Template('{O:str!} =~= {O.entry} + seq_rep(32, {i:int!})')]

class Ins:
    """contract of insertField: ins_rel(object before, text, object after)"""
    def __init__(s): s.qual = FMT + '::insertField'
    def matches(s, fn): return fn.qual == s.qual and len(fn.params) == 1
    def apply(s, ex, fn, this, args):
        o = ex.read(this); t = ex.val(args[0])
        p = ex.fresh('ins', o.sort)
        typed_obj(ex, p)
        ex.assume(T.app('ins_rel', [o, t, p], 'bool'))
        ex.write(this, p)
        ex.events.append(('ins', o, t, p))
        return None

class Scan:
    """contract of initialScan: flat(segments) == scan(argument), other fields unchanged"""
    def matches(s, fn): return fn.qual == FMT + '::initialScan' and len(fn.params) == 1
    def apply(s, ex, fn, this, args):
        o = ex.read(this); f = ex.val(args[0])
        l = ex.fresh('segs', 'Seq<Format_FmtStringSeg>')
        ex.assume(T.raw('flat({0}) == scan({1})', 'bool', l, f))
        ex.write(this.sub(('f', 'format_string_segments')), l)
        return None

class Str:
    """contract of str: rendered text, or BadFormat exactly when checking and unfilled"""
    def matches(s, fn): return fn.qual == FMT + '::str'
    def apply(s, ex, fn, this, args):
        o = ex.read(this)
        chk = args[0] if args and not isinstance(args[0], sym.Default) else ex.ev(ex.prog.default_args[fn.cid][0])
        a = T.raw('flat({0}.format_string_segments)', 'Seq<Atom>', o)
        if ex.branch(T.and_(ex.tobool(ex.val(chk)), T.not_(T.app('filled', [a], 'bool')))): raise CThrow(FMT + '::BadFormat')
        return T.app('rend', [a], 'Seq<int>')

def typed_obj(ex, o):
    for f, ct in ex.e.fields(FMT):
        if ct[0] == 'int': ex.typed(T.proj(o, f), ct)

def mkobj(ex, name='obj'):
    so = ex.e.struct(FMT)
    o = T.const(name, so); typed_obj(ex, o)
    pl = ex.newtmp(o); ex.vtypes[pl.root] = ('class', FMT); ex.vnames[pl.root] = 'this'
    return o, pl

def engine(P, templates=(), contracts=(), src=SRC, **opts):
    prog = P(src)
    e = Engine(prog, contracts=list(contracts), templates=list(templates), opts=opts)
    e.struct(FMT)
    return prog, e

def mfn(prog, name, n=None): return prog.one(FMT + '::' + name, n)

def g_scan(P):
    prog, e = engine(P, SCAN_T)
    fn = mfn(prog, 'initialScan')
    def body(ex):
        o, pl = mkobj(ex); args, terms = symargs(ex, fn)
        ex.run_fn(fn, pl, args); ex.line = None
        p = ex.read(pl)
        ex.oblige('ensures', T.raw('flat({0}.format_string_segments) == scan({1})', 'bool', p, terms[0]), 'the segments denote the scanned format string', then=False)
        ex.oblige('ensures', T.eq(T.proj(p, 'orig_fmt_string'), T.proj(o, 'orig_fmt_string')), 'frame: format string kept')
        ex.oblige('ensures', T.eq(T.proj(p, 'cur_arg_number'), T.proj(o, 'cur_arg_number')), 'frame: argument number kept')
    return Goal('initialScan', fn, e, body, SPECS)
def g_ctor(P):
    prog, e = engine(P, (), [Scan()])
    fn = [f for f in prog.fns if f.cls == FMT and f.node['kind'] == 'CXXConstructorDecl' and f.body is not None and len(f.params) == 1 and not f.node.get('isImplicit')][0]
    def body(ex):
        pl = ex.newtmp(ex.uninit(('class', FMT), 'obj')); args, terms = symargs(ex, fn)
        ex.run_fn(fn, pl, args); ex.line = None
        ex.oblige('ensures', T.app('fresh_fmt', [ex.read(pl), terms[0]], 'bool'), 'a new object denotes the scanned format string with nothing inserted', then=False)
    return Goal('Format constructor', fn, e, body, SPECS)
def g_reset(P):
    prog, e = engine(P, (), [Scan()])
    fn = mfn(prog, 'reset')
    def body(ex):
        o, pl = mkobj(ex)
        r = ex.run_fn(fn, pl, []); ex.line = None
        ex.oblige('ensures', T.app('fresh_fmt', [ex.read(pl), T.proj(o, 'orig_fmt_string')], 'bool'), 'after reset the object is as newly constructed', then=False)
        ex.oblige('ensures', B(r == pl), 'reset returns the object itself', then=False)
    return Goal('reset', fn, e, body, SPECS)
def g_insert(P):
    prog, e = engine(P, INS_T)
    fn = mfn(prog, 'insertField')
    def body(ex):
        o, pl = mkobj(ex); args, terms = symargs(ex, fn)
        ex.run_fn(fn, pl, args); ex.line = None
        p = ex.read(pl)
        ex.hints.append(raw('ins_flat({0}, {1}, {2}, {3});', T.proj(p, 'format_string_segments'), T.proj(o, 'format_string_segments'), T.proj(o, 'cur_arg_number'), terms[0]))
        ex.oblige('ensures', T.app('ins_rel', [o, terms[0], p], 'bool'), 'exactly the markers with the current number become the text; the number advances', then=False)
    return Goal('insertField', fn, e, body, SPECS)
def g_str(P):
    prog, e = engine(P, STR_T)
    fn = mfn(prog, 'str')
    def body(ex):
        o, pl = mkobj(ex); args, terms = symargs(ex, fn)
        a = T.raw('flat({0}.format_string_segments)', 'Seq<Atom>', o)
        ex.hints.append(raw('rend_ends({0});', T.proj(o, 'format_string_segments')))
        try:
            r = ex.val(ex.run_fn(fn, pl, args))
        except CThrow as c:
            ex.line = None
            ex.oblige('ensures', T.and_(B(c.typ == FMT + '::BadFormat'), terms[0], T.not_(T.app('filled', [a], 'bool'))), 'BadFormat is thrown only when checking and a marker is unfilled', then=False)
        else:
            ex.line = None
            ex.oblige('ensures', T.eq(r, T.app('rend', [a], 'Seq<int>')), 'the result is the rendered text', then=False)
            ex.oblige('ensures', T.or_(T.not_(terms[0]), T.app('filled', [a], 'bool')), 'a checked rendering returns only when every marker is filled', then=False)
        ex.oblige('ensures', T.eq(ex.read(pl), o), 'frame: rendering does not change the object', then=False)
    return Goal('str', fn, e, body, SPECS)
def g_out(P):
    prog, e = engine(P, (), [Str()])
    fn = prog.find_operator('<<', FMT)
    if fn is None: raise sym.ExtractionError('operator<< for Format not found')
    def body(ex):
        o, pl = mkobj(ex)
        ss = ex.new_ss(buf=T.const('out0', 'Seq<int>')); os = ex.newtmp(ss)
        r = ex.run_fn(fn, None, [os, pl]); ex.line = None
        n = ex.read(os)
        ex.oblige('ensures', T.eq(T.proj(n, 'buf'), T.concat(T.const('out0', 'Seq<int>'), T.raw('rend(flat({0}.format_string_segments))', 'Seq<int>', o))), 'the stream receives exactly the rendered text', then=False)
        ex.oblige('ensures', T.eq(ex.read(pl), o), 'frame: the object is unchanged', then=False)
        ex.oblige('ensures', B(r == os), 'the stream itself is returned', then=False)
    return Goal('operator<<', fn, e, body, SPECS)

def inserts(ex, pl, o, r, want, what):
    """exactly one insertField, of the wanted text, and the object is returned"""
    ex.line = None
    ins = [v for v in ex.events if v[0] == 'ins']
    ex.oblige('ensures', B(len(ins) == 1 and ins[0][1] is o and ex.read(pl) is ins[0][3]), 'exactly one insertion, nothing else changes', then=False)
    if len(ins) == 1: ex.oblige('ensures', T.eq(ins[0][2], want), what, then=False)
    ex.oblige('ensures', B(r == pl), 'the object itself is returned', then=False)

def adder(P, name, want, what, templates=(), pre=None, hints=None, rlimit=10, n=None, contracts=()):
    prog, e = engine(P, templates, [Ins()] + list(contracts))
    fn = mfn(prog, name, n)
    def body(ex):
        o, pl = mkobj(ex); args, terms = symargs(ex, fn)
        ex.entry.update({'P%d' % i: t for i, t in enumerate(terms)})
        if pre:
            for h in pre(*terms): ex.assume(h)
        if hints: ex.hints += hints(*terms)
        r = ex.run_fn(fn, pl, args)
        inserts(ex, pl, o, r, want(*terms), what)
    return Goal(name, fn, e, body, NUM, rlimit)

def g_addI(P):
    return adder(P, 'addI', lambda v, w, sep, fill: T.app('spec_addI', [v, w, sep, fill], 'Seq<int>'), 'the text is the specified one', LOOP_I,
                 pre=lambda v, w, sep, fill: [T.cmp('<=', w, I(2147483647))], hints=lambda v, w, sep, fill: [raw('addI_facts({0}); dec_sign({0}, dec_int({0}).reverse()); dec_neg({0});', v)])
def g_addU(P):
    return adder(P, 'addU', lambda v, f, w, sep, g: T.app('spec_addU', [v, f, w, sep, g], 'Seq<int>'), 'the text is the specified one', LOOP_U,
                 pre=lambda v, f, w, sep, g: [T.cmp('<=', w, I(2147483645)), T.cmp('<=', I(1), g)], hints=lambda v, f, w, sep, g: [raw('num_len({0});', v)])
def g_addS(P):
    return adder(P, 'addS', lambda v, w: T.app('spec_addS', [v, w], 'Seq<int>'), 'the string verbatim, padded', PAD_T, pre=lambda v, w: [T.cmp('<=', I(-2147483647), w)])
def g_addC(P): return adder(P, 'addC', lambda v: T.lit([v], 'int'), 'exactly this character')
def g_addB(P): return adder(P, 'addB', lambda v: T.ite(v, T.strlit(b'T'), T.strlit(b'F')), 'T or F')

LOOP_U = [Template('{O:str!} == grp({R:str=}, {k:int!}, {P3}, {P4}, {R}.len() - num_prefix({P1}))'),
          Template('{k:int!} <= {R:str=}.len() - num_prefix({P1}) ==> {i:int!} == gpos({k}, {P4})'), Template('{k:int!} <= {R:str=}.len() - num_prefix({P1}) ==> {i:int!} == {P4} - gpos({k}, {P4})'), Template('{i:int!} <= {k:int!}')]

def goals_C01(P): return [g_scan(P), g_ctor(P), g_insert(P), g_str(P)]
def goals_C02(P): return [g_str(P), g_out(P), g_reset(P), g_scan(P), g_ctor(P)]
def goals_C03(P): return [g_addI(P), g_insert(P)]
def goals_C04(P): return [g_addU(P), g_insert(P)]
def goals_C06(P): return [g_addS(P), g_addC(P), g_addB(P), g_insert(P)]

# ---- C05 / C07
PADF_T = [Template('{O:str!} == {S:str=} + seq_rep(32, {O}.len() - {S}.len()) && ({O}.len() <= {w:int=} || {O}.len() == {S}.len())'),
          Template('{O:str!} =~= {O.entry} + seq_rep(32, {n.entry} - {n:int!}) && ({n} == {n.entry} || 0 <= {n} < {n.entry})')]
PADM = [Template('{w:int=} - {O:str!}.len()')]
FMODE = {'f': 1, 's': 2, 'g': 0}
class Log1k:
    """contract of log1k: a function of its arguments; the exponent is a multiple of 3 (its size is a numeric fact, bounded)"""
    def matches(s, fn): return fn.qual == 'SoDa::log1k'
    def apply(s, ex, fn, this, args):
        a, d = ex.val(args[0]), ex.val(args[2])
        ex.write(args[1], T.app('log1k_norm', [a, d], 'F64'))
        r = T.app('log1k_ret', [a, d], 'int')
        ex.assume(T.raw('{0} % 3int == 0', 'bool', r)); ex.assume(T.cmp('<=', I(-1000), r)); ex.assume(T.cmp('<=', r, I(1000)))
        return r
class Fractionate:
    """contract of fractionate: functions of its arguments; the fraction width is between 0 and the digit count"""
    def matches(s, fn): return fn.qual == 'SoDa::fractionate'
    def apply(s, ex, fn, this, args):
        n, d = ex.val(args[0]), ex.val(args[1])
        for i, f in ((2, 'fr_int'), (3, 'fr_frac'), (4, 'fr_iw'), (5, 'fr_fw')):
            t = T.app(f, [n, d], 'int'); ex.typed(t, ('int', 32, True))
            if f == 'fr_iw': ex.assume(T.cmp('<=', I(0), t)); ex.assume(T.cmp('<=', t, I(1000)))
            if f == 'fr_fw': ex.assume(T.cmp('<=', I(0), t)); ex.assume(T.cmp('<=', t, d))
            ex.write(args[i], t)
        return None
def float_goal(P, name, fmt, want, case, what):
    prog, e = engine(P, PADF_T, [Ins(), Log1k(), Fractionate()], measures=PADM)
    fn = mfn(prog, 'addF')
    def body(ex):
        o, pl = mkobj(ex); args, terms = symargs(ex, fn)
        v, f, w, d = terms
        if fmt is not None: args[1] = I(ord(fmt)); ex.assume(T.eq(f, I(ord(fmt))))
        # documented limits: a field is narrower than 2^31
        ex.assume(T.cmp('<=', w, I(2000000000))); ex.assume(T.cmp('<=', d, I(2000000000)))
        if fmt == 'e': ex.assume(T.cmp('<=', I(1), d))
        nan = lambda x: T.app('f64_isnan', [x], 'bool'); inf = lambda x: T.app('f64_isinf', [x], 'bool')
        neg = T.app('fneg', [v], 'F64')
        if case == 'nan': ex.assume(nan(v)); ex.assume(nan(neg))
        else:
            ex.assume(T.not_(nan(v))); ex.assume(T.not_(nan(neg)))
            ex.assume(inf(v) if case == 'inf' else T.not_(inf(v)))
            if case == 'fin': ex.assume(T.eq(T.app('f64_isfinite', [v], 'bool'), TRUE))
        ex.hints.append(raw('zero_lit();'))
        sep = ex.ev_global(FMT, 'separator')
        r = ex.run_fn(fn, pl, args)
        inserts(ex, pl, o, r, want(v, w, d, sep), what)
    return Goal(name, fn, e, body, NUM)
def F(mode): return lambda v, w, d, sep: T.app('spec_addF', [v, I(mode), w, d], 'Seq<int>')
def g_addF(P): return [float_goal(P, 'addF (%s)' % c, c, F(m), 'fin', 'stream conversion, left justified') for c, m in FMODE.items()] + [
    float_goal(P, 'addF (NaN)', None, F(0), 'nan', 'nan, left justified'), float_goal(P, 'addF (infinity)', None, F(0), 'inf', 'inf or -inf, left justified')]
def g_addE(P): return [float_goal(P, 'addF (e)', 'e', lambda v, w, d, sep: T.app('spec_addE', [v, w, d, sep], 'Seq<int>'), 'fin', 'the engineering layout')]
def g_log1k(P):
    prog, e = engine(P, [Template('{r:int!} % 3 == 0')], skip=('termination', 'overflow'))
    fn = prog.one('SoDa::log1k')
    def body(ex):
        args, terms = symargs(ex, fn)
        r = ex.val(ex.run_fn(fn, None, args)); ex.line = None
        ex.oblige('ensures', T.raw('{0} % 3int == 0', 'bool', r), 'the exponent is a multiple of 3', then=False)
        ex.oblige('ensures', B(not any(k[0] == 'glob' for k in ex.vars)), 'the result depends on the arguments only', then=False)
    return Goal('log1k', fn, e, body, NUM)
def g_frac(P):
    prog, e = engine(P, [Template('{f:int!} + {s:int!} <= {d:int=} || ({f} == 0 && {s} <= 0)'), Template('{i:int!} >= 0')], skip=('termination', 'overflow', 'division'))
    fn = prog.one('SoDa::fractionate')
    def body(ex):
        args, terms = symargs(ex, fn)
        ex.assume(T.cmp('<=', I(1), terms[1])); ex.assume(T.cmp('<=', terms[1], I(2000000000)))
        ex.run_fn(fn, None, args); ex.line = None
        fw = ex.read(args[5]); iw = ex.read(args[4])
        ex.oblige('ensures', T.and_(T.cmp('<=', I(0), fw), T.cmp('<=', fw, terms[1])), '0 <= fraction width <= digit count', then=False)
        ex.oblige('ensures', T.cmp('<=', I(0), iw), '0 <= integer width', then=False)
        ex.oblige('ensures', B(not any(k[0] == 'glob' for k in ex.vars)), 'the result depends on the arguments only', then=False)
    return Goal('fractionate', fn, e, body, NUM)
def goals_C05(P): return g_addF(P) + [g_insert(P)]
def goals_C07(P): return g_addE(P) + [g_log1k(P), g_frac(P), g_insert(P)]

# ---- C08
EXT = 'SoDa::Format_ext<SoDaVerif::VFmt>'
class Plain:
    """Format::addX as an unknown function of the object and the arguments: the forwarders must make exactly this call"""
    def __init__(s, eng): s.eng = eng
    def matches(s, fn): return fn.cls == FMT and fn.name.startswith('add') and fn.node['kind'] == 'CXXMethodDecl'
    def apply(s, ex, fn, this, args):
        vals = []
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else sym.Default()
            if isinstance(a, sym.Default):
                d = ex.prog.default_args.get(fn.cid, {}).get(i)
                if d is None: raise sym.Unsupported('missing argument')
                a = ex.ev(d)
            vals.append(ex.val(a))
        fl = ex.e.fields(FMT)
        old = [ex.read(this.sub(('f', f))) for f, _ in fl]
        ex.events.append(('plain', fn.name, tuple(vals)))
        for f, ct in fl:
            so = ex.e.sort(ct); nm = 'plain_%s_%s' % (fn.name, f)
            decl = 'pub uninterp spec fn %s(%s) -> %s;' % (nm, ', '.join('x%d: %s' % (i, v.sort) for i, v in enumerate(old + vals)), so)
            if ('text', decl) not in ex.e.extra: ex.e.extra.append(('text', decl))
            ex.write(this.sub(('f', f)), T.app(nm, old + vals, so))
        return this
def ext_goal(P, name, k):
    """the extensible formatter's method called with its first k arguments"""
    prog = P('/verif/tu/inst.cxx')
    e = Engine(prog); e.contracts = [Plain(e)]
    e.struct(FMT); e.struct(EXT)
    fn = prog.one(EXT + '::' + name)
    base = [f for f in prog.recs[FMT].methods if f.name == name]
    if len(base) != 1: raise sym.ExtractionError('Format::%s not found' % name)
    base = base[0]; base = prog.fn_by_id.get(base.cid) or prog.fn_by_id.get('decl:' + base.cid) or base
    def body(ex):
        so = e.struct(EXT); o = T.const('obj', so)
        for f, ct in e.fields(EXT):
            if ct[0] == 'int': ex.typed(T.proj(o, f), ct)
        pl = ex.newtmp(o); ex.vtypes[pl.root] = ('class', EXT)
        args, terms = symargs(ex, base)
        if k < 1 or k > len(fn.params): raise sym.ExtractionError('arity')
        ptr = T.proj(o, 'saved_ptr'); ex.assume(T.not_(T.eq(ptr, I(0))))
        given = args[:k]
        ext = []
        for a, p in zip(given, fn.params):
            ct = ex.types.parse(sym.ptype(p))
            ext.append(ex.wrap(a, ct) if ct[0] in ('int', 'bool') and isinstance(a, T.T) and a.sort == 'int' else a)
        rest = [sym.Default()] * (len(fn.params) - k)
        r = ex.run_fn(fn, pl, ext + rest); ex.line = None
        got = ex.read(pl); ev = list(ex.events)
        p2 = ex.newtmp(o); ex.vtypes[p2.root] = ('class', EXT)
        e.contracts[0].apply(ex, base, p2, given + [sym.Default()] * (len(base.params) - k))
        ex.oblige('ensures', T.eq(got, ex.read(p2)), 'the same effect as the plain formatter with the same %d arguments' % k, then=False)
        ex.oblige('ensures', B(len(ev) == 1), 'exactly one insertion', then=False)
        ex.oblige('ensures', B(isinstance(r, sym.Place) and r == ex.deref(ptr, ('class', 'SoDaVerif::VFmt'))), 'returns the caller-supplied object', then=False)
    return Goal('Format_ext::%s/%d' % (name, k), fn, e, body, SPECS)
def ext_ctor(P):
    prog = P('/verif/tu/inst.cxx')
    class PlainCtor:
        def matches(s, fn): return fn.cls == FMT and fn.node['kind'] == 'CXXConstructorDecl'
        def apply(s, ex, fn, this, args):
            ex.events.append(('ctor', ex.val(args[0])))
            return None
    e = Engine(prog, contracts=[PlainCtor()]); e.struct(FMT); e.struct(EXT)
    fn = [f for f in prog.fns if f.cls == EXT and f.node['kind'] == 'CXXConstructorDecl' and not f.node.get('isImplicit')][0]
    def body(ex):
        pl = ex.newtmp(ex.uninit(('class', EXT), 'obj')); args, terms = symargs(ex, fn)
        before = ex.read(pl)
        ex.run_fn(fn, pl, args); ex.line = None
        o = ex.read(pl)
        ex.oblige('ensures', T.eq(T.proj(o, 'saved_ptr'), terms[1]), 'the supplied object is remembered', then=False)
        ex.oblige('ensures', B(len(ex.events) == 1 and ex.events[0][1] is terms[0]), 'the plain formatter is constructed with the same format string', then=False)
        for f, _ in e.fields(FMT): ex.oblige('ensures', T.eq(T.proj(o, f), T.proj(before, f)), 'frame: %s as the plain constructor left it' % f, then=False)
    return Goal('Format_ext constructor', fn, e, body, SPECS)
def goals_C08(P):
    out = [ext_ctor(P)]
    prog = P('/verif/tu/inst.cxx')
    for n in ('addI', 'addU', 'addF', 'addS', 'addC', 'addB'):
        fn = prog.one(EXT + '::' + n)
        for k in range(1, len(fn.params) + 1): out.append(ext_goal(P, n, k))
    return out
