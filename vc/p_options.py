"""O01-O06: SoDa::Options."""
import terms as T, sym, stl
from terms import I, B, TRUE, FALSE
from sym import Engine, Template, Unsupported, CThrow
from contracts import *
import p_split
from p_split import SQUASH, SPLIT, SPLITV

SPECS = ['split.rs', 'options.rs']
SRC = 'src/Options.cxx'; TU = '/verif/tu/inst.cxx'
CLS = 'SoDa::Options'; OB = CLS + '::OptBase'
SS = 'Seq<Seq<int>>'
CALLS = ('ghost', 'calls')

def pkind(fn):
    return tuple('list' if 'list' in t else 'string' if 'string' in t else 'argv' if '*' in t else 'char' if t == 'char' else t for t in (sym.ptype(p) for p in fn.params))
def method(prog, name, *kinds):
    fs = [f for f in prog.find(CLS + '::' + name) if f.body is not None and (not kinds or pkind(f) == kinds)]
    if len(fs) != 1: raise Unsupported('%s::%s%s: %d definitions' % (CLS, name, kinds, len(fs)))
    return fs[0]

class ParseList:
    """parse(list of tokens), decided by its own goal; here: which tokens it is called with, and that its result is passed on"""
    def matches(s, fn): return fn.qual == CLS + '::parse' and pkind(fn) == ('list',)
    def apply(s, ex, fn, this, args):
        p = sym.Place(CALLS); log = ex.read(p)
        for f in ('long_map', 'ab_map', 'pos_arg_vec'): ex.oblige('frame', T.eq(T.proj(ex.read(this), f), T.proj(ex.entry['this'], f)), '%s is as it was when the tokens are handled' % f)
        ex.write(p, T.push(log, ex.val(args[0])))
        st = ex.fresh('parser', 'OPT'); ex.write(this, st); ex.after = st
        return T.app('parse_rs', [T.length(log)], 'bool')

O01_T = [
    Template('tk_go({S:str=}, {i:int!}, {C:str!}, {q:bool!}, {L:%s!}) == tk_go({S}, 0, Seq::empty(), false, Seq::empty())' % SS, hint='assert({C}.len() == 0 ==> {C} =~= Seq::empty());'),
    Template('tk_go({S:str=}, {i:int!}, {C:str!}, !{q:bool!}, {L:%s!}) == tk_go({S}, 0, Seq::empty(), false, Seq::empty())' % SS, hint='assert({C}.len() == 0 ==> {C} =~= Seq::empty());'),
    Template('{L:%s!} =~= {A:%s=}.subrange(1, {i:int!})' % (SS, SS)),
    Template('1 <= {i:int!} && {i} <= {n:int=}'),
    Template('0 <= {i:int!} && ({i} < {n:int=} || {i} == 0)'),
    Template('{i:int!} == 0 && {L:%s!}.len() == 0 || 1 <= {i} && {L} =~= {A:%s=}.subrange(1, {i} + 1)' % (SS, SS), hint='assert({L}.len() == 0 ==> {L} =~= Seq::empty());'),
]
O05_T = [Template('kv_go({L:%s=}, {i:int!}, {M:%s!}) == kv_go({L}, 0, Seq::empty())' % (SS, SS), hint='kv_fact({L}, {i});'),
          Template('{K:str!} =~= {K.entry} + {S:str=}.subrange(0, {k:int!})'), Template('no_eq({S:str=}, {k:int!})')]

def engine(prog, templates, contracts, **opts):
    e = Engine(prog, contracts=contracts, templates=templates, opts=dict(structnames={CLS: 'OPT', OB: 'OB'}, **opts))
    e.struct(CLS); e.struct(OB)
    return e

def parser(ex, kvp=None):
    st = T.const('opts', 'OPT')
    this = ex.newtmp(st); ex.vtypes[this.root] = ('class', CLS); ex.vnames[this.root] = 'parser'
    if kvp is not None: ex.assume(T.eq(T.proj(st, 'is_kvp'), B(kvp)))
    ex.entry['this'] = st
    return this, st

def form_goal(fn, kvp, spec):
    """a parse call in text or argv form hands exactly spec(arguments) to parse(list), once, and returns its result"""
    def body(ex):
        this, st = parser(ex, kvp)
        ex.vars[CALLS] = T.empty(SS); ex.vnames[CALLS] = 'calls'; ex.vtypes[CALLS] = ('other', 'calls')
        args, terms = symargs(ex, fn, ['argc', 'argv'] if len(fn.params) == 2 else ['text'])
        if len(fn.params) == 2:
            ex.assume(T.cmp('<=', I(0), terms[0])); ex.assume(T.cmp('<=', terms[0], T.length(terms[1])))
        ex.entry.update({'P%d' % i: t for i, t in enumerate(terms)})
        r = ex.val(ex.run_fn(fn, this, args)); ex.line = None
        calls = ex.vars[CALLS]
        empty = T.raw('squash({0}).len() == 0', 'bool', terms[0]) if kvp and spec == 'text' else FALSE
        toks = {'text': 'kv_tokens(split_spec({0}, seq![44int], false))' if kvp else 'tokens({0})', 'argv': 'kv_tokens(argtokens({1}, {0}))' if kvp else 'argtokens({1}, {0})', 'list': 'kv_tokens({0})'}[spec]
        toks = T.raw(toks, SS, *terms)
        ex.hints += [raw('sp_empty({0}, seq![44int]);', terms[0])] if spec == 'text' and kvp else []
        ex.oblige('ensures', T.raw('if {1} {{ {0}.len() == 0 && !{2} }} else {{ {0}.len() == 1 && {2} == parse_rs(0) }}', 'bool', calls, empty, r), 'the tokens are parsed once and the result is returned')
        ex.oblige('ensures', T.raw('{0}.len() >= 1 ==> {0}[0] =~= {1}', 'bool', calls, toks), 'exactly these tokens are parsed')
        now = ex.vars[this.root]; before = getattr(ex, 'after', st)
        for f in ('long_map', 'ab_map', 'pos_arg_vec', 'is_kvp'): ex.oblige('ensures', T.eq(T.proj(now, f), T.proj(before, f)), 'nothing else changes (%s)' % f)
    return body

def goals_O01(P):
    prog = P(SRC); g = []
    for k, spec in ((('string',), 'text'), (('int', 'argv'), 'argv')):
        fn = method(prog, 'parse', *k)
        g.append(Goal('Options::parse(%s)' % ', '.join(k), fn, engine(prog, O01_T, [ParseList(), SQUASH, SPLIT]), form_goal(fn, False, spec), SPECS))
    return g

def goals_O05(P):
    prog = P(SRC); g = []
    for name, k, spec in (('parse', ('string',), 'text'), ('parse', ('int', 'argv'), 'argv'), ('parseKeyValue', ('string',), 'text'), ('parseKeyValue', ('list',), 'list')):
        fn = method(prog, name, *k)
        g.append(Goal('Options::%s(%s) key=value' % (name, ', '.join(k)), fn, engine(prog, O01_T + O05_T, [ParseList(), SQUASH, SPLIT]), form_goal(fn, True, spec), SPECS))
    g += p_split.goals_S02(P)   # key=value lists rely on the contracts of squashSpaces and split
    return g

# ---------------------------------------------------------------- O02, O03: the token loop
LOG = ('ghost', 'log')
BADV = 'SoDa::BadOptValueException'
def event(kind, *a): return T.raw('Ev::%s {{ %s }}' % (kind, ', '.join('%s: {%d}' % (f, i) for i, f in enumerate(('opt', 'val')[:len(a)]))), 'Ev', *a)
def objref(this):
    if not this.path or this.path[-1][0] != 'k': raise Unsupported('virtual call on a local option object')
    return this.path[-1][1]
def log_event(ex, e): p = sym.Place(LOG); ex.write(p, T.push(ex.read(p), e))
def h_setval(ex, f, this, args, n):
    """contract of setVal, proved for every override by O06: accept (and mark present) or refuse with BadOptValueException"""
    o = objref(this); v = ex.val(args[0]); log = ex.read(sym.Place(LOG))
    if ex.branch(T.raw('rejects({0}, {1}, {2})', 'bool', log, o, v)):
        log_event(ex, event('Refused', o, v)); raise CThrow(BADV)
    log_event(ex, event('Value', o, v)); ex.write(this.sub(('f', 'present')), TRUE)
    return ex.fresh('setVal', 'bool')
def h_present(ex, f, this, args, n):
    o = objref(this); log_event(ex, event('Seen', o)); ex.write(this.sub(('f', 'present')), TRUE)
    return ex.fresh('setPresent', 'bool')
def h_ispres(ex, f, this, args, n): return T.raw('is_pres({0})', 'bool', objref(this))
def h_hasdef(ex, f, this, args, n): return ex.read(this.sub(('f', 'has_default')))
class FormatCalls:
    """a Format object used to build text: what it contains does not matter here (C01-C06 decide it); each adder returns the object itself, nothing else changes"""
    def matches(s, fn): return fn.cls == 'SoDa::Format'
    def apply(s, ex, fn, this, args):
        if fn.node['kind'] == 'CXXConstructorDecl': return None
        if not fn.name.startswith('add'): raise Unsupported('call of %s' % fn.qual)
        return this
def fmt_out(ex, os, f):
    """contract of operator<< for Format (C02): some text is appended to the stream, nothing else changes"""
    b = os.sub(('f', 'buf')); ex.write(b, T.concat(ex.read(b), ex.fresh('text', 'Seq<int>')))
def help_goal(fn, cls):
    """printing the help text changes nothing in the parser and lets no exception out"""
    def body(ex):
        this, st = parser(ex)
        hp, h0 = objects(ex)
        if cls == CLS: ex.assume(T.raw('forall|k: Seq<int>| #![trigger {0}.long_map[k]] {0}.long_map.dom().contains(k) ==> {0}.long_map[k] > 0', 'bool', st))
        else: o = T.const('opt', 'int'); ex.assume(T.cmp('<', I(0), o)); this_o = hp.sub(('k', o))
        os = ex.newtmp(ex.new_ss(buf=T.const('out0', 'Seq<int>'))); ex.vnames[os.root] = 'os'
        out = r = None
        try: r = ex.run_fn(fn, this if cls == CLS else this_o, [os])
        except CThrow as c: out = c.typ
        ex.line = None
        ex.oblige('ensures', B(out is None), 'no exception (%s)' % out)
        ex.oblige('ensures', T.eq(ex.vars[this.root], st), 'printing the help text leaves the parser as it is')
        ex.oblige('ensures', T.eq(ex.vars[hp.root], h0), 'printing the help text leaves the options as they are')
    return body
def help_goals(P):
    prog = P(SRC); g = []
    for cls, n in ((OB, 'OptBase::printHelp'), (CLS, 'Options::printHelp')):
        fn = [f for f in prog.fns if f.qual == cls + '::printHelp' and f.body is not None][0]
        e = engine(prog, [], [FormatCalls()] + ([PrintHelp(OB)] if cls == CLS else []), outop={'SoDa::Format': fmt_out})
        g.append(Goal(n, fn, e, help_goal(fn, cls), SPECS))
    return g
class PrintHelp:
    """printing the help text changes nothing in the parser (its own goals in O03)"""
    def __init__(s, only=None): s.only = only
    def matches(s, fn): return fn.qual in ([s.only + '::printHelp'] if s.only else [CLS + '::printHelp', OB + '::printHelp'])
    def apply(s, ex, fn, this, args): return args[0]

PR_T = [
    Template('same_fixed({H0}, {H:Map<int, OB>!})'),
    Template('{w:bool!} == ({c:ref!} != 0 && {H0}[{c}].is_signed)'),
    Template('!{w:bool!}'),
    Template('{c:ref!} == 0 || !is_pres({c})'),
    Template('pr({LM}, {AM}, {H0}, {T:%s!}, {c:ref!}, {G:Seq<Ev>!}, {Q:%s!}) == pr({LM}, {AM}, {H0}, {T.entry}, 0, Seq::empty(), {Q.entry})' % (SS, SS)),
    Template('pr({LM}, {AM}, {H0}, {T:%s=}.subrange({i:int!}, {T}.len() as int), {c:ref!}, {G:Seq<Ev>!}, {Q:%s!}) == pr({LM}, {AM}, {H0}, {T}, 0, Seq::empty(), {Q.entry})' % (SS, SS),
             hint='if 0 <= {i} < {T}.len() {{ sub_rest({T}, {i}); }} assert({T}.subrange(0, {T}.len() as int) =~= {T});'),
]
MARK_T = [Template('marked({H0}, {H:Map<int, OB>!}, 0, {G:Seq<Ev>!})')]
PR_M = [Template('{T:%s!}.len() as int' % SS)]

def loop_engine(prog, pid='O02'):
    e = engine(prog, PR_T + (MARK_T if pid == 'O04' else []), [PrintHelp()], measures=PR_M)
    e.struct(OB)
    e.callhooks.update({'setVal': h_setval, 'setPresent': h_present, 'isPresentOpt': h_ispres, 'hasDefault': h_hasdef})
    return e
def objects(ex):
    """the registered option objects: presence options are never signed (proved for their constructor), names lead to objects"""
    hp = ex.heap(OB); h = ex.read(hp)
    ex.assume(T.raw('forall|o: int| #![trigger is_pres(o)] is_pres(o) ==> !{0}[o].is_signed', 'bool', h))
    return hp, h
def parse_goal(fn, pid):
    def body(ex):
        this, st = parser(ex)
        hp, h0 = objects(ex)
        lm, am, pos = (T.proj(st, f) for f in ('long_map', 'ab_map', 'pos_arg_vec'))
        ex.vars[LOG] = T.empty('Ev'); ex.vnames[LOG] = 'log'; ex.vtypes[LOG] = ('other', 'log')
        args, (toks,) = symargs(ex, fn, ['tokens'])
        ex.entry.update(dict(H0=h0, LM=lm, AM=am, Q0=pos))
        r = ex.val(ex.run_fn(fn, this, args)); ex.line = None
        want = T.raw('pr({0}, {1}, {2}, {3}, 0, Seq::empty(), {4})', 'PR', lm, am, h0, toks, pos)
        log = ex.vars[LOG]; now = ex.vars[this.root]; npos = T.proj(now, 'pos_arg_vec')
        if pid == 'O03':
            ex.oblige('ensures', T.raw('{0} == {1}.ok', 'bool', r, want), 'false exactly for an unknown switch, a refused value or a help request')
            ex.oblige('ensures', T.raw('!{0}.ok ==> {1} =~= {0}.log && {2} =~= {0}.pos', 'bool', want, log, npos), 'nothing happens after the offending token')
        elif pid == 'O02':
            ex.oblige('ensures', T.raw('{0}.ok ==> {1} =~= {0}.log', 'bool', want, log), 'switches and values reach the options in order')
            ex.oblige('ensures', T.raw('{0}.ok ==> {1} =~= {0}.pos', 'bool', want, npos), 'positional arguments in order')
        else:
            ex.oblige('ensures', T.raw('marked({0}, {1}, 0, {2})', 'bool', h0, ex.vars[hp.root], log), 'present exactly when seen or given a value')
            ex.oblige('ensures', T.raw('{1} =~= {0}.log && {2} =~= {0}.pos', 'bool', want, log, npos), 'options are seen and positional arguments stored as the tokens say')
        for f in ('long_map', 'ab_map', 'is_kvp', 'info_list'): ex.oblige('ensures', T.eq(T.proj(now, f), T.proj(st, f)), 'the registered options do not change (%s)' % f)
        ex.oblige('ensures', T.raw('same_fixed({0}, {1})', 'bool', h0, ex.vars[hp.root]), 'the options keep their names and kinds')
    return body
def parse_list(P, pid):
    prog = P(SRC); fn = method(prog, 'parse', 'list')
    return Goal('Options::parse(list)', fn, loop_engine(prog, pid), parse_goal(fn, pid), SPECS)
def register(P):
    fn = method(P(SRC), 'registerOpt')
    return Goal('Options::registerOpt', fn, loop_engine(P(SRC)), register_goal(fn), SPECS)
def goals_O02(P): return [parse_list(P, 'O02'), register(P)] + option_goals(P, 'O02', ('setVal', 'setPresent', 'isPresentOpt', 'hasDefault', 'add'))
def goals_O03(P): return [parse_list(P, 'O03')] + help_goals(P) + option_goals(P, 'O03', ('setVal', 'add'))
def query_goal(fn, what):
    def body(ex):
        this, st = parser(ex)
        hp, h0 = objects(ex)
        lm, am, pos = (T.proj(st, f) for f in ('long_map', 'ab_map', 'pos_arg_vec'))
        ex.assume(T.raw('forall|k: Seq<int>| #![trigger {0}[k]] {0}.dom().contains(k) ==> {0}[k] > 0', 'bool', lm)); ex.assume(T.raw('forall|k: int| #![trigger {0}[k]] {0}.dom().contains(k) ==> {0}[k] > 0', 'bool', am))
        args, a = symargs(ex, fn)
        if what == 'at': ex.assume(T.cmp('<=', I(0), a[0]))
        r = ex.val(ex.run_fn(fn, this, args)); ex.line = None
        if what == 'name': w = T.raw('{0}.dom().contains({1}) && {2}[{0}[{1}]].present', 'bool', lm, a[0], h0)
        elif what == 'letter': w = T.raw('{0}.dom().contains({1}) && {2}[{0}[{1}]].present', 'bool', am, a[0], h0)
        elif what == 'at': w = T.raw('if {1} < {0}.len() {{ {0}[{1}] }} else {{ Seq::empty() }}', 'Seq<int>', pos, a[0])
        elif what == 'all': w = pos
        else: w = T.length(pos)
        ex.oblige('ensures', T.raw('{0} == ({1})' if what in ('name', 'letter', 'count') else '{0} =~= {1}', 'bool', r, w), {'name': 'present(name)', 'letter': 'present(letter)', 'at': 'the i-th positional argument, or empty', 'all': 'the positional arguments', 'count': 'the number of positional arguments'}[what])
        ex.oblige('ensures', T.eq(ex.vars[this.root], st), 'a query changes nothing'); ex.oblige('ensures', T.eq(ex.vars[hp.root], h0), 'a query changes no option')
    return body
def register_goal(fn):
    def body(ex):
        this, st = parser(ex)
        hp, h0 = objects(ex)
        args, (o, ln, ab) = symargs(ex, fn, ['arg_p', 'long_name', 'ab_name'])
        ex.assume(T.cmp('<', I(0), o))
        ex.run_fn(fn, this, args); ex.line = None
        now = ex.vars[this.root]; h = ex.vars[hp.root]
        lm, am = T.proj(st, 'long_map'), T.proj(st, 'ab_map')
        ex.oblige('ensures', T.raw('{0} =~= {1}.insert({2}, {3})', 'bool', T.proj(now, 'long_map'), lm, ln, o), 'the long name leads to the option')
        ex.oblige('ensures', T.raw('{0} =~= {1}.insert({2}, {3})', 'bool', T.proj(now, 'ab_map'), am, ab, o), 'the letter leads to the same option')
        for f in ('pos_arg_vec', 'is_kvp'): ex.oblige('ensures', T.eq(T.proj(now, f), T.proj(st, f)), 'nothing else changes (%s)' % f)
        ex.oblige('ensures', T.raw('{0}[{2}].present == {1}[{2}].present && {0}[{2}].is_signed == {1}[{2}].is_signed && {0}[{2}].has_default == {1}[{2}].has_default && (forall|k: int| #![trigger {0}[k]] k != {2} ==> {0}[k] == {1}[k])', 'bool', h, h0, o), 'only the names of this option are set')
    return body
def goals_O04(P):
    prog = P(SRC); g = [parse_list(P, 'O04')]
    for name, k, what in (('isPresent', ('string',), 'name'), ('isPresent', ('char',), 'letter'), ('getPosArg', ('int',), 'at'), ('getPosArgs', (), 'all'), ('numPosArgs', (), 'count')):
        fn = method(prog, name, *k)
        g.append(Goal('Options::%s(%s)' % (name, ', '.join(k)), fn, loop_engine(prog), query_goal(fn, what), SPECS))
    return g + [register(P)] + option_goals(P, 'O04', ('setVal', 'setPresent', 'add'))

# ---------------------------------------------------------------- O06: the option classes
SPECS6 = SPECS + ['options_val.rs']
TESTS = ('ghost', 'tests')
XT = {'int': 'int', 'unsigned int': 'uint', 'long': 'long', 'double': 'double'}
class Register:
    """registerOpt, proved by O04; here: which object is registered under which names"""
    def matches(s, fn): return fn.qual == CLS + '::registerOpt'
    def apply(s, ex, fn, this, args):
        ex.oblige('ensures', B(not hasattr(ex, 'registered')), 'one registration'); ex.registered = [ex.val(a) for a in args]
        return None
def h_test(ex, f, vs, n, cts):
    """the acceptance test: any function of the values it has been asked about; asked about exactly the converted value"""
    p = sym.Place(TESTS); log = ex.read(p)
    ex.write(p, T.push(log, vs[0]))
    return T.app('test_ok', [f, log, vs[0]], 'bool')
def tparam(cls): return cls[cls.index('<') + 1:-1]
UP_T = [Template('{V:str!}.len() == {i:int!}'), Template('same_upto({S:str=}, {V:str!}, {i:int!})'),
        Template('{V:str!}.len() == {S:str=}.len() && forall|k: int| #![trigger {V}[k]] {i:int!} <= k < {V}.len() ==> {V}[k] == {S}[k]')]
def val_engine(prog, so):
    e = engine(prog, UP_T if so == 'bool' else [], [Register(), PrintHelp()], callop=h_test)
    for t, s_ in (('int', 'int'), ('uint', 'int'), ('long', 'int'), ('double', 'F64')): e.extra.append(('xt', t, s_))
    e.extra.append(('text', 'pub uninterp spec fn test_ok(f: int, asked: Seq<%s>, v: %s) -> bool;' % (so, so)))
    return e
def conversion(T_, v):
    """(ok, value) of the text v as a T"""
    if 'string' in T_: return TRUE, v
    if T_ == 'bool': return T.raw('bool_ok({0})', 'bool', v), T.raw('bool_val({0})', 'bool', v)
    x = XT[T_]
    return T.raw('xt_%s_ok({0}, 0)' % x, 'bool', v), T.raw('xt_%s_val({0}, 0)' % x, 'F64' if x == 'double' else 'int', v)
def sort_of(T_): return 'Seq<int>' if 'string' in T_ else 'bool' if T_ == 'bool' else 'F64' if T_ == 'double' else 'int'
def only(ex, pid):
    """obligations of the named properties only"""
    def ob(pids, *a):
        if pid in pids.split(): ex.oblige('ensures', *a)
    return ob
def setval_goal(fn, cls, kind, pid='O06'):
    def body(ex):
        ob = only(ex, pid)
        T_ = tparam(cls) if kind != 'flag' else 'bool'; so = sort_of(T_)
        sn = ex.e.struct(cls); o0 = T.const('opt', sn)
        this = ex.newtmp(o0); ex.vtypes[this.root] = ('class', cls); ex.vnames[this.root] = 'option'
        ref = T.proj(o0, 'argvec_p' if kind == 'vec' else 'val_p'); ex.assume(T.cmp('<', I(0), ref))
        hp = ex.heap('Seq<%s>' % so if kind == 'vec' else so); h0 = ex.read(hp)
        ex.assume(T.raw('{0}.dom().contains({1})', 'bool', h0, ref))
        ex.vars[TESTS] = T.empty(so); ex.vnames[TESTS] = 'tests'; ex.vtypes[TESTS] = ('other', 'tests')
        args, (v,) = symargs(ex, fn, ['vstr'])
        ex.assume(T.raw('chars({0})', 'bool', v))
        if T_ == 'bool' and kind != 'flag': ex.assume(T.raw('{0}.len() > 0', 'bool', v))
        out = None
        try: ex.run_fn(fn, this, args)
        except CThrow as c: out = c.typ
        ex.line = None
        now = ex.vars[this.root]; h = ex.vars[hp.root]; tests = ex.vars[TESTS]
        for a, b in getattr(ex, 'transformed', []) if T_ == 'bool' else []: ex.hints.append(T.raw('if forall|k: int| #![trigger {1}[k]] 0 <= k < {0}.len() ==> c_toupper({1}[k]) == c_toupper({0}[k]) {{ xt_case({0}, {1}); }}', 'bool', a, b))
        for f, _ in T.STRUCTS[sn]:
            if f != 'present': ob('O02 O06', T.eq(T.proj(now, f), T.proj(o0, f)), 'the option keeps its %s' % f)
        if kind == 'flag':
            ob('O03', B(out is None), 'a presence option refuses nothing (%s)' % out)
            ob('O06', T.raw('{0} =~= {1}.insert({2}, true)', 'bool', h, h0, ref), 'the flag becomes true')
            ob('O04', T.proj(now, 'present'), 'the option is present')
            return
        ok, val = conversion(T_, v)
        good = T.and_(ok, T.app('test_ok', [T.proj(o0, 'test_func'), T.empty(so), val], 'bool'))
        ob('O06 O03', T.raw('{0} =~= if {1} {{ seq![{2}] }} else {{ Seq::empty() }}', 'bool', tests, ok, val), 'the test is asked about exactly the converted value')
        if out is not None:
            ob('O03', B(out == BADV), 'a value is refused with BadOptValueException (%s)' % out)
            ob('O03', T.not_(good), 'only a text that does not convert or fails the test is refused')
            ob('O04', T.eq(T.proj(now, 'present'), T.proj(o0, 'present')), 'a refused value does not mark the option present')
            if kind == 'vec': ob('O06', T.eq(h, h0), 'a refused value is not appended')
            else: ob('O06', T.raw('{0} =~= {1}.insert({2}, {0}[{2}])', 'bool', h, h0, ref), 'no other variable changes')
            return
        ob('O03 O06', good, 'a text that does not convert or fails the test is refused')
        ob('O04', T.proj(now, 'present'), 'the option is present')
        if kind == 'vec': ob('O06', T.raw('{0} =~~= {1}.insert({2}, {1}[{2}].push({3}))', 'bool', h, h0, ref, val), 'exactly the value is appended')
        else: ob('O06', T.raw('{0} =~~= {1}.insert({2}, {3})', 'bool', h, h0, ref, val), 'the variable becomes the converted value')
    return body
def present_goal(fn, cls, pid='O06'):
    def body(ex):
        ob = only(ex, pid)
        sn = ex.e.struct(cls); o0 = T.const('opt', sn)
        this = ex.newtmp(o0); ex.vtypes[this.root] = ('class', cls); ex.vnames[this.root] = 'option'
        flag = cls.endswith('OptPresent')
        hp = ex.heap('bool'); h0 = ex.read(hp)
        if flag: ex.assume(T.cmp('<', I(0), T.proj(o0, 'val_p'))); ex.assume(T.raw('{0}.dom().contains({1})', 'bool', h0, T.proj(o0, 'val_p')))
        ex.run_fn(fn, this, []); ex.line = None
        now = ex.vars[this.root]
        for f, _ in T.STRUCTS[sn]:
            if f == 'present': ob('O04', T.proj(now, f), 'the option is present')
            else: ob('O02 O06', T.eq(T.proj(now, f), T.proj(o0, f)), 'the option keeps its %s' % f)
        if flag: ob('O06', T.raw('{0} =~= {1}.insert({2}, true)', 'bool', ex.vars[hp.root], h0, T.proj(o0, 'val_p')), 'the flag becomes true')
    return body
def kind_goal(fn, cls, what):
    """isPresentOpt / hasDefault of every class: what the token loop is told"""
    def body(ex):
        sn = ex.e.struct(cls); o0 = T.const('opt', sn)
        this = ex.newtmp(o0); ex.vtypes[this.root] = ('class', cls); ex.vnames[this.root] = 'option'
        r = ex.val(ex.run_fn(fn, this, [])); ex.line = None
        if what == 'pres': ex.oblige('ensures', T.eq(r, B(cls.endswith('OptPresent'))), 'isPresentOpt exactly for presence options')
        else: ex.oblige('ensures', T.eq(r, T.proj(o0, 'has_default')), 'hasDefault as registered')
        ex.oblige('ensures', T.eq(ex.vars[this.root], o0), 'the question changes nothing')
    return body
def add_goal(fn, T_, kind, dflt, pid='O06'):
    """add / addV / addP: one option of the right kind, initialised variable, registered under both names"""
    def body(ex):
        this, st = parser(ex)
        so = sort_of(T_); cls = CLS + '::' + ('OptPresent' if kind == 'flag' else ('OptVec<%s>' if kind == 'vec' else 'Opt<%s>') % T_)
        hp = ex.heap('Seq<%s>' % so if kind == 'vec' else so); h0 = ex.read(hp)
        names = ['val', 'long_name', 'ab_name'] + (['def_val'] if dflt else []) + (['doc'] if kind == 'flag' else ['doc', 'test', 'err'])
        args, a = symargs(ex, fn, names)
        ex.assume(T.cmp('<', I(0), a[0])); ex.assume(T.raw('{0}.dom().contains({1})', 'bool', h0, a[0]))
        ex.run_fn(fn, this, args); ex.line = None
        ob = only(ex, pid)
        reg = getattr(ex, 'registered', None)
        if reg is None: ob('O02 O04 O06', FALSE, 'the option is registered'); return
        ob('O02 O04', T.and_(T.eq(reg[1], a[1]), T.eq(reg[2], a[2])), 'registered under these names')
        o = T.mget(ex.read(ex.heap(cls)), reg[0]); d = dict(zip(names, a))
        ob('O02 O04 O06', T.not_(T.eq(reg[0], I(0))), 'a new option object')
        f = lambda n: T.proj(o, n)
        ob('O06', T.eq(f('argvec_p' if kind == 'vec' else 'val_p'), a[0]), 'the option writes to the given variable')
        ob('O04', T.not_(f('present')), 'not present yet')
        if kind == 'flag': ob('O03 O04', T.not_(f('is_signed')), 'a presence option is not signed')
        ob('O02', T.eq(f('is_signed'), B(kind != 'flag' and T_ in ('int', 'long', 'double'))), 'signed exactly for signed numbers')
        if kind != 'flag': ob('O06 O03', T.eq(f('test_func'), d['test']), 'the given test is used')
        if kind == 'sca': ob('O02', T.eq(f('has_default'), B(dflt)), 'has a default exactly when one was given')
        if kind == 'vec': ob('O02', f('has_default'), 'a vector option can do without a value')
        h = ex.vars[hp.root]
        if kind == 'vec': ob('O06', T.eq(h, h0), 'the vector is left alone')
        else:
            init = d['def_val'] if dflt else {'int': I(0), 'bool': FALSE, 'F64': T.raw('f64_of_int(0)', 'F64'), 'Seq<int>': T.empty('int')}[so]
            ob('O06', T.raw('{0} =~~= {1}.insert({2}, {3})', 'bool', h, h0, a[0], init), 'the variable gets its default')
    return body

def option_goals(P, pid, what):
    """the option classes' part in the property pid"""
    prog = P(TU); g = []
    fs = [f for f in prog.fns if f.cls and f.cls.startswith(CLS + '::Opt') and f.body is not None]
    for f in fs:
        cls = f.cls; base = cls.split('<')[0][len(CLS) + 2:]
        so = sort_of(tparam(cls)) if '<' in cls else 'bool'
        nm = f.qual[len('SoDa::'):]
        e = lambda: val_engine(prog, so)
        if f.name not in what: continue
        if f.name == 'setVal': g.append(Goal(nm, f, e(), setval_goal(f, cls, {'Opt': 'sca', 'OptVec': 'vec', 'OptPresent': 'flag'}[base], pid), SPECS6))
        elif f.name == 'setPresent': g.append(Goal(nm, f, e(), present_goal(f, cls, pid), SPECS6))
        elif f.name in ('isPresentOpt', 'hasDefault'): g.append(Goal(nm, f, e(), kind_goal(f, cls, 'pres' if f.name == 'isPresentOpt' else 'def'), SPECS6))
    for f in prog.fns:
        if f.cls == CLS and f.name in ('add', 'addV', 'addP') and f.body is not None and 'add' in what:
            pt = sym.ptype(f.params[0])
            t = pt[:-1].strip() if f.name != 'addV' else pt[pt.index('<') + 1:pt.rindex('>')]
            t = t.replace('std::', '').replace('basic_string<char>', 'std::basic_string<char>')
            k = {'add': 'sca', 'addV': 'vec', 'addP': 'flag'}[f.name]; d = len(f.params) == 7
            g.append(Goal('Options::%s<%s>%s' % (f.name, t, ' with default' if d else ''), f, val_engine(prog, sort_of(t)), add_goal(f, t, k, d, pid), SPECS6))
    return g
def goals_O06(P): return option_goals(P, 'O06', ('setVal', 'setPresent', 'add'))
