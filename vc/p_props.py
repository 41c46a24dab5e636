"""P01-P03: SoDa::PropertyTree and its YAML reader."""
import terms as T, sym, stl
from terms import I, B, TRUE, FALSE
from sym import Engine, Template, Unsupported, CThrow
from contracts import *
import p_split
from p_split import SPLIT, SQUASH

SPECS = ['split.rs', 'props.rs']
SRC = 'src/PropertyTree.cxx'; TU = '/verif/tu/inst.cxx'
CLS = 'SoDa::PropertyTree'; PN = CLS + '::PropNode'
SS = 'Seq<Seq<int>>'
NOTFOUND = PN + '::PropertyNotFound'; BADTYPE = PN + '::BadPropertyType'

def engine(prog, templates, contracts, **opts):
    e = Engine(prog, contracts=contracts, templates=templates, opts=dict(structnames={PN: 'PN', CLS: 'PT'}, **opts))
    e.struct(PN)
    return e
class Lookup:
    """getPropRecursive: the node along the list, null or PropertyNotFound; the list may be consumed, the tree is unchanged"""
    def __init__(s, name): s.name = name
    def matches(s, fn): return fn.qual == PN + '::' + s.name
    def apply(s, ex, fn, this, args):
        full = SPLIT.fill.__get__(SPLIT)(ex, fn, args)
        h = ex.read(ex.heap(PN)); n = sym_addr(ex, this)
        if s.name == 'getPropRecursive':
            path = full[0]; l = args[0]
            before = ex.entry.get('rec')
            if before is not None: ex.oblige('decreases', T.cmp('<', T.length(path), before), 'the path gets shorter')
            if isinstance(l, sym.Place): ex.write(l, ex.fresh('rest_of_path', SS))
        else: path = T.raw('split_spec({0}, seq![58int], false)', SS, full[0])
        ex.oblige('requires', T.cmp('<', I(0), n), 'looked up from a node')
        w = T.raw('walk({0}, {1}, {2}, 0)', 'int', h, n, path)
        ex.hints.append(T.raw('walk_pos({0}, {1}, {2}, 0);', 'bool', h, n, path))
        if ex.branch(T.and_(full[-1], T.eq(w, I(0)))): raise CThrow(NOTFOUND)
        return w
def sym_addr(ex, this):
    a = ex.addr(sym.Ptr(this))
    if a is None: raise Unsupported('address of a local node')
    return a

def node(ex, nm='node'):
    h = ex.heap(PN); ref = T.const(nm, 'int')
    ex.assume(T.cmp('<', I(0), ref))
    h0 = ex.read(h); ex.assume(T.raw('tree({0})', 'bool', h0))
    return h, h0, ref, h.sub(('k', ref))

def lookup_goal(fn):
    def body(ex):
        h, h0, ref, this = node(ex)
        args, a = symargs(ex, fn, ['path', 'orig', 'throws'] if len(fn.params) == 3 else ['path', 'throws'])
        path = a[0]
        if len(fn.params) == 3: ex.entry['rec'] = T.length(path)
        else: path = T.raw('split_spec({0}, seq![58int], false)', SS, path)
        ex.entry.update(H0=h0, N0=ref, PATH=path)
        out = r = None
        try: r = ex.val(ex.run_fn(fn, this, args))
        except CThrow as c: out = c.typ
        ex.line = None
        if isinstance(r, sym.Ptr): r = sym_addr(ex, r.place)
        w = T.raw('walk({0}, {1}, {2}, 0)', 'int', h0, ref, path)
        if out is not None:
            ex.oblige('ensures', B(out == NOTFOUND), 'PropertyNotFound, no other exception (%s)' % out)
            ex.oblige('ensures', T.and_(a[-1], T.eq(w, I(0))), 'thrown only when asked for and the path is missing')
        else:
            ex.oblige('ensures', T.eq(r, w), 'the node reached level by level, or null')
            ex.oblige('ensures', T.or_(T.not_(a[-1]), T.not_(T.eq(w, I(0)))), 'a missing path throws when asked for')
        ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'a lookup changes no node')
    return body
def list_goal(fn, field):
    def body(ex):
        h, h0, ref, this = node(ex)
        f = T.proj(T.mget(h0, ref), field)
        if field == 'dictionary':
            ks = sym.map_keys(ex, f); sym.map_key_facts(ex, f, ks); ex.entry['KS'] = ks
        r = ex.val(ex.run_fn(fn, this, [])); ex.line = None
        if field == 'prop_list': ex.oblige('ensures', T.eq(r, f), 'exactly the items, in order')
        else:
            ex.oblige('ensures', T.raw('{0} =~= {1}', 'bool', r, ks), 'exactly the keys, once each')
        ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'listing changes no node')
    return body
KEY_T = [Template('{L:%s!} =~= {KS}.subrange(0, {i:int!})' % SS), Template('{i:int!} <= {KS}.len()')]
WALK_T = [Template('walk({H0}, {n:ref!}, {L:%s!}, 0) == walk({H0}, {N0}, {PATH}, 0)' % SS),
          Template('walk({H0}, {n:ref!}, {PATH}, {i:int!}) == walk({H0}, {N0}, {PATH}, 0)'),
          Template('{L:%s!} =~= {PATH}.subrange({i:int!}, {PATH}.len() as int)' % SS),
          Template('0 < {n:ref!}'), Template('{i:int!} <= {PATH}.len()')]
def one(prog, q, n=None): return prog.one(q, n)
def goals_P01(P):
    prog = P(SRC); g = []
    rec = one(prog, PN + '::getPropRecursive')
    g.append(Goal('PropNode::getPropRecursive', rec, engine(prog, WALK_T, [Lookup('getPropRecursive')]), lookup_goal(rec), SPECS))
    fn = one(prog, PN + '::getProp')
    g.append(Goal('PropNode::getProp', fn, engine(prog, WALK_T, [Lookup('getPropRecursive'), SPLIT, SQUASH]), lookup_goal(fn), SPECS))
    for name, f in (('getList', 'prop_list'), ('getKeys', 'dictionary')):
        fn = one(prog, PN + '::' + name)
        g.append(Goal('PropNode::' + name, fn, engine(prog, KEY_T, []), list_goal(fn, f), SPECS))
    return g + p_split.goals_S02(P)

# ---------------------------------------------------------------- P02: typed reads
XT = {'int': 'int', 'unsigned int': 'uint', 'double': 'double', 'long': 'long', 'std::basic_string<char>': 'string', 'bool': 'bool', 'char': 'char', 'float': 'float'}
class NodePath:
    """getPathName builds a text for the exception message, changes nothing and does not throw (its own goal below)"""
    def matches(s, fn): return fn.qual == PN + '::getPathName'
    def apply(s, ex, fn, this, args):
        d = ex.entry.get('depth')
        if d is not None: ex.oblige('decreases', T.raw('0 <= depth({0}) < {1}', 'bool', sym_addr(ex, this), d), 'one level up')
        return ex.fresh('path_name', 'Seq<int>')
def pathname_goal(fn):
    def body(ex):
        h, h0, ref, this = node(ex)
        ex.assume(T.raw('chains({0})', 'bool', h0)); ex.entry['depth'] = T.raw('depth({0})', 'int', ref)
        out = None
        try: ex.run_fn(fn, this, [])
        except CThrow as c: out = c.typ
        ex.line = None
        ex.oblige('ensures', B(out is None), 'no exception (%s)' % out)
        ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'naming a node changes no node')
    return body
def get_goal(fn, T_, top):
    def body(ex):
        h, h0, ref, this = node(ex, 'root' if top else 'node')
        x = XT[T_]; so = 'Seq<int>' if x == 'string' else 'bool' if x == 'bool' else 'F64' if x in ('double', 'float') else 'int'
        if top:
            st = T.const('tree_', ex.e.struct(CLS)); tr = ex.newtmp(st); ex.vtypes[tr.root] = ('class', CLS); ex.vnames[tr.root] = 'tree'
            ex.assume(T.eq(T.proj(st, 'root'), ref)); this = tr
        args, a = symargs(ex, fn, ['v', 'path', 'throws'] if top else ['v', 'throws'])
        out = r = None
        try: r = ex.val(ex.run_fn(fn, this, args))
        except CThrow as c: out = c.typ
        ex.line = None
        n = T.raw('walk({0}, {1}, split_spec({2}, seq![58int], false), 0)', 'int', h0, ref, a[1]) if top else ref
        if top: ex.hints.append(T.raw('walk_pos({0}, {1}, split_spec({2}, seq![58int], false), 0);', 'bool', h0, ref, a[1]))
        txt = T.proj(T.mget(h0, n), 'val_string')
        ok = T.raw('xt_%s_ok({0}, 0)' % x, 'bool', txt); val = T.raw('xt_%s_val({0}, 0)' % x, so, txt)
        miss = T.eq(n, I(0)); thr = a[-1]
        if out is not None:
            ex.oblige('ensures', B(out in (NOTFOUND, BADTYPE)), 'no other exception (%s)' % out)
            ex.oblige('ensures', thr, 'an exception only if asked for')
            ex.oblige('ensures', miss if out == NOTFOUND else T.and_(T.not_(miss), T.not_(ok)), 'a missing path is PropertyNotFound, an unconvertible text BadPropertyType')
        else:
            good = T.and_(T.not_(miss), ok)
            ex.oblige('ensures', T.eq(r, good), 'true exactly when the path exists and the text converts')
            ex.oblige('ensures', T.or_(good, T.not_(thr)), 'a failure throws if asked for')
            ex.oblige('ensures', T.or_(T.not_(good), T.raw('{0} =~= {1}' if so.startswith('Seq') else '{0} == {1}', 'bool', ex.read(args[0]), val)), 'the converted value is delivered')
        ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'reading changes no node')
        if top: ex.oblige('ensures', T.eq(ex.vars[tr.root], st), 'reading does not change the tree')
    return body
def goals_P02(P):
    prog = P(TU); g = []
    for f in prog.fns:
        if f.name != 'get' or f.cls not in (CLS, PN) or f.body is None: continue
        t = sym.ptype(f.params[0]).rstrip('& ').strip()
        x = XT.get(t) and t
        if x is None: raise Unsupported('get<%s>' % t)
        so = {'string': 'Seq<int>', 'bool': 'bool', 'double': 'F64', 'float': 'F64'}.get(XT[x], 'int')
        e = engine(prog, [], [Lookup('getProp'), NodePath(), SPLIT, SQUASH]); e.extra.append(('xt', XT[x], so))
        g.append(Goal('%s::get<%s>' % (f.cls.split('::')[-1], x), f, e, get_goal(f, x, f.cls == CLS), SPECS))
    fn = one(P('src/PropertyTree.cxx'), PN + '::getPathName')
    g.append(Goal('PropNode::getPathName', fn, engine(P('src/PropertyTree.cxx'), [Template('{p:ref!} > 0')], [NodePath()], measures=[Template('depth({p:ref!})')]), pathname_goal(fn), SPECS))
    return g + [q for q in goals_P01(P) if q.name.startswith('PropNode::getProp')] + p_split.goals_S02(P)

# ---------------------------------------------------------------- P04: dumping
HEADS = (b'<<<PROPLIST>>>\n', b'<<<DICTIONARY>>>\n')
class Dump:
    """PropNode::dump: the node's text is appended to the stream, the stream is returned, the tree is unchanged"""
    def matches(s, fn): return fn.qual == PN + '::dump'
    def apply(s, ex, fn, this, args):
        n = sym_addr(ex, this); os = args[0]; ind = stl.tostr(ex, ex.val(args[1]))
        top = ex.entry.get('top')
        if top is not None: ex.oblige('decreases', T.raw('0 <= height({0}) < height({1})', 'bool', n, top), 'one level down')
        b = os.sub(('f', 'buf')); ex.write(b, T.concat(ex.read(b), T.raw('dump_txt({0}, {1}, {2})', 'Seq<int>', ex.read(ex.heap(PN)), n, ind)))
        ex.assume(T.raw('{0}[{1}].is_terminal ==> dump_txt({0}, {1}, {2}) == {2} + {0}[{1}].val_string + seq![10int]', 'bool', ex.read(ex.heap(PN)), n, ind))
        return os
DUMP_T = [Template('{O:str!} =~= {O.entry} + items_txt({H0}, {H0}[{N0}].prop_list, {IND}, {i:int!})'),
          Template('{O:str!} =~= {O.entry} + ents_txt({H0}, {H0}[{N0}].dictionary, {KS}, {IND}, {i:int!})'),
          Template('{i:int!} <= {KS}.len()'), Template('{i:int!} <= {H0}[{N0}].prop_list.len()')]
DUMP_M = [Template('{H0}[{N0}].prop_list.len() - {i:int!}'), Template('{KS}.len() - {i:int!}')]
def dump_goal(fn, top=False):
    def body(ex):
        h, h0, ref, this = node(ex, 'root' if top else 'node')
        ex.assume(T.raw('downward({0})', 'bool', h0))
        buf = T.const('out0', 'Seq<int>')
        os = ex.newtmp(ex.new_ss(buf=buf)); ex.vtypes[os.root] = ('sstream',); ex.vnames[os.root] = 'os'
        ind = T.empty('int') if top else T.const('indent', 'Seq<int>')
        if top:
            st = T.const('tree_', ex.e.struct(CLS)); tr = ex.newtmp(st); ex.vtypes[tr.root] = ('class', CLS); ex.vnames[tr.root] = 'tree'
            ex.assume(T.eq(T.proj(st, 'root'), ref)); args = [os]
        else:
            f = T.proj(T.mget(h0, ref), 'dictionary')
            ks = sym.map_keys(ex, f); sym.map_key_facts(ex, f, ks)
            a = ind if ex.types.parse(sym.ptype(fn.params[1]))[0] != 'ref' else ex.newtmp(ind)
            ex.entry.update(H0=h0, N0=ref, IND=ind, KS=ks, top=ref); args = [os, a]
        out = r = None
        try: r = ex.run_fn(fn, tr if top else this, args)
        except CThrow as c: out = c.typ
        ex.line = None
        ex.oblige('ensures', B(out is None), 'no exception (%s)' % out)
        now = T.proj(ex.read(os), 'buf')
        want = T.raw('dump_txt({0}, {1}, {2})', 'Seq<int>', h0, ref, ind) if top else T.raw('dump_one({0}, {1}, {2}, {3}, {4}, {5})', 'Seq<int>', h0, ref, ks, ind, T.strlit(HEADS[0]), T.strlit(HEADS[1]))
        ex.oblige('ensures', T.raw('{0} =~= {1} + {2}', 'bool', now, buf, want), 'the text of the node, its items in order and its entries by ascending key', then=False)
        ex.oblige('ensures', B(r == os), 'the stream itself is returned')
        ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'dumping changes no node')
    return body
def goals_P04(P):
    prog = P(SRC)
    fn = one(prog, PN + '::dump'); g = [Goal('PropNode::dump', fn, engine(prog, DUMP_T, [Dump()], measures=DUMP_M), dump_goal(fn), SPECS)]
    fn = one(prog, CLS + '::dump')
    return g + [Goal('PropertyTree::dump', fn, engine(prog, [], [Dump()]), dump_goal(fn, True), SPECS)]

# ---------------------------------------------------------------- P03: the YAML reader
YT = '/verif/tu/props.cxx'; YC = 'SoDa::PropertyTreeYAML'; YSPECS = ['split.rs', 'props.rs', 'yaml.rs']
FNF = 'SoDa::PropertyTree::FileNotFound'
YKIND = {'IsScalar': 'Sc', 'IsMap': 'Mp', 'IsSequence': 'Sq', 'IsNull': 'Null'}
def yn(ex, x):
    """the document node an expression denotes"""
    v = ex.val(x)
    if isinstance(v, T.T) and v.sort == 'YI': v = T.proj(v, 'self_')
    if not (isinstance(v, T.T) and v.sort == 'Y'): raise Unsupported('YAML node expected')
    return v
def valid(ex, y): ex.oblige('requires', T.raw('!({0} is Bad)', 'bool', y), 'the YAML node asked is valid')
def y_is(ex, obj, ct, name, argn, n):
    y = yn(ex, obj); valid(ex, y); stl.trust(ex, 'YAML::Node::%s' % name)
    return T.raw('({0} is %s)' % YKIND[name], 'bool', y)
def y_defined(ex, obj, ct, name, argn, n): return T.not_(T.raw('({0} is Bad)', 'bool', yn(ex, obj)))
def y_type(ex, obj, ct, name, argn, n):
    y = yn(ex, obj); valid(ex, y); stl.trust(ex, 'YAML::Node::Type')
    return T.raw('(match {0} { Y::Bad => 0int, Y::Null => 1int, Y::Sc{s} => 2int, Y::Sq{items} => 3int, Y::Mp{keys, vals} => 4int })'.replace('{ Y', '{{ Y').replace('int })', 'int }})').replace('{s}', '{{s}}').replace('{items}', '{{items}}').replace('{keys, vals}', '{{keys, vals}}'), 'int', y)
def y_text(ex, obj, ct, name, argn, n):
    y = yn(ex, obj); valid(ex, y); stl.trust(ex, 'YAML::Node::as<std::string>/Scalar')
    if name == 'as' and ex.ctype(n)[0] != 'string': raise Unsupported('YAML conversion')
    ex.oblige('requires', T.raw('({0} is Sc)', 'bool', y), 'the text of a scalar is asked')
    return T.raw('({0})->s', 'Seq<int>', y)
def y_entries(ex, y): return T.raw('entries({0})', 'Seq<YI>', y)
def y_place(ex, y, n):
    k = ('v', ex.frames[-1].no, n['id'] + '#entries'); ex.vars[k] = y_entries(ex, y); ex.vnames[k] = 'entries'
    return sym.Place(k)
def y_iter(ex, obj, ct, name, argn, n):
    y = yn(ex, obj); stl.trust(ex, 'YAML::Node iteration: the entries of a map or the items of a sequence, in document order')
    valid(ex, y)
    pl = y_place(ex, y, n); e = ex.read(pl)
    return sym.Iter(pl, I(0) if name == 'begin' else ex.length(e), 'list')
def y_size(ex, obj, ct, name, argn, n):
    y = yn(ex, obj); valid(ex, y); return ex.length(y_entries(ex, y))
def y_base(ex, v, n):
    x = ex.val(v) if isinstance(v, sym.Place) and v.root in ex.vars else v
    if isinstance(x, T.T) and x.sort == 'YI' and ex.ctype(n) == ('other', 'YAML::Node'):
        return v.sub(('f', 'self_')) if isinstance(v, sym.Place) else T.proj(x, 'self_')
    return v
def y_range(ex, v, n):
    x = ex.val(v)
    if isinstance(x, T.T) and x.sort in ('Y', 'YI'):
        y = yn(ex, v); valid(ex, y); stl.trust(ex, 'YAML::Node iteration: the entries of a map or the items of a sequence, in document order')
        return y_place(ex, y, n)
    return v
def y_enum(ex, r):
    if 'NodeType' not in str(r.get('type', {}).get('qualType')): return None
    k = ['Undefined', 'Null', 'Scalar', 'Sequence', 'Map']
    return I(k.index(r['name'])) if r.get('name') in k else None
def y_construct(ex, ct, n, args):
    if ct != ('other', 'YAML::Node'): return None
    if not args: return T.raw('Y::Null', 'Y')
    if len(args) == 1: return yn(ex, args[0])
def y_assign(ex, pl, x):
    if isinstance(x, T.T) and x.sort in ('Y', 'YI'):
        x = yn(ex, x)
        if T.show(ex.val(pl)) != 'Y::Null': raise Unsupported('assignment to a YAML node that refers to a document')
    return x
def y_load(ex, name, n, argn):
    f = ex.val(ex.ev(argn[0])); stl.trust(ex, 'YAML::LoadFile: BadFile for a missing file, ParserException for a malformed one, otherwise the document')
    f = stl.tostr(ex, f)
    if not ex.branch(T.raw('yaml_exists({0})', 'bool', f)): raise CThrow('YAML::BadFile')
    if not ex.branch(T.raw('yaml_parses({0})', 'bool', f)): raise CThrow('YAML::ParserException')
    return T.raw('yaml_doc({0})', 'Y', f)
def y_newref(ex, cls):
    if cls != PN: raise Unsupported('allocation of %s' % cls)
    return T.raw('fresh_node({0}.dom())', 'int', ex.read(ex.heap(PN)))
class Fill:
    """fillRecurse(y, p): the tree becomes fill(y, p, tree)"""
    def matches(s, fn): return fn.qual == YC + '::fillRecurse'
    def apply(s, ex, fn, this, args):
        y = yn(ex, args[0]); p = ex.val(args[1])
        if isinstance(p, sym.Ptr): p = ex.addr(p)
        ex.oblige('requires', T.raw('wf({0}) && !({0} is Sq)', 'bool', y), 'maps with scalar keys, scalars, and sequences of scalars or maps')
        ex.oblige('requires', T.cmp('<', I(0), p), 'filled below a node')
        ex.oblige('requires', T.mhas(ex.read(ex.heap(PN)), p), 'the node filled exists')
        y0 = ex.entry.get('Y0')
        if y0 is not None: ex.oblige('decreases', T.raw('decreases_to!({0} => {1})', 'bool', y0, y), 'the document gets smaller')
        h = ex.heap(PN); ex.entry['filled'] = ex.read(h)
        ex.write(h, T.raw('fill({0}, {1}, {2})', 'Map<int, PN>', y, p, ex.read(h)))
        return None
def yengine(prog, templates, contracts):
    T.STRUCTS['YI'] = [('self_', 'Y'), ('first', 'Y'), ('second', 'Y')]
    m = {k: y_is for k in YKIND}
    m.update({'IsDefined': y_defined, 'operator bool': y_defined, 'Type': y_type, 'as': y_text, 'Scalar': y_text, 'begin': y_iter, 'end': y_iter, 'size': y_size})
    return engine(prog, templates, contracts, methods=m, functions={'LoadFile': y_load}, sortmap={'YAML::Node': 'Y', 'YAML::detail::iterator_value': 'YI'},
                  tobase=y_base, range=y_range, enumval=y_enum, construct=y_construct, assign=y_assign, newref=y_newref)
HP = 'Map<int, PN>'
YT_ = [Template('fill_map({Y0}, {i:int!}, {P0}, {H:%s!}) == fill_map({Y0}, 0, {P0}, {H0})' % HP),
       Template('fill_seq({Y0}, {i:int!}, {P0}, {H:%s!}) == fill_seq({Y0}, 0, {P0}, {H0})' % HP),
       Template('{H:%s!}.dom().contains({P0})' % HP),
       Template('fill_seq({Y0}->vals[{j:int=}], {i:int!}, {P0}, {H:%s!}) == fill_seq({Y0}->vals[{j}], 0, {P0}, {H.entry})' % HP)]
def doc_eq(ex, h, want): ex.oblige('ensures', T.eq(ex.vars[h.root], want), 'exactly the tree the document stands for')
def fill_goal(fn):
    def body(ex):
        h, h0, ref, _ = node(ex, 'prop')
        y = T.const('doc', 'Y'); ex.assume(T.raw('wf({0}) && !({0} is Sq)', 'bool', y))
        st = T.const('tree_', ex.e.struct(YC)); tr = ex.newtmp(st); ex.vtypes[tr.root] = ('class', YC); ex.vnames[tr.root] = 'tree'
        ex.assume(T.mhas(h0, ref)); ex.assume(T.raw('allocator()', 'bool'))
        ex.entry.update(Y0=y, P0=ref, H0=h0)
        ex.run_fn(fn, tr, [ex.newtmp(y), ref]); ex.line = None
        doc_eq(ex, h, T.raw('fill({0}, {1}, {2})', HP, y, ref, h0))
        ex.oblige('ensures', T.eq(ex.vars[tr.root], st), 'the tree object is unchanged')
    return body
def newroot(ex, r1, h0, h1):
    x = T.mget(h1, r1)
    ex.oblige('ensures', T.and_(T.cmp('<', I(0), r1), T.not_(T.mhas(h0, r1))), 'a new root')
    ex.oblige('ensures', T.eq(h1, T.minsert(h0, r1, x)), 'nothing else is created or changed')
    ex.oblige('ensures', T.and_(T.eq(T.length(T.proj(x, 'prop_list')), I(0)), T.raw('{0}.dom() =~= Set::empty()', 'bool', T.proj(x, 'dictionary')), T.eq(T.proj(x, 'parent'), I(0)), T.not_(T.proj(x, 'is_terminal'))), 'an empty, non-terminal root')
def read_goal(fn, ctor=False):
    def body(ex):
        h = ex.heap(PN); h0 = ex.read(h)
        ex.assume(T.raw('tree({0})', 'bool', h0))
        st = T.const('tree_', ex.e.struct(YC)); tr = ex.newtmp(st); ex.vtypes[tr.root] = ('class', YC); ex.vnames[tr.root] = 'tree'
        root = T.proj(st, 'root')
        if not ctor: ex.assume(T.and_(T.cmp('<', I(0), root), T.mhas(h0, root)))
        args, a = symargs(ex, fn, ['file'] if fn.params else [])
        out = None
        if a:
            f = a[0]
            doc = T.raw('yaml_doc({0})', 'Y', f)
            ex.assume(T.raw('yaml_parses({0}) ==> wf({1}) && {1} is Mp', 'bool', f, doc))
        try: ex.run_fn(fn, tr, args)
        except CThrow as c: out = c.typ
        ex.line = None
        if a and out is not None:
            ex.oblige('ensures', B(out in (FNF, 'YAML::ParserException')), 'no other exception (%s)' % out)
            ex.oblige('ensures', T.raw('!yaml_exists({0})' if out == FNF else 'yaml_exists({0}) && !yaml_parses({0})', 'bool', f), 'file not found exactly for a missing file')
            if not ctor:
                ex.oblige('ensures', T.eq(ex.vars[h.root], h0), 'a failed load changes no node')
                ex.oblige('ensures', T.eq(ex.vars[tr.root], st), 'a failed load leaves the tree')
        elif a:
            ex.oblige('ensures', T.raw('yaml_exists({0}) && yaml_parses({0})', 'bool', f), 'a missing file throws')
            if not ctor:
                doc_eq(ex, h, T.raw('fill({0}, {1}, {2})', HP, doc, root, h0))
                ex.oblige('ensures', T.eq(ex.vars[tr.root], st), 'the tree keeps its root')
            else:
                r1 = T.proj(ex.vars[tr.root], 'root'); hf = ex.entry.get('filled')
                if hf is None: raise Unsupported('the constructor does not load the file')
                newroot(ex, r1, h0, hf)
                doc_eq(ex, h, T.raw('fill({0}, {1}, {2})', HP, doc, r1, hf))
        else:
            newroot(ex, T.proj(ex.vars[tr.root], 'root'), h0, ex.vars[h.root])
    return body
def goals_P03(P):
    prog = P(YT); g = []
    fn = one(prog, YC + '::fillRecurse')
    g.append(Goal('PropertyTreeYAML::fillRecurse', fn, yengine(prog, YT_, [Fill()]), fill_goal(fn), YSPECS))
    fn = one(prog, YC + '::readFile')
    g.append(Goal('PropertyTreeYAML::readFile', fn, yengine(prog, [], [Fill()]), read_goal(fn), YSPECS))
    for fn in prog.fns:
        if fn.cls == YC and fn.node['kind'] == 'CXXConstructorDecl' and not fn.node.get('isImplicit') and fn.body is not None:
            g.append(Goal('PropertyTreeYAML constructor (%d arguments)' % len(fn.params), fn, yengine(prog, [], [Fill()]), read_goal(fn, True), YSPECS))
    return g
