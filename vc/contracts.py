"""Contract building blocks shared by the property files."""
import terms as T
from terms import I, B, TRUE, FALSE
import sym
from sym import Template

class Contract:
    """functional contract of a function: result == spec(args), no other effect"""
    def __init__(s, qual, specfn, sort, pick=None, typed=None, npar=None):
        s.qual = qual; s.specfn = specfn; s.sort = sort; s.pick = pick; s.typed_ = typed; s.npar = npar
    def matches(s, fn):
        return fn.qual == s.qual and (s.npar is None or len(fn.params) == s.npar) and (s.pick is None or s.pick(fn))
    def fill(s, ex, fn, args):
        out = []
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else sym.Default()
            if isinstance(a, sym.Default): a = ex.ev(ex.prog.default_args[fn.cid][i])
            out.append(ex.val(a))
        return out
    def apply(s, ex, fn, this, args):
        r = T.app(s.specfn, s.fill(ex, fn, args), s.sort)
        if s.typed_: ex.typed(r, s.typed_)
        return r

def symargs(ex, fn, names=None):
    """fresh symbolic arguments, references bound to fresh places"""
    out = []; terms = []
    for i, p in enumerate(fn.params):
        ct = ex.types.parse(sym.ptype(p))
        c = ct[1] if ct[0] == 'ref' else ct
        nm = (names[i] if names else 'a%d' % i)
        t = T.const(nm, ex.e.sort(c)); ex.typed(t, c)
        terms.append(t)
        out.append(ex.newtmp(t) if ct[0] == 'ref' else t)
        if ct[0] == 'ref': ex.vtypes[out[-1].root] = c; ex.vnames[out[-1].root] = p.get('name', nm)
    return out, terms

def pure_goal(fn, contract, hints=None, keep_args=True):
    """body for Engine.explore: the function's result equals its spec function"""
    def body(ex):
        args, terms = symargs(ex, fn)
        ex.entry.update({'P%d' % i: t for i, t in enumerate(terms)})
        r = ex.run_fn(fn, None, args)
        r = ex.val(r)
        ex.line = None
        if hints: ex.hints += hints(ex, terms, r)
        ex.oblige('ensures', T.eq(r, T.app(contract.specfn, terms, contract.sort)), 'result == %s(arguments)' % contract.specfn, then=False)
        for a, t, p in zip(args, terms, fn.params):
            if isinstance(a, sym.Place): ex.oblige('ensures', T.eq(ex.read(a), t), 'frame: argument %s unchanged' % p.get('name'))
    return body

def raw(text, *args): return T.raw(text, 'bool', *args)

class Goal:
    def __init__(s, name, fn, eng, body, specs, rlimit=10):
        s.name = name; s.fn = fn; s.eng = eng; s.body = body; s.specs = specs; s.rlimit = rlimit
