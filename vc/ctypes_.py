"""C++ type strings (as clang prints them) -> small type objects."""
import re
from functools import lru_cache

INTS = {'bool': ('bool',), 'char': ('int', 8, True), 'signed char': ('int', 8, True), 'unsigned char': ('int', 8, False),
        'short': ('int', 16, True), 'unsigned short': ('int', 16, False), 'int': ('int', 32, True), 'unsigned int': ('int', 32, False), 'unsigned': ('int', 32, False),
        'long': ('int', 64, True), 'unsigned long': ('int', 64, False), 'long long': ('int', 64, True), 'unsigned long long': ('int', 64, False),
        'size_t': ('int', 64, False), 'size_type': ('int', 64, False), 'ptrdiff_t': ('int', 64, True), 'difference_type': ('int', 64, True),
        'streamsize': ('int', 64, True), 'uint64_t': ('int', 64, False), 'int64_t': ('int', 64, True), 'uint32_t': ('int', 32, False), 'int32_t': ('int', 32, True),
        'uint8_t': ('int', 8, False), 'int8_t': ('int', 8, True), 'rep': ('int', 64, True), 'ssize_t': ('int', 64, True),
        'std::basic_string<char>::size_type': ('int', 64, False)}
STRING = ('string',)

class TypeUnknown(Exception): pass

def split_args(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def strip(t):
    t = t.strip()
    t = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', '', t)
    t = re.sub(r'\b__cxx11::', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([<>,&*])\s*', r'\1', t)
    return t

class Types:
    def __init__(s, prog): s.prog = prog; s.cache = {}

    def parse(s, t):
        if t in s.cache: return s.cache[t]
        r = s._parse(t); s.cache[t] = r
        return r

    def _parse(s, t0):
        t = strip(t0)
        if t.endswith('&&'): return ('ref', s._parse(t[:-2]))
        if t.endswith('&'): return ('ref', s._parse(t[:-1]))
        if t.endswith('*'):
            inner = t[:-1]
            if inner == 'char': return ('cstr',)
            if inner == 'char*': return ('ptr', ('cstr',))
            return ('ptr', s._parse(inner))
        m = re.match(r'^(.*)\[(\d*)\]$', t)
        if m:
            if m.group(1) == 'char': return ('cstr',)
            return ('array', s._parse(m.group(1)))
        if t in INTS: return INTS[t]
        b = t[5:] if t.startswith('std::') else t
        if b in INTS: return INTS[b]
        if b in ('string', 'basic_string<char>', 'basic_string<char,char_traits<char>,allocator<char>>',
                 'basic_string<char,std::char_traits<char>,std::allocator<char>>'): return STRING
        if t == 'void': return ('void',)
        if t in ('double', 'float', 'long double'): return ('double',)
        if t.endswith('nullptr_t'): return ('null',)
        m = re.match(r'^([\w:]+)<(.*)>((?:::\w+)*)$', t)
        if m:
            name, args, rest = m.group(1), split_args(m.group(2)), m.group(3)
            n = name[5:] if name.startswith('std::') else name
            if rest:
                r = rest.split('::')[-1]
                if name == 'YAML::detail::iterator_base' and r == 'proxy': return ('ptr', s._parse(args[0]))
                if r == 'element_type' and n in ('shared_ptr', 'unique_ptr', '__shared_ptr_access', '__shared_ptr'): return s._parse(args[0])
                base = s._parse(name + '<' + m.group(2) + '>') if n in ('list', 'vector', 'deque', 'queue', 'map', 'basic_string') else None
                if base:
                    if r in ('value_type', 'reference', 'const_reference'):
                        if base[0] == 'map': return ('pair', base[1], base[2])
                        return base[1] if base[0] != 'string' else INTS['char']
                    if r == 'mapped_type': return base[2]
                    if r == 'key_type': return base[1]
                    if r in ('size_type',): return INTS['size_t']
                    if r in ('difference_type',): return INTS['ptrdiff_t']
                    if 'iterator' in r: return ('iter', base, 'reverse' in r)
            else:
                if n in ('list', 'vector', 'deque', 'queue', 'stack', 'set', 'initializer_list', 'forward_list'):
                    if n == 'queue': return ('queue', s._parse(args[0]))
                    return (n, s._parse(args[0]))
                if n in ('map', 'unordered_map'): return ('map', s._parse(args[0]), s._parse(args[1]))
                if n in ('pair',): return ('pair', s._parse(args[0]), s._parse(args[1]))
                if n in ('shared_ptr', 'unique_ptr', '__shared_ptr_access', '__shared_ptr'): return ('sptr', s._parse(args[0]), n.replace('__shared_ptr_access', 'shared_ptr').replace('__shared_ptr', 'shared_ptr'))
                if n in ('_List_iterator', '_List_const_iterator'): return ('iter', ('list', s._parse(args[0])), False)
                if n in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
                    p = s._parse(args[0]); return ('iter', ('map', p[1], p[2]), False)
                if n in ('__normal_iterator', '__gnu_cxx::__normal_iterator', 'gnu_cxx::__normal_iterator'):
                    return ('iter', s._parse(args[1]), False)
                if n in ('reverse_iterator',):
                    b2 = s._parse(args[0]); return ('iter', b2[1], True)
                if n == 'YAML::detail::iterator_base':
                    if rest == '': return ('iter', ('list', s._parse(args[0])), False)
                if n in ('function',): return ('func', m.group(2))
                if n in ('lock_guard', 'unique_lock', 'scoped_lock'): return ('lock', n)
                if n in ('basic_stringstream', 'basic_ostringstream', 'basic_istringstream'): return ('sstream', n)
                if n in ('basic_ostream',): return ('ostream',)
                if n in ('basic_istream',): return ('istream',)
                if n in ('chrono::duration', 'duration'): return ('duration', args)
                if n in ('is_signed',): return ('other', t)
        if b in ('stringstream', 'ostringstream', 'istringstream'): return ('sstream', b)
        if b in ('ostream',): return ('ostream',)
        if b == 'mutex': return ('mutex',)
        if b == 'condition_variable': return ('cv',)
        if b.startswith('chrono::'): return ('duration', [b])
        if 'iterator' in b and '<' not in b and 'iterator_value' not in b: return ('iter?',)
        # SoDa classes / enums
        r = s.find_rec(t)
        if r: return ('class', r)
        for i, n in s.prog.decl.items():
            if n.get('kind') == 'EnumDecl' and n.get('name') and (t == n['name'] or t.endswith('::' + n['name'])): return ('int', 32, False) + s.enum_range(n)
        return ('other', t)

    def enum_range(s, n):
        """an enumeration without a fixed underlying type has only the values its enumerators need ([dcl.enum]/8)"""
        vs = [s.prog.enums.get(c['id']) for c in n.get('inner', []) if c.get('kind') == 'EnumConstantDecl']
        if n.get('fixedUnderlyingType') or not vs or any(not isinstance(v, int) or v < 0 for v in vs): return ()
        return ((0, (1 << max(1, max(vs).bit_length())) - 1),)

    def find_rec(s, t):
        if t in s.prog.recs: return t
        norm = lambda x: strip(x).replace('SoDaVerif::', '').replace('SoDa::', '')
        c = [r for r in s.prog.recs if norm(r) == norm(t)]
        if len(c) == 1: return c[0]
        c = [r for r in s.prog.recs if norm(r).endswith('::' + norm(t))]
        if len(c) == 1: return c[0]
        return None

def irange(ty):
    if ty[0] == 'bool': return (0, 1)
    b, sg = ty[1], ty[2]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
