"""Loads clang's JSON AST of the real sources and indexes the SoDa declarations."""
import json, subprocess, os, re, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')

class ExtractionError(Exception):
    pass

def docs(t):
    d = json.JSONDecoder(); i = 0; n = len(t)
    while True:
        while i < n and t[i] in ' \n\r\t': i += 1
        if i >= n: return
        o, i = d.raw_decode(t, i)
        yield o

def clang_ast(src, incs, flt='SoDa'):
    cmd = ['clang++', '-std=gnu++11', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + flt] + ['-I' + i for i in incs] + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (src, p.stderr.decode(errors='replace')[:2000]))
    return list(docs(p.stdout.decode('utf-8', 'surrogateescape')))

SKIP = {'FullComment', 'ParagraphComment', 'TextComment'}

class Fn:
    def __init__(s, node, qual, cls):
        s.node = node; s.qual = qual; s.cls = cls
        s.name = node.get('name', '')
        s.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        s.body = None; s.inits = []
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): s.body = c
            if c.get('kind') == 'CXXCtorInitializer': s.inits.append(c)
        s.type = node['type'].get('desugaredQualType', node['type']['qualType'])
        s.static = node.get('storageClass') == 'static' or cls is None
        s.virtual = node.get('virtual', False)
        s.line = None; s.file = None
    def sig(s): return s.qual + s.type[s.type.index('('):] if '(' in s.type else s.qual
    def __repr__(s): return 'Fn(%s)' % s.sig()

class Rec:
    def __init__(s, name):
        s.name = name; s.fields = []; s.bases = []; s.methods = []; s.id = None; s.short = None; s.node = None
        s.isvirtual = False

class Program:
    """All SoDa declarations of one translation unit."""
    def __init__(s):
        s.fn_by_id = {}       # decl id -> Fn with body (redeclarations resolved)
        s.fns = []            # all Fn with body
        s.recs = {}           # qualified name -> Rec
        s.rec_by_id = {}
        s.decl = {}           # id -> node (any named decl)
        s.canon = {}          # id -> canonical id of redeclared
        s.parent = {}         # decl id -> qualified scope
        s.enums = {}          # enumconstant id -> value
        s.enumtypes = {}
        s.globals = {}        # id of static members / namespace vars
        s.qual_of_id = {}
        s.tnames = {}; s.targs = {}   # template parameter names / arguments per class
        s.traits = {}
        s.default_args = {}   # canonical fn id -> {param index: expr}

    def load(s, src, incs):
        s.src = src; s.incs = incs; s.lazydone = {}
        for d in clang_ast(src, incs):
            s._scan(d, None)
        return s

    def lazy(s, name):
        """functions outside namespace SoDa (file-scope helpers, stream operators), found by a second dump"""
        if name in s.lazydone: return s.lazydone[name]
        out = []
        pre = 'L%d:' % len(s.lazydone)
        def walk(n):
            if isinstance(n, dict):
                for k in ('id', 'previousDecl', 'parentDeclContextId', 'referencedMemberDecl'):
                    if isinstance(n.get(k), str): n[k] = pre + n[k]
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        for d in clang_ast(s.src, s.incs, name):
            if d.get('kind') == 'FunctionDecl' and d.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                ty = d['type']['qualType']
                if name.startswith('operator') and 'SoDa::' not in ty: continue
                if d.get('loc', {}).get('includedFrom') and '/usr/' in str(d.get('loc', {}).get('file', '')): continue
                walk(d)
                f = Fn(d, name, None); f.cid = d['id']
                s.decl[d['id']] = d
                out.append(f)
        s.lazydone[name] = out
        return out

    def find_operator(s, o, cls):
        for f in s.fns:
            if f.cls is None and f.name == 'operator' + o and any(cls in p['type']['qualType'] for p in f.params): return f
        c = [f for f in s.lazy('operator' + o) if any(p['type']['qualType'].replace('const ', '').rstrip(' &') in (cls, cls.replace('SoDa::', '')) for p in f.params)]
        return c[0] if len(c) == 1 else None

    def by_name(s, cls, name, nargs):
        r = s.recs.get(cls)
        if not r: return None
        c = {}
        for f in r.methods:
            if f.name != name: continue
            b = s.fn_by_id.get(f.cid) or s.fn_by_id.get('decl:' + f.cid) or f
            if len(b.params) == nargs or (nargs <= len(b.params) <= nargs + len(s.default_args.get(f.cid, {}))): c[f.cid] = b
        if len(c) == 1: return list(c.values())[0]
        for b in r.bases:
            q = b.replace('class ', '').replace('struct ', '')
            x = s.by_name(q, name, nargs)
            if x: return x
        return None

    def _scan(s, n, scope):
        """first a pass to register every decl; scope None means top-level doc"""
        k = n.get('kind')
        if n.get('id') in s.decl and s.decl[n['id']].get('inner') is not None:
            if not (n.get('inner')): return
        s._reg(n, scope)

    def _reg(s, n, scope, rec=None):
        if not isinstance(n, dict): return
        k = n.get('kind'); id_ = n.get('id')
        if k is None or k in SKIP: return
        nm = n.get('name')
        if k in ('NamespaceDecl',):
            sc = nm if scope is None else scope + '::' + (nm or '')
            for c in n.get('inner', []): s._reg(c, sc)
            return
        if k in ('LinkageSpecDecl',):
            for c in n.get('inner', []): s._reg(c, scope)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if scope is None:
                scope = s._scope_of(n)
            q = (scope + '::' if scope else '') + (nm or ('anon' + str(id_)))
            if k == 'ClassTemplateSpecializationDecl':
                args = []; q0 = q
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        args.append(c.get('type', {}).get('qualType') or str(c.get('value', '')))
                q += '<' + ', '.join(args) + '>'
                s.targs[q] = dict(zip(s.tnames.get(q0, []), args))
            s.qual_of_id[id_] = q
            s.decl.setdefault(id_, n)
            complete = n.get('completeDefinition') or any(c.get('kind') in ('FieldDecl', 'CXXMethodDecl', 'CXXConstructorDecl') for c in n.get('inner', []))
            if complete:
                r = s.recs.get(q)
                if r is None or not r.fields and not r.methods:
                    r = Rec(q); s.recs[q] = r
                    r.id = id_; r.node = n
                    r.short = nm
                    r.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                    s.rec_by_id[id_] = r
                    for c in n.get('inner', []): s._reg(c, q, r)
                else:
                    s.rec_by_id[id_] = r
                    for c in n.get('inner', []): s._reg(c, q, r)
            return
        if k == 'ClassTemplateDecl':
            if scope is None: scope = s._scope_of(n)
            s.decl[id_] = n
            s.tnames[(scope + '::' if scope else '') + (nm or '')] = [c.get('name') for c in n.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': s._reg(c, scope)
                elif c.get('kind') == 'CXXRecordDecl':
                    # the pattern: only register nested things that are not dependent (skip)
                    s.qual_of_id[c['id']] = (scope + '::' if scope else '') + (nm or '')
            return
        if k == 'FunctionTemplateDecl':
            # instantiations follow the pattern; the pattern itself is dependent
            first = True
            names = [c.get('name') for c in n.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    c['tnames'] = names
                    if first: first = False; s.decl[c['id']] = c; continue
                    s._reg(c, scope, rec)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            cls = None
            if k != 'FunctionDecl':
                pid = n.get('parentDeclContextId')
                if rec is not None: cls = rec.name
                elif pid and pid in s.qual_of_id: cls = s.qual_of_id[pid]
                elif n.get('previousDecl') in s.decl: cls = s.parent.get(n['previousDecl'])
            sc = cls or scope
            if sc is None: sc = s._scope_of(n)
            f = Fn(n, (sc + '::' if sc else '') + (nm or ''), cls)
            s.decl[id_] = n; s.parent[id_] = sc
            cid = id_
            if n.get('previousDecl'):
                cid = s.canon.get(n['previousDecl'], n['previousDecl'])
            s.canon[id_] = cid
            if rec is not None: rec.methods.append(f)
            da = s.default_args.setdefault(cid, {})
            for i, p in enumerate(f.params):
                if p.get('init') and p.get('inner'):
                    da.setdefault(i, [c for c in p['inner'] if c.get('kind') not in SKIP][-1])
            if f.body is not None and not n.get('isImplicit'):
                f.cid = cid
                s.fns.append(f)
                s.fn_by_id[cid] = f
            elif f.body is None:
                # remember declaration (pure virtual etc.)
                s.fn_by_id.setdefault('decl:' + cid, f)
            f.cid = cid
            return
        if k == 'FieldDecl' and rec is not None:
            s.decl[id_] = n; s.parent[id_] = rec.name
            if not any(f.get('name') == nm for f in rec.fields): rec.fields.append(n)
            return
        if k == 'EnumDecl':
            v = -1; s.decl[id_] = n
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    val = None
                    for e in c.get('inner', []):
                        if 'value' in e:
                            try: val = int(e['value'])
                            except ValueError: val = None
                    v = val if val is not None else v + 1
                    s.enums[c['id']] = v
            return
        if k in ('VarDecl',):
            s.decl[id_] = n
            sc = scope if scope is not None else s._scope_of(n)
            prev = n.get('previousDecl')
            s.canon[id_] = s.canon.get(prev, prev) if prev else id_
            s.globals[id_] = (sc, n)
            return
        if id_: s.decl.setdefault(id_, n)

    def _scope_of(s, n):
        pid = n.get('parentDeclContextId')
        if pid and pid in s.qual_of_id: return s.qual_of_id[pid]
        prev = n.get('previousDecl')
        if prev and prev in s.parent: return s.parent[prev]
        return 'SoDa'

    def trait_value(s, n, fn):
        """a type trait such as std::is_signed<T>::value: its text, with T as instantiated here, evaluated by the compiler"""
        b = n['range']['begin']; e = n['range']['end']
        if 'offset' not in b or 'offset' not in e: return None
        found = set()
        for d in ('include', 'src'):
            for f in os.listdir(os.path.join(REPO, d)):
                p = os.path.join(REPO, d, f)
                if not os.path.isfile(p): continue
                t = open(p, 'rb').read()[b['offset']:e['offset'] + e.get('tokLen', 0)].decode(errors='replace')
                if re.fullmatch(r'(std\s*::\s*)?is_\w+\s*<[\w\s:,<>*&]*>\s*::\s*value|(std\s*::\s*)?is_\w+_v\s*<[\w\s:,<>*&]*>', t): found.add(t)
        if len(found) != 1: return None
        tp = dict(s.targs.get(fn.cls, {})) if fn.cls else {}
        ta = [c['type'].get('desugaredQualType', c['type']['qualType']) for c in fn.node.get('inner', []) if c.get('kind') == 'TemplateArgument' and 'type' in c]
        tp.update(zip(fn.node.get('tnames', []), ta))
        key = (found.pop(), tuple(sorted(tp.items())))
        if key not in s.traits:
            prog = '#include <type_traits>\n#include <string>\n#include <vector>\nusing namespace std;\n' + ''.join('using %s = %s;\n' % (a, v) for a, v in key[1])
            ok = [subprocess.run(['clang++', '-std=gnu++17', '-fsyntax-only', '-w', '-x', 'c++', '-'], input=(prog + 'static_assert(%s(%s), "");\n' % (neg, key[0])).encode(), stderr=subprocess.DEVNULL).returncode == 0 for neg in ('', '!')]
            s.traits[key] = ok[0] if ok[0] != ok[1] else None
        return s.traits[key]
    # lookup
    def find(s, qual, nparams=None, pred=None):
        out = []
        seen = set()
        for f in s.fns:
            if f.qual == qual and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f)):
                if f.cid in seen: continue
                seen.add(f.cid); out.append(s.fn_by_id[f.cid])
        return out
    def one(s, qual, nparams=None, pred=None):
        r = s.find(qual, nparams, pred)
        if not r: raise ExtractionError('function %s not found' % qual)
        if len(r) > 1: raise ExtractionError('function %s ambiguous: %s' % (qual, r))
        return r[0]
    def rec(s, name):
        if name in s.recs: return s.recs[name]
        raise ExtractionError('class %s not found' % name)

def ptype(p): return p['type'].get('desugaredQualType', p['type']['qualType'])

def make_incs(tmp):
    """include path for the real headers; UtilsVersion.hxx is generated by the build from a template"""
    inc = os.path.join(tmp, 'inc'); os.makedirs(inc, exist_ok=True)
    out = os.path.join(inc, 'UtilsVersion.hxx')
    if not os.path.exists(out):
        src = None
        for r, d, fs in os.walk(REPO):
            if '_build' in r or '.git' in r: continue
            for f in fs:
                if f.endswith('.hxx.in') and 'ersion' in f: src = os.path.join(r, f)
        txt = open(src).read() if src else ''
        txt = re.sub(r'@[A-Za-z_]*VERSION[A-Za-z_]*@|@[A-Za-z_]+@', '0', txt)
        txt = re.sub(r'\$\{[A-Za-z_]+\}', '0', txt)
        open(out, 'w').write(txt)
    return [os.path.join(REPO, 'include'), inc]
