"""Load the clang JSON AST of a driver translation unit (mechanical extraction of the real code)."""
import json, subprocess, os, sys, hashlib

class N:
    __slots__ = ('kind', 'id', 'name', 'inner', 'a', 'parent', 'qual')
    def __init__(s): pass
    def get(s, k, d=None): return s.a.get(k, d)
    @property
    def type(s):
        t = s.a.get('type')
        return t.get('qualType', '') if t else ''
    @property
    def ctype(s):
        t = s.a.get('type')
        if not t: return ''
        return t.get('desugaredQualType') or t.get('qualType', '')
    def __repr__(s): return '<%s %s %s>' % (s.kind, s.name, s.type)
    def loc(s):
        r = s.a.get('range') or {}
        b = r.get('begin') or {}
        b = b.get('expansionLoc', b)
        return b.get('line')

SKIP = {'FullComment', 'ParagraphComment', 'TextComment', 'ParamCommandComment', 'BlockCommandComment',
        'InlineCommandComment', 'EmptyDecl', 'AccessSpecDecl', 'VerbatimBlockComment', 'VerbatimBlockLineComment', 'VerbatimLineComment'}

_cur = [None]
def _track(l):
    """clang prints "file" only when it changes: follow the printing order"""
    if not isinstance(l, dict): return
    if 'spellingLoc' in l or 'expansionLoc' in l:
        _track(l.get('spellingLoc')); _track(l.get('expansionLoc')); return
    if 'file' in l: _cur[0] = l['file']
def conv(o, parent, idx):
    n = N()
    for k, v in o.items():
        if k == 'loc': _track(v)
        elif k == 'range':
            _track(v.get('begin')); 
            o['_bf'] = _cur[0]
            _track(v.get('end'))
            break
    n.kind = o['kind']; n.id = o.get('id'); n.name = o.get('name'); n.parent = parent; n.qual = None
    n.a = o
    inner = o.get('inner')
    if inner:
        n.inner = [conv(x, n, idx) if x.get('kind') else None for x in inner if not x.get('kind') or x['kind'] not in SKIP]
        # clang prints {} placeholders for missing for-init etc.; keep them as None
        n.inner = [x for x in n.inner]
        del o['inner']
    else: n.inner = []
    if n.id: idx.setdefault(n.id, n) if n.kind not in ('CompoundStmt',) else None
    return n

class Unit:
    def __init__(s, docs):
        s.idx = {}
        s.roots = []
        for d in docs:
            _cur[0] = None
            s.roots.append(conv(d, None, s.idx))
        s.funcs = {}      # qualified name -> [FunctionDecl with body, non-dependent]
        s.classes = {}    # id -> class node
        s.byname = {}
        s.allfn = []
        for r in s.roots: s.walk(r, ())
        s.defs = {}
        for f in s.allfn:
            if body_of(f) is not None:
                s.defs[f.id] = f
        # out-of-line / redeclaration links
        for f in s.allfn:
            p = f.get('previousDecl')
            if p and body_of(f) is not None: s.defs.setdefault(p, f)
    _src = {}
    def text(s, n):
        """source text of a node's range"""
        r = n.a.get('range') or {}
        b = r.get('begin') or {}; e = r.get('end') or {}
        b = b.get('spellingLoc', b) if 'expansionLoc' not in b else b['expansionLoc']
        e = e.get('spellingLoc', e) if 'expansionLoc' not in e else e['expansionLoc']
        f = n.a.get('_bf')
        if f is None or 'offset' not in b or 'offset' not in e: return ''
        if f not in s._src:
            try: s._src[f] = open(f, 'rb').read()
            except OSError: return ''
        return s._src[f][b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf8', 'replace')
    def walk(s, n, path, dep=False):
        if n is None: return
        k = n.kind
        if k in ('NamespaceDecl',):
            for x in n.inner: s.walk(x, path + ((n.name or '(anon)'),), dep)
            return
        if k in ('ClassTemplateDecl',):
            for x in n.inner:
                if x is None: continue
                if x.kind == 'ClassTemplateSpecializationDecl': s.walk(x, path, dep)
                elif x.kind == 'CXXRecordDecl': s.walk(x, path, True)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            n.qual = '::'.join(path + (n.name or '(anon)',))
            if not dep: s.classes[n.id] = n; s.byname.setdefault(n.qual, []).append(n)
            for x in n.inner: s.walk(x, path + (n.name or '(anon)',), dep)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for x in n.inner:
                if x is None: continue
                if x.kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if first: first = False; x.qual = '::'.join(path + (x.name,)); continue   # the template pattern
                    s.walk(x, path, dep)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            n.qual = '::'.join(path + (n.name or '?',))
            if dep: return
            s.allfn.append(n)
            if body_of(n) is not None: s.funcs.setdefault(n.qual, []).append(n)
            return
        if k == 'LinkageSpecDecl':
            for x in n.inner: s.walk(x, path, dep)

def body_of(f):
    for x in f.inner:
        if x is not None and x.kind in ('CompoundStmt', 'CXXTryStmt'): return x
    return None
def params_of(f):
    return [x for x in f.inner if x is not None and x.kind == 'ParmVarDecl']

def parse_docs(s):
    dec = json.JSONDecoder(); i = 0; docs = []; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        if s[i] != '{':
            j = s.find('\n', i)
            if j < 0: break
            i = j + 1; continue
        o, i = dec.raw_decode(s, i); docs.append(o)
    return docs

def load(driver, incs=(), filt='openml', std='c++17'):
    cmd = ['clang++', '-std=' + std, '-w', '-fsyntax-only', '-fno-access-control', '-ferror-limit=5'] + ['-I' + i for i in incs] + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, driver]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('clang failed on %s:\n%s' % (driver, p.stderr[-3000:]))
    sys.setrecursionlimit(20000)
    return Unit(parse_docs(p.stdout))

def dump(n, ind=0, out=None, maxd=40):
    out = sys.stdout if out is None else out
    if n is None: out.write('  ' * ind + 'None\n'); return
    extra = []
    for k in ('opcode', 'value', 'castKind', 'isArrow', 'valueCategory'):
        if k in n.a: extra.append('%s=%s' % (k, n.a[k]))
    rd = n.a.get('referencedDecl')
    if rd: extra.append('-> %s %s %s' % (rd.get('kind'), rd.get('name'), rd.get('id')))
    if 'referencedMemberDecl' in n.a: extra.append('mem=%s' % n.a['referencedMemberDecl'])
    out.write('  ' * ind + '%s %s [%s] %s\n' % (n.kind, n.name or '', n.type[:90], ' '.join(map(str, extra))))
    if ind < maxd:
        for x in n.inner: dump(x, ind + 1, out, maxd)
