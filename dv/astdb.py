"""Mechanical extraction of the code under verification.

Every run invokes clang on /repo's *current* sources (the build's own language flags) and loads the typed AST,
including every template instantiation, as JSON.  Nothing is hand-copied: the executor in engine.py interprets these
AST nodes directly.  What the extraction drops is listed in DESIGN.md.
"""
import json, os, subprocess, sys, hashlib, re

REPO = os.environ.get('DV_REPO', '/repo')
FLAGS = ['-std=c++14', '-fopenmp', '-msse4.2', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-w',
         '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/eigen3',
         '-idirafter' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc')]     # omp.h
FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
REC = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')


class ExtractError(Exception):
    pass


def dump(src, extra=()):
    """returns list of top-level JSON decl nodes of namespace blasted in translation unit src"""
    cmd = ['clang++'] + FLAGS + list(extra) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                                               '-ast-dump-filter=lasted', src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (src, p.stderr.decode()[:2000]))
    s = p.stdout.decode()
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    ws = ' \n\r\t'
    while i < n:
        while i < n and s[i] in ws:
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


_ALIAS = re.compile(r'\b(?:Eigen::)?Matrix<([^<>]*)><([^<>]*)>')
_tyc = {}


def unalias(m):
    """clang prints a template alias as Target<its parameters><the arguments>"""
    par = [x.strip() for x in m.group(1).split(',')]
    arg = [x.strip() for x in m.group(2).split(',')]
    names = []
    for x in par:
        if re.match(r'^[A-Za-z_]\w*$', x) and x not in names:
            names.append(x)
    if len(names) != len(arg):
        return m.group(0)
    d = dict(zip(names, arg))
    return 'Eigen::Matrix<' + ', '.join(d.get(x, x) for x in par) + '>'


def ty(n):
    t = n.get('type') or {}
    t = t.get('desugaredQualType') or t.get('qualType') or ''
    if '><' in t:
        if t not in _tyc:
            _tyc[t] = _ALIAS.sub(unalias, t)
        return _tyc[t]
    return t


def inner(n):
    return [c for c in n.get('inner', ()) if c]


class Func:
    __slots__ = ('node', 'name', 'cls', 'targs', 'params', 'body', 'mangled', 'tu', 'kind', 'inits', 'file', 'line', 'isstatic')

    def __init__(s, node, cls, tu):
        s.node = node
        s.name = node.get('name')
        s.cls = cls
        s.tu = tu
        s.kind = node['kind']
        s.targs = [targ(c) for c in inner(node) if c.get('kind') == 'TemplateArgument']
        s.params = [c for c in inner(node) if c.get('kind') == 'ParmVarDecl']
        s.body = None
        for c in inner(node):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                s.body = c
        s.inits = [c for c in inner(node) if c.get('kind') == 'CXXCtorInitializer']
        s.mangled = node.get('mangledName')
        s.isstatic = node.get('storageClass') == 'static'
        s.file = None
        s.line = None

    @property
    def qual(s):
        c = (s.cls.qual + '::') if s.cls else ''
        t = ('<' + ','.join(s.targs) + '>') if s.targs else ''
        return c + (s.name or '') + t

    def __repr__(s):
        return s.qual


class Rec:
    __slots__ = ('node', 'name', 'targs', 'fields', 'bases', 'methods', 'qual', 'tu', 'ids')

    def __init__(s, node, tu, outer=None):
        s.node = node
        s.name = node.get('name') or ''
        s.targs = [targ(c) for c in inner(node) if c.get('kind') == 'TemplateArgument']
        s.qual = (outer.qual + '::' if outer else '') + s.name + (('<' + ','.join(s.targs) + '>') if s.targs else '')
        s.fields = [c for c in inner(node) if c.get('kind') == 'FieldDecl']
        s.bases = [ty(b) for b in node.get('bases', ())]
        s.methods = []
        s.tu = tu


def targ(c):
    if 'value' in c:
        return str(c['value'])
    t = c.get('type')
    if t:
        return (t.get('desugaredQualType') or t.get('qualType')).replace(' ', '')
    # nested expression argument
    def v(n):
        if 'value' in n:
            return n['value']
        for x in inner(n):
            r = v(x)
            if r is not None:
                return r
        return None
    r = v(c)
    return str(r) if r is not None else '?'


IDENT = re.compile(r'\b[A-Za-z_]\w*\b')


def base_key(t):
    t = t.replace('blasted::', '').replace(' ', '')
    t = t.replace('Eigen::ColMajor', '0').replace('Eigen::RowMajor', '1')
    return t


class TU:
    """one translation unit"""

    def __init__(self, src, db=None, extra=()):
        self.src = src
        self.decl = {}       # id -> node
        self.func = {}       # id -> Func
        self.recs = {}       # id -> Rec
        self.bymangled = {}  # mangled -> Func with body
        self.recname = {}    # qual -> Rec
        self.dependent = set()
        self.file = None
        self.line = None
        self.scopes = [{}]   # alias name -> desugared type, innermost last
        self.recscope = {}   # record id -> alias scope
        self.recname_scope = {}
        for d in dump(src, extra):
            self.walk(d, None, False, False)

    def walk(self, n, rec, dep, infunc):
        k = n.get('kind')
        if k in REC or k in FUNC:
            sc = {}
            pushed = 1
            if k in REC:
                for b in n.get('bases', ()):
                    sc.update(self.recname_scope.get(base_key(ty(b)), {}))
                self.recscope[n.get('id')] = sc
                key = n.get('name', '') + '<' + ','.join(targ(c) for c in inner(n) if c.get('kind') == 'TemplateArgument') + '>'
                self.recname_scope[base_key(key)] = sc
            if k in FUNC and n.get('parentDeclContextId') in self.recscope:
                self.scopes.append(self.recscope[n['parentDeclContextId']])
                pushed = 2
            self.scopes.append(sc)
            if k in REC:
                # members may be used before their alias is declared
                for c in inner(n):
                    if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and c.get('name'):
                        self.fix_type(c, dep)
                        sc[c['name']] = ty(c)
            try:
                self.walk_(n, rec, dep, infunc)
            finally:
                for _ in range(pushed):
                    self.scopes.pop()
            return
        if k in ('TypeAliasDecl', 'TypedefDecl') and n.get('name'):
            self.fix_type(n, dep)
            self.scopes[-1][n['name']] = ty(n)
        else:
            self.fix_type(n, dep)
        self.walk_(n, rec, dep, infunc)

    def fix_type(self, n, dep):
        t = n.get('type')
        if dep or not t:
            return
        for key in ('desugaredQualType', 'qualType'):
            q = t.get(key)
            if not q or (key == 'qualType' and 'desugaredQualType' in t):
                continue
            if '*' in q or '&' in q or '<' in q or key == 'qualType':
                r = IDENT.sub(self._sub, q)
                if r != q:
                    t['desugaredQualType'] = r
            break

    def _sub(self, m):
        w = m.group(0)
        if m.start() > 0 and m.string[m.start() - 1] == ':':
            return w
        for sc in reversed(self.scopes):
            if w in sc:
                v = sc[w]
                return v if v != w else w
        return w

    def walk_(self, n, rec, dep, infunc):
        k = n.get('kind')
        nid = n.get('id')
        at = n.get('argType')
        loc = n.get('loc') or {}
        # clang's JSON only prints file/line when they change, in document order
        for l in self._locs(n):
            if 'file' in l:
                self.file = l['file']
            if 'line' in l:
                self.line = l['line']
            l['_f'] = self.file
            l['_l'] = self.line
        if nid:
            old = self.decl.get(nid)
            if old is None or (not old.get('inner') and n.get('inner')):
                self.decl[nid] = n
        if k in REC:
            r = Rec(n, self, rec)
            if k == 'ClassTemplatePartialSpecializationDecl':
                dep = True
            self.recs[nid] = r
            if n.get('completeDefinition') or r.fields or n.get('definitionData'):
                if r.qual not in self.recname or n.get('definitionData'):
                    if not dep:
                        self.recname[r.qual] = r
            if dep:
                self.dependent.add(nid)
            for c in inner(n):
                self.walk(c, r, dep, infunc)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in inner(n):
                ck = c.get('kind')
                if ck in REC:
                    # the pattern is dependent; ClassTemplateSpecializationDecl children are instances
                    self.walk(c, rec, dep or ck == 'CXXRecordDecl', infunc)
                elif ck in FUNC:
                    isinst = any(x.get('kind') == 'TemplateArgument' for x in inner(c))
                    self.walk(c, rec, dep or not isinst, infunc)
                else:
                    self.walk(c, rec, dep, infunc)
            return
        if k in FUNC:
            cls = rec
            if cls is None and n.get('parentDeclContextId') in self.recs:
                cls = self.recs[n['parentDeclContextId']]
                if n['parentDeclContextId'] in self.dependent:
                    dep = True
            f = Func(n, cls, self)
            f.file, f.line = self.file, self.line
            if dep and n.get('inner'):
                self.dependent.add(nid)
            old = self.func.get(nid)
            if old is None or (old.body is None and f.body is not None):
                self.func[nid] = f
            if f.body is not None and not dep and f.mangled:
                self.bymangled.setdefault(f.mangled, f)
            if cls is not None:
                cls.methods.append(f)
            for c in inner(n):
                self.walk(c, None, dep, True)
            return
        for c in inner(n):
            self.walk(c, rec, dep, infunc)

    def _locs(self, n):
        # document order inside a node: loc then range
        out = []
        for key in ('loc',):
            l = n.get(key)
            if l:
                if 'spellingLoc' in l:
                    out.append(l['spellingLoc'])
                    out.append(l['expansionLoc'])
                else:
                    out.append(l)
        r = n.get('range')
        if r:
            for key in ('begin', 'end'):
                l = r.get(key)
                if l:
                    if 'spellingLoc' in l:
                        out.append(l['spellingLoc'])
                        out.append(l['expansionLoc'])
                    else:
                        out.append(l)
        return out


def where(n):
    r = (n.get('range') or {}).get('begin') or {}
    r = r.get('expansionLoc', r)
    f = r.get('_f') or '?'
    return '%s:%s' % (os.path.relpath(f, REPO) if f.startswith('/') else f, r.get('_l'))


class DB:
    def __init__(self):
        self.tus = {}

    def load(self, rel):
        if rel not in self.tus:
            p = rel if rel.startswith('/') else os.path.join(REPO, rel)
            self.tus[rel] = TU(p)
        return self.tus[rel]

    def find(self, tu, qual_pred, withbody=True):
        """all non-dependent functions with body satisfying predicate, deduplicated by mangled name"""
        out, seen = [], set()
        for f in tu.func.values():
            if f.body is None or f.node.get('id') in tu.dependent:
                continue
            if qual_pred(f) and f.mangled not in seen:
                seen.add(f.mangled)
                out.append(f)
        return out

    def definition(self, tu, fid, name=None, mangled=None):
        """definition of the function referenced by id fid in tu (follow mangled names, across loaded TUs)"""
        f = tu.func.get(fid)
        m = f.mangled if f else mangled
        if f and f.body is not None and fid not in tu.dependent:
            return f
        if m is None:
            return None
        if m in tu.bymangled:
            return tu.bymangled[m]
        for t in self.tus.values():
            if m in t.bymangled:
                return t.bymangled[m]
        return f


if __name__ == '__main__':
    db = DB()
    tu = db.load(sys.argv[1])
    for f in db.find(tu, lambda f: True):
        print(f.qual, f.mangled, f.file, f.line)
