"""The program under analysis: every module of /repo/gsapi parsed afresh, with
its imports, classes, functions and constants resolved."""
import ast
import os

REPO = os.environ.get('GSAPI_REPO', '/repo')
PKG = 'gsapi'


class AnalysisError(Exception):
    """the analysis cannot give an answer (missing anchor, unparsable file)"""


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.globals = {}       # name -> binding, py2 view of version switches
        self.alt_globals = {}   # bindings of the py3 arms of version switches
        self.rel = os.path.relpath(path, REPO)


class Func(object):
    """a function definition"""
    def __init__(self, module, node, cls=None, name=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = name or node.name
        q = module.name
        if outer is not None:
            q = outer.qual
        elif cls is not None:
            q = cls.qual
        self.qual = q + '.' + self.name
        self.wrap = None

    def __repr__(self):
        return '<func %s>' % self.qual

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)


class Class(object):
    def __init__(self, module, node, outer=None):
        self.module, self.node = module, node
        self.name = node.name
        self.qual = (outer.qual if outer else module.name) + '.' + node.name
        self.methods = {}
        self.attrs = {}          # name -> expr node
        self.bases = []
        self.base_exprs = node.bases

    def __repr__(self):
        return '<class %s>' % self.qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        """(kind, owner, thing) along the MRO"""
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.methods:
                    return 'method', c, c.methods[name]
                if name in c.attrs:
                    return 'attr', c, c.attrs[name]
        return None

    def has_external_base(self, name):
        return any(b == name for b in self.mro() if isinstance(b, str))


def version_test(test):
    """'py2', 'py3' or None: which interpreter makes this test true"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        src = ast.dump(test.left)
        if 'version_info' in src:
            right = test.comparators[0]
            lead = None
            if isinstance(right, ast.Tuple) and right.elts and isinstance(right.elts[0], ast.Constant):
                lead = right.elts[0].value
            elif isinstance(right, ast.Constant):
                lead = right.value
            op = type(test.ops[0]).__name__
            if lead == 3 and op == 'Lt':
                return 'py2'
            if lead == 3 and op in ('GtE', 'Gt', 'Eq'):
                return 'py3'
            if lead == 2 and op in ('Eq', 'LtE'):
                return 'py2'
            if lead == 2 and op == 'Gt':
                return 'py3'
    return None


class Program(object):
    def __init__(self, repo=None, py='py2'):
        self.repo = repo or REPO
        self.py = py
        self.modules = {}
        d = os.path.join(self.repo, PKG)
        if not os.path.isdir(d):
            raise AnalysisError('no package at %s' % d)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                path = os.path.join(d, f)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('%s does not parse: %s' % (path, e))
                name = f[:-3]
                m = Module(name, path, tree, src)
                m.rel = os.path.join(PKG, f)
                self.modules[name] = m
        for m in self.modules.values():
            self._bind(m, m.tree.body, m.globals)
        self.classes = [b for m in self.modules.values() for b in m.globals.values() if isinstance(b, Class)]
        for m in self.modules.values():
            for b in list(m.globals.values()):
                if isinstance(b, Class):
                    self._bases(b)

    def _bind(self, m, body, g):
        for st in body:
            if isinstance(st, (ast.FunctionDef,)):
                g[st.name] = Func(m, st)
            elif isinstance(st, ast.ClassDef):
                g[st.name] = self._class(m, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split('.')[0]
                    g[nm] = ('ext', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                self._import_from(st, g)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        g[t.id] = ('expr', st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                g[e.id] = ('unpack', st.value, i)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                g[st.target.id] = ('expr', st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                g[st.target.id] = ('opaque',)
            elif isinstance(st, ast.If):
                v = version_test(st.test)
                if v is None:
                    if self._is_main(st.test):
                        continue
                    self._bind(m, st.body, g)
                    self._bind(m, st.orelse, g)
                else:
                    mine, other = (st.body, st.orelse) if v == self.py else (st.orelse, st.body)
                    self._bind(m, mine, g)
                    self._bind(m, other, m.alt_globals)
            elif isinstance(st, ast.Try):
                self._bind(m, st.body, g)
                for h in st.handlers:
                    tmp = {}
                    self._bind(m, h.body, tmp)
                    for k, v in tmp.items():
                        g.setdefault(k, v)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        g.setdefault(n.id, ('opaque',))

    @staticmethod
    def _is_main(test):
        return isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == '__name__'

    def _import_from(self, st, g):
        if st.module == '__future__':
            return
        for a in st.names:
            nm = a.asname or a.name
            if st.level:
                if st.module is None:
                    g[nm] = ('mod', a.name) if a.name in self.modules else ('ext', '.' + a.name)
                elif a.name == '*':
                    g.setdefault('*', []).append(st.module)
                elif st.module in self.modules:
                    g[nm] = ('from', st.module, a.name)
                else:
                    g[nm] = ('ext', '.' + st.module + '.' + a.name)
            else:
                if a.name == '*':
                    continue
                g[nm] = ('ext', st.module + '.' + a.name)

    def _class(self, m, node, outer=None):
        c = Class(m, node, outer)
        for st in node.body:
            self._class_stmt(m, c, st)
        return c

    def _class_stmt(self, m, c, st):
        if isinstance(st, ast.FunctionDef):
            f = Func(m, st, c)
            deco = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '') for d in st.decorator_list]
            if 'property' in deco:
                c.attrs[st.name] = ('property', f, None)
                c.methods['<get>' + st.name] = f
                return
            if 'setter' in deco:
                old = c.attrs.get(st.name)
                c.attrs[st.name] = ('property', old[1] if old else None, f)
                c.methods['<set>' + st.name] = f
                return
            f.wrap = 'classmethod' if 'classmethod' in deco else 'staticmethod' if 'staticmethod' in deco else None
            c.methods[st.name] = f
            c.attrs.pop(st.name, None)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    v = st.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('classmethod', 'staticmethod') \
                            and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods:
                        f = c.methods[v.args[0].id]
                        f2 = Func(m, f.node, c, t.id)
                        f2.wrap = v.func.id
                        c.methods[t.id] = f2
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                        def meth(i, kw):
                            e = v.args[i] if len(v.args) > i else next((k.value for k in v.keywords if k.arg == kw), None)
                            if isinstance(e, ast.Name):
                                return c.methods.get(e.id)
                            if isinstance(e, ast.Lambda):
                                return Func(m, e, c, '<lambda>')
                            return None
                        c.attrs[t.id] = ('property', meth(0, 'fget'), meth(1, 'fset'))
                    else:
                        c.attrs[t.id] = ('expr', v)
                        c.methods.pop(t.id, None)
                elif isinstance(t, ast.Tuple):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            c.attrs[e.id] = ('unpack', st.value, i)
        elif isinstance(st, ast.ClassDef):
            if st.name == '__metaclass__':
                c.metaclass = self._class(m, st, c)
            else:
                c.attrs[st.name] = ('class', self._class(m, st, c))
        elif isinstance(st, ast.If):
            for x in st.body + st.orelse:
                self._class_stmt(m, c, x)

    def _bases(self, c):
        c.bases = []
        for b in c.base_exprs:
            r = self.resolve_expr(c.module, b)
            c.bases.append(r if isinstance(r, Class) else (r[1] if isinstance(r, tuple) and r[0] == 'ext' else ast.unparse(b)))
        for k, v in c.attrs.items():
            if isinstance(v, tuple) and v[0] == 'class':
                self._bases(v[1])

    def resolve_name(self, m, name, seen=()):
        if (m.name, name) in seen:
            return None
        b = m.globals.get(name)
        if b is None:
            for star in m.globals.get('*', []):
                if star in self.modules:
                    r = self.resolve_name(self.modules[star], name, seen + ((m.name, name),))
                    if r is not None:
                        return r
            return None
        if isinstance(b, tuple) and b[0] == 'from':
            return self.resolve_name(self.modules[b[1]], b[2], seen + ((m.name, name),))
        if isinstance(b, tuple) and b[0] == 'mod':
            return self.modules[b[1]]
        if isinstance(b, tuple) and b[0] in ('expr', 'unpack'):
            return ('global', m, name, b)
        return b

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            base = self.resolve_expr(m, e.value)
            if isinstance(base, Module):
                return self.resolve_name(base, e.attr)
            if isinstance(base, tuple) and base and base[0] == 'ext':
                return ('ext', base[1] + '.' + e.attr)
        return None

    def find(self, qual):
        """'gspattern.Pattern.copy' -> Func, Class...; AnalysisError if absent"""
        parts = qual.split('.')
        m = self.modules.get(parts[0])
        if m is None:
            raise AnalysisError('module %s is gone' % parts[0])
        b = self.resolve_name(m, parts[1])
        if b is None:
            raise AnalysisError('%s is gone' % qual)
        if len(parts) == 2:
            return b
        if not isinstance(b, Class):
            raise AnalysisError('%s is not a class' % '.'.join(parts[:2]))
        r = b.lookup(parts[2])
        if r is None:
            raise AnalysisError('%s is gone' % qual)
        return r[2]

    def functions(self):
        """every function definition of the package (nested ones included)"""
        out = []

        def walk(m, body, cls, outer):
            for st in body:
                if isinstance(st, ast.FunctionDef):
                    f = Func(m, st, cls, outer=outer)
                    out.append(f)
                    walk(m, st.body, None, f)
                elif isinstance(st, ast.ClassDef):
                    c = Class(m, st)
                    if outer:
                        c.qual = outer.qual + '.' + st.name
                    elif cls:
                        c.qual = cls.qual + '.' + st.name
                    walk(m, st.body, c, None)
                else:
                    for field in ('body', 'orelse', 'finalbody'):
                        walk(m, getattr(st, field, []) or [], cls, outer)
                    for h in getattr(st, 'handlers', []) or []:
                        walk(m, h.body, cls, outer)
        for m in self.modules.values():
            walk(m, m.tree.body, None, None)
        return out
