"""Names, attributes and calls (C21): every name, attribute, module member and
argument list used on a feasible path is one that exists there."""
import ast
import builtins
import functools
import importlib
import re

from .flow import Flow, loc
from .prog import Program, Module, Class, Func, version_test
from .sigs import SCHEMAS, BY_NAME

PY2 = {'unicode', 'xrange', 'basestring', 'raw_input', 'long', 'reduce', 'unichr', 'cmp', 'file', 'execfile', 'reload', 'apply', 'buffer',
       'intern', 'coerce', '__file__', '__name__', '__doc__', '__package__'}
BUILTINS = set(dir(builtins)) | PY2
BUILTIN_TYPES = {t.__name__: set(dir(t)) for t in (list, dict, str, tuple, set, frozenset, bytes, int, float, complex, object, Exception)}
BUILTIN_TYPES['dict'] |= {'has_key', 'iteritems', 'iterkeys', 'itervalues', 'viewitems', 'viewkeys', 'viewvalues'}
BUILTIN_TYPES['str'] |= {'decode'}
STDLIB = {'random', 'math', 'os', 'os.path', 'copy', 'json', 'glob', 'logging', 're', 'sys', 'struct', 'time', 'pickle', 'fnmatch', 'collections',
          'itertools', 'operator', 'string', 'errno', 'shutil', 'functools', 'pprint', 'warnings', 'numbers', 'fractions', 'bisect', 'datetime', 'io', 'csv'}
STD_PY2 = {'collections': {'Hashable', 'Iterable', 'Mapping', 'Sequence', 'MutableMapping', 'MutableSequence', 'Callable', 'Set', 'Sized', 'Container'}, 'string': {'letters', 'lowercase', 'uppercase', 'maketrans', 'join', 'split', 'replace', 'strip'}, 'itertools': {'izip', 'imap', 'ifilter', 'izip_longest'},
           'os': {'getcwdu', 'errno'}, 'sys': {'maxint', 'exc_clear', 'setdefaultencoding'}, 'time': {'clock'}, 'os.path': {'walk'}}
ANY_OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__class__', '__doc__', 'func_name', 'im_self', 'im_func', '__len__', '__iter__', 'next', '__next__'}


def module_names(name):
    real = {'cPickle': 'pickle', 'cStringIO': 'io'}.get(name, name)
    if real not in STDLIB:
        return None
    return set(dir(importlib.import_module(real))) | STD_PY2.get(name, set())


# ------------------------------------------------------------------- scopes
def own_nodes(body):
    """the nodes of a function body without those of nested functions and classes"""
    todo = list(body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            todo = list(n.decorator_list) + (list(n.args.defaults) if isinstance(n, ast.FunctionDef) else list(n.bases)) + todo
            continue
        if isinstance(n, ast.Lambda):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def stores(body):
    """names bound by a function body itself (comprehension targets excluded)"""
    out = set()
    comp = set()
    for n in own_nodes(body):
        if isinstance(n, COMP):
            for g in n.generators:
                for x in ast.walk(g.target):
                    comp.add(id(x))
    glob = set()
    for n in own_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return out - glob


def param_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def locals_of(f):
    if isinstance(f.node, ast.Lambda):
        return set(param_names(f))
    return set(param_names(f)) | stores(f.node.body)


def loads(e, bound=frozenset()):
    """names read when an expression is evaluated, in order; not those bound in it"""
    if isinstance(e, ast.Name):
        if e.id not in bound and isinstance(e.ctx, ast.Load):
            yield e
        return
    if isinstance(e, COMP):
        b = set(bound)
        for i, g in enumerate(e.generators):
            for x in loads(g.iter, frozenset(b)):
                yield x
            b |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for c in g.ifs:
                for x in loads(c, frozenset(b)):
                    yield x
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            for y in loads(x, frozenset(b)):
                yield y
        return
    if isinstance(e, ast.Lambda):
        for d in e.args.defaults:
            for y in loads(d, bound):
                yield y
        return
    for c in ast.iter_child_nodes(e):
        for y in loads(c, bound):
            yield y


# -------------------------------------------------------- definite assignment
def text(e):
    try:
        return ast.unparse(e)
    except Exception:
        return ''


def simple(e):
    """an expression whose truth does not change by being looked at"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'len', 'hasattr', 'type')):
                return False
        elif not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.cmpop, ast.expr_context, ast.Subscript, ast.Tuple, ast.UnaryOp,
                                ast.unaryop, ast.BinOp, ast.operator, ast.Slice)):
            return False
    return True


def bare(it):
    """the collection a loop goes through, without wrappers that keep its size"""
    while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args and it.func.id in ('enumerate', 'sorted', 'reversed', 'list', 'tuple', 'set', 'iter'):
        it = it.args[0]
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and len(it.args) == 1:
        a = it.args[0]
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1:
            return bare(a.args[0])
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values', 'iteritems') and not it.args:
        return it.func.value
    return it


def fact_of(test):
    """(key, value when the test is true) or None"""
    if not simple(test):
        return None
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, a, b = test.ops[0], test.left, test.comparators[0]
        if isinstance(a, ast.Constant) and not isinstance(b, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            a, b = b, a
        if isinstance(b, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            pos = isinstance(op, (ast.Eq, ast.Is))
            if isinstance(a, ast.Call) and text(a.func) == 'len' and b.value == 0:
                return ('t', text(a.args[0])), not pos
            return ('eq', text(a), repr(b.value)), pos
        if isinstance(a, ast.Call) and text(a.func) == 'len' and isinstance(b, ast.Constant) and b.value == 0 and isinstance(op, ast.Gt):
            return ('t', text(a.args[0])), True
        if isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot)):
            pos = {ast.NotIn: ' in ', ast.NotEq: ' == ', ast.IsNot: ' is '}[type(op)]
            return ('t', text(a) + pos + text(b)), False
        if isinstance(op, (ast.GtE, ast.LtE)):
            return ('t', text(a) + (' < ' if isinstance(op, ast.GtE) else ' > ') + text(b)), False
        return ('t', text(test)), True
    if isinstance(test, ast.Call) and text(test.func) == 'len' and test.args:
        return ('t', text(test.args[0])), True
    return ('t', text(test)), True


@functools.lru_cache(None)
def words(t):
    return frozenset(re.findall(r'\w+', t))


FALSY = {'None', '0', 'False', "''", '0.0'}


def consistent(facts, key, val):
    d = dict(facts)
    if d.get(key, val) != val:
        return False
    if key[0] == 'eq' and val:
        for k, v in facts:
            if v and k[0] == 'eq' and k[1] == key[1] and k[2] != key[2]:
                return False
            if k == ('t', key[1]) and v == (key[2] in FALSY):
                return False
    if key[0] == 't':
        for k, v in facts:
            if v and k[0] == 'eq' and k[1] == key[1] and val == (k[2] in FALSY):
                return False
    return True


class Assigned(Flow):
    """which local names are bound"""

    def __init__(self, f, report):
        Flow.__init__(self)
        self.f, self.report = f, report
        self.names = locals_of(f)
        self.count = 0
        self.calls = {}

    def start(self):
        return (frozenset(param_names(self.f)), frozenset())

    def expr(self, e, s):
        if isinstance(e, ast.IfExp):
            t, f = self.split(e.test, {s})
            return self.evals(e.body, t) | self.evals(e.orelse, f)
        if isinstance(e, ast.BoolOp):
            t, f = self.split(e, {s})
            return t | f
        a, facts = s
        for n in loads(e):
            if n.id in self.names:
                self.count += 1
                if n.id not in a:
                    self.report(self.f, n, facts)
                    a = a | {n.id}
        return [(a, facts)]

    def store(self, t, v, s):
        a, facts = s
        if isinstance(t, ast.Name):
            a = a | {t.id}
            facts = frozenset(k for k in facts if t.id not in words(k[0][1]))
            if isinstance(v, ast.Constant):
                facts = facts | {(('eq', t.id, repr(v.value)), True)}
        elif isinstance(t, ast.Attribute):
            facts = frozenset(k for k in facts if t.attr not in words(k[0][1]))
        return (a, facts)

    def delete(self, t, s):
        return (s[0] - {t.id}, s[1])

    def assume(self, test, truth, s):
        fk = fact_of(test)
        if fk is None:
            return s
        key, v = fk[0], fk[1] == truth
        if not consistent(s[1], key, v):
            return None
        return (s[0], s[1] | {(key, v)})

    def empty(self, it, s):
        b = bare(it)
        if isinstance(b, (ast.List, ast.Tuple, ast.Set)) and b.elts or isinstance(b, ast.Constant) and b.value:
            return None
        if isinstance(b, ast.Call) and text(b.func) in ('range', 'xrange') and all(isinstance(x, ast.Constant) for x in b.args):
            return None if len(range(*[x.value for x in b.args])) else s
        if simple(b):
            if not consistent(s[1], ('t', text(b)), False):
                return None
            return (s[0], s[1] | {(('t', text(b)), False)})
        return s

    def fall(self, st, ss):
        out = set()
        for s in ss:
            fk = fact_of(st.test)
            if fk and fk[0][0] == 'eq' and any(k[0] == 'eq' and k[1] == fk[0][1] and k != fk[0] and not v for k, v in s[1]):
                continue
            out.add(s)
        return out

    def limit(self, states):
        # fewer states: forget the facts, keep what is bound on all of them
        by = {}
        for a, f in states:
            by.setdefault(a, []).append(f)
        out = set()
        for a, fs in by.items():
            common = frozenset.intersection(*[frozenset(f) for f in fs])
            out.add((a, common))
        return sorted(out, key=lambda s: (len(s[0]), sorted(s[0])))[:20]

    def loop(self, st, ss):
        return Flow.loop(self, st, ss)


def suites(f):
    """[(names stored in a suite, set of ids of its nodes)]"""
    out = []
    for n in ast.walk(f.node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, b))
    return out


def correlated(f, name, use):
    """is the use guarded by a condition on something bound together with the name?"""
    together = set()
    for n, b in suites(f):
        if n is f.node:
            continue
        names = stores(b)
        if name in names:
            together |= names
            if isinstance(n, ast.For):
                pass
    together.discard(name)

    def guards(n, acc):
        if n is use:
            return acc
        for field, c in ast.iter_fields(n):
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, ast.AST):
                    more = acc
                    if isinstance(n, (ast.If, ast.While, ast.IfExp)) and field in ('body', 'orelse'):
                        more = acc + [n.test]
                    r = guards(x, more)
                    if r is not None:
                        return r
        return None
    for t in guards(f.node, []) or []:
        if {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} & together:
            return True
    return False


def unbound(prog):
    """[(func, node)] for local names read where a feasible path leaves them unbound; and how many reads were looked at"""
    out, count = [], 0
    for f in prog.functions():
        found = {}

        def report(f, n, facts):
            found.setdefault((n.lineno, n.id), n)
        a = Assigned(f, report)
        a.run(f.node.body, [a.start()])
        count += a.count
        for k, n in sorted(found.items()):
            if not correlated(f, n.id, n):
                out.append((f, n))
    return out, count


def undefined(prog):
    """names that are bound nowhere"""
    out, count = [], 0
    outer = {}

    def visit(m, body, scopes, f):
        nonlocal count
        for n in own_nodes(body):
            if isinstance(n, ast.FunctionDef):
                g = [set(param_names(Func(m, n))) | stores(n.body)]
                visit(m, n.body, [s for s in scopes] + g, n)
            elif isinstance(n, ast.Lambda):
                g = [{x.arg for x in n.args.args + n.args.kwonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set())]
                visit(m, [n.body], scopes + g, f)
            elif isinstance(n, ast.ClassDef):
                g = stores(n.body)
                for st in n.body:
                    if isinstance(st, ast.FunctionDef):
                        visit(m, [st], scopes, f)
                    else:
                        visit(m, [st], scopes + [g], f)
        comps = set()
        for n in own_nodes(body):
            if isinstance(n, COMP):
                for g in n.generators:
                    comps |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for n in own_nodes(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                count += 1
                if n.id in comps or any(n.id in s for s in scopes) or known_global(prog, m, n.id):
                    continue
                out.append((m, f, n))
    for m in prog.modules.values():
        visit(m, m.tree.body, [set(m.globals) | set(m.alt_globals) | stores(m.tree.body)], None)
    return out, count


def known_global(prog, m, name):
    if name in m.globals or name in m.alt_globals or name in BUILTINS:
        return True
    for star in m.globals.get('*', []):
        if star not in prog.modules or known_global(prog, prog.modules[star], name):
            return True
    return False


# --------------------------------------------------------------------- types
class Types(object):
    """types of expressions, as far as they are evident: ('inst', Class),
    ('list', T), ('class', Class), ('func', Func), ('mod', Module),
    ('ext', dotted name), ('bt', name of a builtin type)"""

    def __init__(self, prog, spec_quals=()):
        self.prog = prog
        self.quals = set(spec_quals)
        self.vars = {}
        self.rets = {}
        self.fields = {}
        self.attrs = {}
        self.classes = []
        self.owner = {}
        for m in prog.modules.values():
            for b in m.globals.values():
                if isinstance(b, Class) and b.module is m and b not in self.classes:
                    self.classes.append(b)
        self.by_qual = {c.qual: c for c in self.classes}
        self.subs = {}
        for c in self.classes:
            for b in c.mro():
                if isinstance(b, Class) and b is not c:
                    self.subs.setdefault(b.qual, []).append(c)
        self.funcs = prog.functions()
        self.func_of_node = {id(f.node): f for f in self.funcs}
        self.busy = set()

    def kind(self, k):
        if not isinstance(k, str):
            return None
        w = k.split()
        if w[0] == 'maybe':
            return self.kind(' '.join(w[1:]))
        if w[0] == 'list' and len(w) > 1:
            return ('list', self.kind(' '.join(w[1:])))
        if w[0] in SCHEMAS and SCHEMAS[w[0]].get('.class') and len(w) == 1:
            c = self.by_qual.get(SCHEMAS[w[0]]['.class'])
            return ('inst', c) if c else None
        return None

    def cls_of(self, f):
        """the class a method belongs to"""
        if f.cls is None:
            return None
        return self.by_qual.get(f.cls.qual)

    def var(self, f, name):
        k = (f.qual, id(f.node), name)
        if k in self.vars:
            return self.vars[k]
        self.vars[k] = None
        self.vars[k] = r = self._var(f, name)
        return r

    def _var(self, f, name):
        ps = param_names(f)
        ts = []
        if name in ps:
            c = self.cls_of(f)
            deco = [text(d) for d in f.node.decorator_list] if not isinstance(f.node, ast.Lambda) else []
            if c is not None and ps and ps[0] == name and name == 'self' and 'staticmethod' not in deco and 'classmethod' not in deco:
                ts.append(('inst', c))
            elif f.qual in self.quals and name in BY_NAME and f.module.name in ('gspattern', 'gstransformers', 'gsdescriptors') \
                    and not f.node.name.startswith('__'):
                ts.append(self.kind(BY_NAME[name]))
            else:
                return None
        for n in own_nodes(f.node.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        ts.append(self.expr(f, n.value))
                    elif not isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                        return None
            elif isinstance(n, ast.For):
                if isinstance(n.target, ast.Name) and n.target.id == name:
                    t = self.expr(f, n.iter)
                    ts.append(t[1] if t and t[0] == 'list' else None)
                elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    if isinstance(n.iter, ast.Call) and text(n.iter.func) == 'enumerate' and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[1], ast.Name) \
                            and n.target.elts[1].id == name and n.iter.args:
                        t = self.expr(f, n.iter.args[0])
                        ts.append(t[1] if t and t[0] == 'list' else None)
                    else:
                        return None
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                ts.append(self.expr(f, n.value) if isinstance(n.op, ast.Add) else None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
                return None
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                ts.append(('func', self.func_of_node.get(id(n))) if isinstance(n, ast.FunctionDef) and id(n) in self.func_of_node else None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in n.names):
                tmp = {}
                self.prog._bind(f.module, [n], tmp)
                b = tmp.get(name)
                ts.append(b if isinstance(b, tuple) and b[0] == 'ext' else None)
            elif isinstance(n, COMP):
                for g in n.generators:
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.target)):
                        if isinstance(g.target, ast.Name):
                            t = self.expr(f, g.iter)
                            ts.append(t[1] if t and t[0] == 'list' else None)
                        else:
                            return None
        return self.join(ts)

    def join(self, ts):
        ts = [t for t in ts if t != ('none',)]
        if not ts or any(t is None for t in ts):
            return None
        a = ts[0]
        for b in ts[1:]:
            if a == b:
                continue
            if a[0] == 'list' and b[0] == 'list':
                if a[1] is None:
                    a = b
                elif b[1] is not None:
                    return None
                continue
            return None
        return a

    def name(self, f, name):
        g = f
        while g is not None:
            if name in locals_of(g):
                return self.var(g, name)
            g = g.outer if isinstance(g.outer, Func) else None
        return self.glob(f.module, name)

    def glob(self, m, name):
        r = self.prog.resolve_name(m, name)
        if isinstance(r, Module):
            return ('mod', r)
        if isinstance(r, Class):
            return ('class', r)
        if isinstance(r, Func):
            return ('func', r)
        if isinstance(r, tuple) and r and r[0] == 'ext':
            return ('ext', r[1])
        return None

    def expr(self, f, e):
        if isinstance(e, ast.Name):
            return self.name(f, e.id)
        if isinstance(e, ast.Constant):
            if e.value is None:
                return ('none',)
            return ('bt', type(e.value).__name__) if isinstance(e.value, (str, int, float)) and not isinstance(e.value, bool) else None
        if isinstance(e, (ast.List,)):
            t = self.join([self.expr(f, x) for x in e.elts]) if e.elts else None
            return ('list', t)
        if isinstance(e, ast.ListComp):
            return ('list', self.expr(f, e.elt))
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ('bt', 'dict')
        if isinstance(e, ast.Attribute):
            return self.attr(self.expr(f, e.value), e.attr)
        if isinstance(e, ast.Subscript):
            t = self.expr(f, e.value)
            if t and t[0] == 'list':
                return t if isinstance(e.slice, ast.Slice) else t[1]
            return None
        if isinstance(e, ast.Call):
            return self.call(f, e)
        if isinstance(e, ast.IfExp):
            return self.join([self.expr(f, e.body), self.expr(f, e.orelse)])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.expr(f, e.left), self.expr(f, e.right)
            if a and b and a[0] == 'list' and b[0] == 'list':
                return self.join([a, b])
        return None

    def attr(self, t, name):
        if t is None:
            return None
        if t[0] == 'mod':
            return self.glob(t[1], name)
        if t[0] == 'ext':
            return ('ext', t[1] + '.' + name)
        if t[0] in ('inst', 'class'):
            r = t[1].lookup(name)
            if r is not None:
                if r[0] == 'method':
                    return ('method', r[2], t)
                return None
            if t[0] == 'inst':
                return self.field(t[1], name)
        return None

    def field(self, c, name):
        k = (c.qual, name)
        if k in self.fields:
            return self.fields[k]
        self.fields[k] = None
        r = None
        for s in SCHEMAS.values():
            if s.get('.class') == c.qual and name in s:
                r = self.kind(s[name])
        if r is None:
            ts = []
            for d in [x for x in c.mro() if isinstance(x, Class)]:
                for f in self.funcs:
                    if f.cls is not None and f.cls.qual == d.qual:
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                        ts.append(self.expr(f, n.value))
            r = self.join(ts)
            if r and r[0] == 'list':
                r = None
        self.fields[k] = r
        return r

    def call(self, f, e):
        if isinstance(e.func, ast.Name) and e.func.id in ('list', 'sorted', 'reversed') and len(e.args) >= 1 and self.name(f, e.func.id) is None:
            t = self.expr(f, e.args[0])
            return t if t and t[0] == 'list' else None
        t = self.expr(f, e.func)
        if t is None:
            return None
        if t[0] == 'class':
            return ('inst', t[1])
        if t[0] == 'ext' and t[1] in ('copy.copy', 'copy.deepcopy') and len(e.args) == 1:
            return self.expr(f, e.args[0])
        if t[0] == 'func':
            return self.ret(t[1])
        if t[0] == 'method':
            return self.ret(t[1])
        return None

    def ret(self, f):
        if f is None or isinstance(f.node, ast.Lambda):
            return None
        k = f.qual
        if k in self.rets:
            return self.rets[k]
        self.rets[k] = None
        ts = []
        g = self.func_of_node.get(id(f.node), f)
        for n in own_nodes(f.node.body):
            if isinstance(n, ast.Return) and n.value is not None:
                ts.append(self.expr(g, n.value))
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
        self.rets[k] = r = self.join(ts)
        return r

    # ------------------------------------------------------------ attributes
    def known(self, c):
        """names an instance of the class (or of a subclass) may have, or None when that is open"""
        if c.qual in self.attrs:
            return self.attrs[c.qual]
        out = set(ANY_OBJECT)
        group = list(c.mro())
        for d in self.subs.get(c.qual, []):
            group += d.mro()
        for d in group:
            if isinstance(d, str):
                b = d.split('.')[-1]
                if b in BUILTIN_TYPES:
                    out |= BUILTIN_TYPES[b]
                elif d == 'logging.Logger':
                    out |= set(dir(importlib.import_module('logging').Logger)) | {'name', 'level', 'handlers', 'parent'}
                else:
                    self.attrs[c.qual] = None
                    return None
                continue
            out |= set(d.methods) | set(d.attrs)
            for f in self.funcs:
                if f.cls is not None and f.cls.qual == d.qual:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                            out.add(n.attr)
                        if isinstance(n, ast.Call) and text(n.func) == 'setattr' or isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__'):
                            self.attrs[c.qual] = None
                            return None
        names = {d.qual for d in group if isinstance(d, Class)}
        for f in self.funcs:      # attributes given to it elsewhere
            for n in own_nodes(f.node.body):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    t = self.expr(f, n.value)
                    if t is None or t[0] == 'inst' and t[1].qual in names:
                        if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                            out.add(n.attr)
        self.attrs[c.qual] = out
        return out


def version_dead(node):
    return False


def missing_attributes(prog, T):
    """[(func, node, what)]"""
    out, count = [], 0
    universe = set(ANY_OBJECT)
    for b in BUILTIN_TYPES.values():
        universe |= b
    for c in T.classes:
        universe |= set(c.methods) | set(c.attrs)
    for m in prog.modules.values():
        universe |= set(m.globals) | set(m.alt_globals)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                universe.add(n.attr)
            if isinstance(n, ast.keyword) and n.arg:
                universe.add(n.arg)
            if isinstance(n, ast.Call) and text(n.func) == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                universe.add(n.args[1].value)
    for f in prog.functions():
        universe.add(f.name)
    universe |= {'read', 'write', 'close', 'readline', 'readlines', 'seek', 'tell', 'flush', 'name', 'mode', 'message', 'errno', 'strerror', 'filename'}
    universe |= set(dir(importlib.import_module('logging').Logger)) | set(dir(importlib.import_module('logging').StreamHandler))
    universe |= set(dir(importlib.import_module('logging').LogRecord('', 0, '', 0, '', (), None)))
    universe |= set(dir(importlib.import_module('random').Random)) | set(dir(importlib.import_module('re').compile(''))) | set(dir(importlib.import_module('re').match('', '')))
    for f in prog.functions():
        ext = externals(prog, f)
        for n in own_nodes(f.node.body):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            count += 1
            t = T.expr(f, n.value)
            if t is None:
                if n.attr not in universe and not from_outside(n, ext):
                    out.append((f, n, 'nothing has an attribute %s' % n.attr))
                continue
            if t[0] == 'mod':
                if not known_global_of(prog, t[1], n.attr):
                    out.append((f, n, 'the module %s has no %s' % (t[1].name, n.attr)))
            elif t[0] == 'ext':
                names = module_names(t[1])
                if names is not None and n.attr not in names:
                    out.append((f, n, 'the module %s has no %s' % (t[1], n.attr)))
            elif t[0] in ('inst', 'class'):
                k = T.known(t[1])
                if k is not None and n.attr not in k:
                    out.append((f, n, '%s has no attribute %s' % (t[1].qual, n.attr)))
            elif t[0] == 'list' or t[0] == 'bt' and t[1] in BUILTIN_TYPES:
                b = 'list' if t[0] == 'list' else t[1]
                if n.attr not in BUILTIN_TYPES[b]:
                    out.append((f, n, 'a %s has no attribute %s' % (b, n.attr)))
    return out, count


def known_global_of(prog, m, name):
    if name in m.globals or name in m.alt_globals or name in ('__name__', '__file__', '__doc__', '__dict__'):
        return True
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for n in ast.walk(m.tree)):
        return True
    for star in m.globals.get('*', []):
        if star not in prog.modules or known_global_of(prog, prog.modules[star], name):
            return True
    return False


def externals(prog, f):
    """does the function deal with values of a library that is not known here?"""
    out = set()
    src = [n for n in ast.walk(f.module.tree) if isinstance(n, (ast.Import, ast.ImportFrom))]
    for n in src:
        for a in n.names:
            root = (n.module if isinstance(n, ast.ImportFrom) else a.name) or ''
            if not (isinstance(n, ast.ImportFrom) and n.level) and root.split('.')[0] not in {x.split('.')[0] for x in STDLIB} | {'__future__', 'cPickle'}:
                out.add(a.asname or a.name.split('.')[0])
    return out


def from_outside(n, ext):
    """an attribute of something that may come from a library not known here"""
    return bool(ext)


# --------------------------------------------------------------------- calls
def signature_problem(node, call, drop, deco=()):
    """why the call does not fit the definition, or None"""
    a = node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    names = [x.arg for x in a.posonlyargs + a.args][drop:]
    nd = len(a.defaults)
    required = [x for x in ([y.arg for y in a.posonlyargs + a.args][:len(a.posonlyargs + a.args) - nd] if nd else [y.arg for y in a.posonlyargs + a.args])][drop:]
    pos = len(call.args)
    if pos > len(names) and not a.vararg:
        return 'takes %d arguments, %d are given' % (len(names), pos)
    given = set(names[:pos])
    for k in call.keywords:
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg not in names and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    for r in required:
        if r not in given:
            return 'needs %s' % r
    for i, x in enumerate(a.kwonlyargs):
        if a.kw_defaults[i] is None and x.arg not in given:
            return 'needs %s' % x.arg
    return None


def bad_calls(prog, T):
    out, count = [], 0
    for f in prog.functions():
        for n in own_nodes(f.node.body):
            if not isinstance(n, ast.Call):
                continue
            t = T.expr(f, n.func)
            if t is None:
                b = builtin_problem(f, n, T)
                if b:
                    out.append((f, n, b))
                continue
            p = None
            if t[0] == 'func' and t[1] is not None:
                count += 1
                if not isinstance(t[1].node, ast.Lambda) and not t[1].node.decorator_list:
                    p = signature_problem(t[1].node, n, 0)
                what = t[1].qual
            elif t[0] == 'class':
                r = t[1].lookup('__init__')
                if r is None or r[0] != 'method':
                    continue
                if any(isinstance(x, str) and x not in ('object',) for x in t[1].mro()) and r is None:
                    continue
                count += 1
                p = signature_problem(r[2].node, n, 1)
                what = t[1].qual
            elif t[0] == 'method':
                m = t[1]
                if isinstance(m.node, ast.Lambda):
                    continue
                deco = [text(d) for d in m.node.decorator_list]
                static = m.wrap == 'staticmethod' or 'staticmethod' in deco
                cm = m.wrap == 'classmethod' or 'classmethod' in deco
                if [d for d in deco if d not in ('staticmethod', 'classmethod')]:
                    continue
                drop = 0 if static else 1 if (cm or t[2][0] == 'inst') else 0
                count += 1
                p = signature_problem(m.node, n, drop)
                what = m.qual
            else:
                continue
            if p:
                out.append((f, n, '%s %s' % (what, p)))
    return out, count


def builtin_problem(f, n, T):
    if not isinstance(n.func, ast.Name) or n.func.id in locals_of(f) or T.name(f, n.func.id) is not None:
        return None
    want = {'len': (1, 1), 'abs': (1, 1), 'isinstance': (2, 2), 'hasattr': (2, 2), 'ord': (1, 1), 'chr': (1, 1), 'enumerate': (1, 2), 'range': (1, 3),
            'reversed': (1, 1), 'setattr': (3, 3), 'getattr': (2, 3), 'id': (1, 1), 'callable': (1, 1)}.get(n.func.id)
    if want and not any(isinstance(x, ast.Starred) for x in n.args) and not any(k.arg is None for k in n.keywords):
        k = len(n.args) + len(n.keywords)
        if not want[0] <= k <= want[1]:
            return '%s takes %d to %d arguments, %d are given' % (n.func.id, want[0], want[1], k)
    return None


FMT = re.compile(r'%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def bad_formats(prog, T):
    out, count = [], 0
    for f in prog.functions():
        for n in own_nodes(f.node.body):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                count += 1
                items = [m for m in FMT.finditer(n.left.value) if m.group(4) != '%']
                if any(m.group(1) for m in items):
                    continue
                need = len(items) + sum((m.group(2) == '*') + (m.group(3) == '*') for m in items)
                if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                    if len(n.right.elts) != need:
                        out.append((f, n, 'the format needs %d values, %d are given' % (need, len(n.right.elts))))
                elif isinstance(n.right, ast.Constant) and need != 1:
                    out.append((f, n, 'the format needs %d values, one is given' % need))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str) and not any(isinstance(x, ast.Starred) for x in n.args) and not any(k.arg is None for k in n.keywords):
                import string
                count += 1
                auto = 0
                try:
                    parsed = list(string.Formatter().parse(n.func.value.value))
                except ValueError:
                    out.append((f, n, 'not a format'))
                    continue
                for _, name, spec, conv in parsed:
                    if name is None:
                        continue
                    root = re.split(r'[.\[]', name)[0]
                    if root == '':
                        root, auto = str(auto), auto + 1
                    if root.isdigit() and int(root) >= len(n.args) or not root.isdigit() and root not in [k.arg for k in n.keywords]:
                        out.append((f, n, 'the format asks for a value %s that is not given' % root))
    return out, count
