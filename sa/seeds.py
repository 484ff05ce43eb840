"""Seeded generation (C19).

A path analysis from every function that takes a seed, through the functions
it calls, to every draw of a random number: on each path a draw must come
after its generator was seeded with a value made from the seed, unless the
path is one on which the seed is None.  And: no ordered value that a choice
depends on may be made from a set without sorting."""
import ast

from .flow import Flow, loc
from .names import text, own_nodes, param_names, locals_of, Types
from .prog import Class, Func

DRAWS = {'random', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample', 'uniform', 'gauss', 'normalvariate', 'triangular', 'getrandbits',
         'betavariate', 'expovariate', 'gammavariate', 'lognormvariate', 'paretovariate', 'vonmisesvariate', 'weibullvariate', 'rand', 'randn', 'permutation'}
IMPURE = {'time.time', 'time.clock', 'os.urandom', 'os.getpid', 'uuid.uuid4', 'uuid.uuid1', 'id', 'datetime.datetime.now', 'random.random', 'random.randint'}


class Draw(object):
    def __init__(self, func, node, why):
        self.func, self.node, self.why = func, node, why


class Seeds(Flow):
    """state: (frozenset of (name, kind), frozenset of seeded generators, what is known of the seed)
    kinds: 'seed' a value made from the seed, 'const', 'none', 'gen' (a generator made with a seed), other names are unknown.
    known: 'any', 'given' (not None), 'none', 'false' (None, 0 or empty)"""

    def __init__(self, ana, f, stack):
        Flow.__init__(self)
        self.ana, self.f, self.stack = ana, f, stack

    # values -----------------------------------------------------------------
    def kind(self, e, s):
        env = dict(s[0])
        if isinstance(e, ast.Constant):
            return 'none' if e.value is None else 'const'
        if isinstance(e, ast.Name):
            return env.get(e.id, 'other')
        if isinstance(e, ast.Attribute):
            return env.get(text(e), 'other')
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            a = self.kind(e.values[0], s)
            rest = [self.kind(v, s) for v in e.values[1:]]
            if a == 'seed':
                if s[2] == 'none':
                    return rest[-1]
                return 'seed' if all(k in ('seed', 'const') for k in rest) else 'partly'
            return a
        if isinstance(e, ast.IfExp):
            ks = set()
            t, f = self.split(e.test, {s})
            for x in t:
                ks.add(self.kind(e.body, x) if x[2] != 'none' else 'skip')
            for x in f:
                ks.add(self.kind(e.orelse, x) if x[2] != 'none' else 'skip')
            ks.discard('skip')
            return ks.pop() if len(ks) == 1 else ('seed' if ks and ks <= {'seed'} else 'partly' if ks else 'none')
        if isinstance(e, ast.Call):
            n = text(e.func)
            if n in IMPURE or n.split('.')[-1] in DRAWS:
                return 'other'
            if self.ana.is_generator_class(self.f, e.func):
                k = self.kind(e.args[0], s) if e.args else 'none'
                return 'gen' if k == 'seed' else 'badgen'
        parts = [self.kind(c, s) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr) and not (isinstance(e, ast.Call) and c is e.func)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            parts.append(self.kind(e.func.value, s))
        if 'seed' in parts and all(p in ('seed', 'const', 'other') for p in parts):
            return 'seed'
        if 'partly' in parts:
            return 'partly'
        return 'other'

    # hooks --------------------------------------------------------------------
    def store(self, t, v, s):
        name = text(t)
        env = {k: x for k, x in s[0] if k != name}
        k = 'other'
        if isinstance(v, ast.AST) and isinstance(v, ast.expr):
            k = self.kind(v, s)
            if self.ana.generator(self.f, v, dict(s[0])) is not None and k not in ('gen', 'badgen'):
                k = 'alias:' + self.ana.generator(self.f, v, dict(s[0]))
        if k != 'other':
            env[name] = k
        gens = frozenset(g for g in s[1] if g != name)
        if k == 'gen':
            gens = gens | {name}
        return (frozenset(env.items()), gens, s[2])

    def assume(self, test, truth, s):
        e, pos = test, truth
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None \
                and self.kind(e.left, s) == 'seed':
            isnone = isinstance(e.ops[0], (ast.Is, ast.Eq)) == pos
            if isnone:
                return None if s[2] == 'given' else (s[0], s[1], 'none')
            return None if s[2] == 'none' else (s[0], s[1], 'given')
        if isinstance(e, (ast.Name, ast.Attribute)) and self.kind(e, s) == 'seed':
            if pos:
                return None if s[2] in ('none', 'false') else (s[0], s[1], 'given')
            return s if s[2] in ('none', 'given') else (s[0], s[1], 'false')
        return s

    def expr(self, e, s):
        states = {s}
        for c in calls(e):
            states = {y for x in states for y in self.callee(c, x)}
        return states

    def callee(self, c, s):
        env = dict(s[0])
        fn = c.func
        # the generator's own operations
        if isinstance(fn, ast.Attribute):
            g = self.ana.generator(self.f, fn.value, env)
            if g is None and env.get(text(fn.value)) in ('gen', 'badgen'):
                g = text(fn.value)
            if g is not None:
                if fn.attr == 'seed':
                    return [self.seeded(g, c, s)]
                if fn.attr in DRAWS:
                    self.draw(c, g, s)
                    return [s]
                if fn.attr == 'setstate':
                    return [(s[0], s[1] | {g}, s[2])]
        name = self.ana.external(self.f, fn)
        if name and name.startswith('random.'):
            op = name.split('.')[-1]
            if op == 'seed':
                return [self.seeded('random', c, s)]
            if op in DRAWS:
                self.draw(c, 'random', s)
                return [s]
        out = {s}
        for f, drop in self.ana.targets(self.f, c):
            if f.qual in self.stack or not self.ana.draws(f):
                continue
            out = self.inline(f, drop, c, out)
        return out

    def seeded(self, g, c, s):
        k = self.kind(c.args[0], s) if c.args else self.kind(c.keywords[0].value, s) if c.keywords else 'none'
        if k == 'seed' or k == 'const' and s[2] in ('false', 'none'):
            return (s[0], s[1] | {g}, s[2])
        if s[2] == 'none':
            return s
        return (s[0], s[1] - {g}, s[2])

    def draw(self, c, g, s):
        self.ana.count += 1
        self.ana.sites.add((self.f.module.rel, c.lineno))
        if g in s[1] or s[2] == 'none':
            return
        self.ana.found.setdefault((self.f.qual, text(c)), Draw(self.f, c, 'draws from %s before it was seeded with the given seed%s' % (
            g, ' when the seed is 0' if s[2] == 'false' else '')))

    def inline(self, f, drop, c, ss):
        ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        defaults = dict(zip(ps[len(ps) - len(f.node.args.defaults):], f.node.args.defaults))
        out = set()
        for s in ss:
            env = {}
            closure = f.outer is not None
            if closure:
                env = {k: v for k, v in s[0] if k not in locals_of(f)}
            else:
                env = {k: v for k, v in s[0] if k.startswith('self.')} if drop and text(c.func).startswith('self.') and text(c.func).count('.') == 1 else {}
            names = ps[drop:]
            given = {}
            for n, a in zip(names, c.args):
                given[n] = a
            for k in c.keywords:
                if k.arg:
                    given[k.arg] = k.value
            for n in names:
                if n in given:
                    k = self.kind(given[n], s)
                elif n in defaults:
                    k = self.kind(defaults[n], s)
                else:
                    k = 'other'
                if k != 'other':
                    env[n] = k
            known = s[2]
            sub = Seeds(self.ana, f, self.stack + (f.qual,))
            sub.run(f.node.body, [(frozenset(env.items()), s[1], known)])
            for r, _ in sub.returns:
                out.add((s[0], r[1], r[2]))
        return out or set()


def calls(e):
    """calls made when an expression is evaluated, innermost first"""
    out = []

    def walk(n):
        if isinstance(n, ast.Lambda):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
        if isinstance(n, ast.Call):
            out.append(n)
    walk(e)
    return out


class Analysis(object):
    def __init__(self, prog, quals):
        self.prog = prog
        self.T = Types(prog, quals)
        self.funcs = prog.functions()
        self.memo = {}
        self.found = {}
        self.count = 0
        self.sites = set()
        self.by_name = {}
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)

    def external(self, f, e):
        t = self.T.expr(f, e)
        return t[1] if t and t[0] == 'ext' else None

    def generator(self, f, e, env):
        """the name of the random generator an expression denotes"""
        t = env.get(text(e))
        if t and t.startswith('alias:'):
            return t[6:]
        n = self.external(f, e)
        if n == 'random':
            return 'random'
        if n and n.endswith('.random') and n.split('.')[0] in ('numpy', 'np'):
            return 'numpy.random'
        if isinstance(e, ast.Name) or isinstance(e, ast.Attribute):
            if self.is_generator_attr(f, e):
                return text(e)
        return None

    def is_generator_class(self, f, e):
        n = self.external(f, e)
        return n in ('random.Random', 'random.SystemRandom') or text(e) in ('random.Random', 'Random')

    def is_generator_attr(self, f, e):
        """an attribute, variable or module variable that holds a generator made elsewhere"""
        last = e.attr if isinstance(e, ast.Attribute) else e.id
        if isinstance(e, ast.Name) and last in locals_of(f):
            return False
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and text(n.value.func) in ('random.Random', 'Random', 'random.SystemRandom'):
                    for t in n.targets:
                        if (isinstance(t, ast.Attribute) and t.attr == last) or (isinstance(t, ast.Name) and t.id == last):
                            return True
        return False

    def targets(self, f, c):
        """[(function, number of implicit arguments)] a call may run"""
        t = self.T.expr(f, c.func)
        if t and t[0] == 'func' and t[1] is not None:
            return [(t[1], 0)]
        if t and t[0] == 'method':
            m = t[1]
            if isinstance(m.node, ast.Lambda):
                return []
            out = [(self.T.func_of_node.get(id(m.node), m), 0 if m.wrap == 'staticmethod' else 1)]
            if t[2][0] == 'inst':
                for d in self.T.subs.get(t[2][1].qual, []):
                    if m.name in d.methods:
                        g = d.methods[m.name]
                        out.append((self.T.func_of_node.get(id(g.node), g), 1))
            return out
        if t and t[0] == 'class':
            r = t[1].lookup('__init__')
            return [(self.T.func_of_node.get(id(r[2].node), r[2]), 1)] if r and r[0] == 'method' else []
        if t is None and isinstance(c.func, ast.Attribute):
            return [(g, 1) for g in self.by_name.get(c.func.attr, []) if g.cls is not None]
        return []

    def draws(self, f, busy=()):
        """does the function (or one it calls) draw or seed?"""
        k = id(f.node)
        if k in self.memo:
            return self.memo[k]
        if k in busy:
            return False
        r = False
        for n in own_nodes(f.node.body):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in DRAWS | {'seed'} and (
                        self.generator(f, n.func.value, {}) or text(n.func.value).split('.')[-1] in ('random', 'rng', '_rng') or
                        isinstance(n.func.value, ast.Name) and n.func.value.id in locals_of(f)):
                    r = True
                x = self.external(f, n.func)
                if x and x.startswith('random.'):
                    r = True
                if not r:
                    r = any(self.draws(g, busy + (k,)) for g, _ in self.targets(f, n))
            if r:
                break
        if not busy or r:
            self.memo[k] = r
        return r

    def entries(self):
        return [f for f in self.funcs if 'seed' in param_names(f) and f.cls is not None and not f.name.startswith('_') and self.draws(f)]

    def run(self):
        es = self.entries()
        for f in es:
            w = Seeds(self, f, (f.qual,))
            w.run(f.node.body, [(frozenset({('seed', 'seed')}), frozenset(), 'any')])
        return es

    # ------------------------------------------------------------------ order
    def reachable(self, roots):
        out, todo = [], list(roots)
        seen = set()
        while todo:
            f = todo.pop()
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            out.append(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    todo += [g for g, _ in self.targets(f, n)]
                if isinstance(n, ast.FunctionDef) and n is not f.node and id(n) in self.T.func_of_node:
                    todo.append(self.T.func_of_node[id(n)])
        return out


SAFE_CALLS = {'len', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'set', 'frozenset', 'bool', 'isinstance'}
SET_OPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)


def returns_set(f, T):
    rs = [n.value for n in own_nodes(f.node.body) if isinstance(n, ast.Return)]
    return bool(rs) and all(r is not None and set_valued(f, r, T, 3) for r in rs)


def set_valued(f, e, T, depth=0, ana=None):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') and T.name(f, e.func.id) is None:
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return set_valued(f, e.func.value, T, depth, ana)
        if ana is not None and depth < 4:
            ts = ana.targets(f, e)
            return bool(ts) and all(returns_set(g, T) for g, _ in ts)
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, SET_OPS):
        return set_valued(f, e.left, T, depth, ana) or set_valued(f, e.right, T, depth, ana)
    if isinstance(e, ast.IfExp):
        return set_valued(f, e.body, T, depth, ana) or set_valued(f, e.orelse, T, depth, ana)
    if isinstance(e, ast.Name) and depth < 4 and e.id in locals_of(f):
        vs = [n.value for n in own_nodes(f.node.body) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(vs) and all(set_valued(f, v, T, depth + 1, ana) for v in vs)
    return False


def unordered_uses(f, T, ana=None):
    """places where the order of a set becomes the order of something else"""
    parent = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            parent[id(c)] = n
    out, count = [], 0
    for n in own_nodes(f.node.body):
        if not isinstance(n, ast.expr) or not set_valued(f, n, T, 0, ana):
            continue
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            continue
        count += 1
        p = parent.get(id(n))
        bad = None
        if isinstance(p, ast.Call) and n in p.args and isinstance(p.func, ast.Name) and p.func.id in ('list', 'tuple', 'enumerate', 'iter', 'map', 'filter', 'zip', 'reversed', 'next'):
            q = parent.get(id(p))
            if not (isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in SAFE_CALLS):
                bad = 'made into an ordered value without sorting'
        elif isinstance(p, ast.For) and p.iter is n:
            bad = 'gone through in its own order'
        elif isinstance(p, ast.comprehension) and p.iter is n:
            q = parent.get(id(p))
            r = parent.get(id(q))
            if isinstance(q, (ast.ListComp, ast.GeneratorExp)) and not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in SAFE_CALLS):
                bad = 'gone through in its own order'
        elif isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('join', 'extend') and n in p.args:
            bad = 'put in a sequence in its own order'
        elif isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'pop' and p.func.value is n:
            bad = 'popped in its own order'
        if bad:
            out.append((n, bad))
    return out, count
