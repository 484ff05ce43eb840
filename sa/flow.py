"""A path analysis over the syntax tree of a function.

States are abstract values (hashable); a client says what an expression, a
simple statement and a condition do to a state.  All paths are followed: loops
to a fixed point, branches both ways unless the client finds a branch
infeasible, exceptions from any point of a try body to its handlers."""
import ast
import copy

MAXSTATES = 32
ROUNDS = 3


class Flow(object):
    """override expr, stmt, assume, merge"""

    def __init__(self):
        self.returns = []      # (state, node or None)
        self.raises = []

    # hooks ----------------------------------------------------------------
    def expr(self, e, s):
        """all the states after evaluating an expression in state s"""
        return [s]

    def store(self, target, value, s):
        """after binding target (value: expression or None)"""
        return s

    def assume(self, test, truth, s):
        """the state in which a condition has the given truth, or None"""
        return s

    def empty(self, it, s):
        """may the loop over it be left without a round?  -> state or None"""
        return s

    def nested(self, f, s):
        return s

    def limit(self, states):
        return states

    # engine ---------------------------------------------------------------
    def run(self, body, states):
        out = self.block(body, set(states))
        for s in out['n']:
            self.returns.append((s, None))
        return out

    def cut(self, ss):
        ss = set(ss)
        if len(ss) > MAXSTATES:
            ss = set(self.limit(ss))
        return ss

    def block(self, body, ss):
        res = {'n': set(ss), 'b': set(), 'c': set(), 'x': set()}
        for st in body:
            if not res['n']:
                break
            r = self.one(st, self.cut(res['n']))
            res['n'] = r['n']
            for k in 'bcx':
                res[k] |= r[k]
        return res

    def evals(self, e, ss):
        if e is None:
            return set(ss)
        out = set()
        for s in ss:
            out |= set(self.expr(e, s))
        return out

    def split(self, test, ss):
        """(states where true, states where false)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.split(test.operand, ss)
            return f, t
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            go, done = set(ss), set()
            for v in test.values:
                t, f = self.split(v, go)
                if isand:
                    go, done = t, done | f
                else:
                    go, done = f, done | t
            return (go, done) if isand else (done, go)
        if isinstance(test, ast.Constant):
            return (set(ss), set()) if test.value else (set(), set(ss))
        ss = self.evals(test, ss)
        t = {x for x in (self.assume(test, True, s) for s in ss) if x is not None}
        f = {x for x in (self.assume(test, False, s) for s in ss) if x is not None}
        return t, f

    def assign(self, target, value, ss):
        if isinstance(target, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) else [None] * len(target.elts)
            for t, v in zip(target.elts, vs):
                ss = self.assign(t, v, ss)
            return ss
        if isinstance(target, ast.Starred):
            return self.assign(target.value, None, ss)
        if isinstance(target, (ast.Attribute, ast.Subscript)):
            ss = self.evals(target.value, ss)
            if isinstance(target, ast.Subscript):
                ss = self.evals(target.slice, ss)
        return {self.store(target, value, s) for s in ss}

    def one(self, st, ss):
        res = {'n': set(), 'b': set(), 'c': set(), 'x': set()}
        if isinstance(st, ast.Return):
            for s in self.evals(st.value, ss):
                self.returns.append((s, st))
        elif isinstance(st, ast.Raise):
            ss = self.evals(st.exc, ss)
            res['x'] = ss
            for s in ss:
                self.raises.append((s, st))
        elif isinstance(st, ast.Break):
            res['b'] = ss
        elif isinstance(st, ast.Continue):
            res['c'] = ss
        elif isinstance(st, ast.If):
            from .prog import version_test
            v = version_test(st.test)
            if v is not None:
                return self.version(st, v, ss)
            t, f = self.split(st.test, ss)
            a = self.block(st.body, t)
            b = self.block(st.orelse, self.fall(st, f) if not st.orelse else f)
            for k in res:
                res[k] = a[k] | b[k]
        elif isinstance(st, (ast.While, ast.For)):
            return self.loop(st, ss)
        elif isinstance(st, ast.With):
            for it in st.items:
                ss = self.evals(it.context_expr, ss)
                if it.optional_vars is not None:
                    ss = self.assign(it.optional_vars, it.context_expr, ss)
            return self.block(st.body, ss)
        elif isinstance(st, ast.Try):
            return self.attempt(st, ss)
        elif isinstance(st, ast.Assign):
            ss = self.evals(st.value, ss)
            for t in st.targets:
                ss = self.assign(t, st.value, ss)
            res['n'] = ss
        elif isinstance(st, ast.AnnAssign):
            ss = self.evals(st.value, ss)
            res['n'] = self.assign(st.target, st.value, ss) if st.value is not None else ss
        elif isinstance(st, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(as_load(st.target), st.op, st.value), st)
            ss = self.evals(load, ss)
            res['n'] = self.assign(st.target, load, ss)
        elif isinstance(st, ast.Expr):
            res['n'] = self.evals(st.value, ss)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    ss = {self.delete(t, s) for s in ss}
                else:
                    ss = self.evals(t, ss)
            res['n'] = ss
        elif isinstance(st, ast.Assert):
            t, f = self.split(st.test, ss)
            res['n'] = t
            res['x'] = f
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(st, ast.FunctionDef):
                for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                    ss = self.evals(d, ss)
            n = ast.copy_location(ast.Name(st.name, ast.Store()), st)
            res['n'] = {self.store(n, st, self.nested(st, s)) for s in ss}
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                n = ast.copy_location(ast.Name(a.asname or a.name.split('.')[0], ast.Store()), st)
                ss = {self.store(n, None, s) for s in ss}
            res['n'] = ss
        else:
            res['n'] = set(ss)
        return res

    def delete(self, t, s):
        return s

    def fall(self, st, f):
        """states that pass an if without else"""
        return f

    def version(self, st, v, ss):
        a, b = self.block(st.body, ss), self.block(st.orelse, ss)
        return {k: a[k] | b[k] for k in a}

    def loop(self, st, ss):
        res = {'n': set(), 'b': set(), 'c': set(), 'x': set()}
        isfor = isinstance(st, ast.For)
        if isfor:
            ss = self.evals(st.iter, ss)
            out = {x for x in (self.empty(st.iter, s) for s in ss) if x is not None}
            todo = set(ss)
        else:
            todo, out = self.split(st.test, ss)
        seen = set()
        breaks = set()
        rounds = 0
        while todo - seen and rounds < ROUNDS:
            rounds += 1
            new = self.cut(todo - seen)
            seen |= new
            entry = self.assign(st.target, None, new) if isfor else new
            r = self.block(st.body, entry)
            breaks |= r['b']
            res['x'] |= r['x']
            end = r['n'] | r['c']
            if isfor:
                out |= end
                todo = end
            else:
                t, f = self.split(st.test, end)
                out |= f
                todo = t
        e = self.block(st.orelse, out)
        res['n'] = e['n'] | breaks
        for k in 'bcx':
            res[k] |= e[k]
        return res

    def attempt(self, st, ss):
        res = {'n': set(), 'b': set(), 'c': set(), 'x': set()}
        mid = set(ss)
        n = set(ss)
        r = {'n': set(ss), 'b': set(), 'c': set(), 'x': set()}
        for x in st.body:
            q = self.one(x, n)
            for k in 'bcx':
                r[k] |= q[k]
            n = q['n']
            mid |= n | q['x']
            if not n:
                break
        r['n'] = n
        if st.handlers:
            r['x'] = set()
        if st.orelse:
            q = self.block(st.orelse, r['n'])
            r['n'] = q['n']
            for k in 'bcx':
                r[k] |= q[k]
        for h in st.handlers:
            hs = mid
            if h.name:
                hs = self.assign(ast.copy_location(ast.Name(h.name, ast.Store()), h), None, hs)
            q = self.block(h.body, hs)
            for k in r:
                r[k] |= q[k]
        if st.finalbody:
            for k in r:
                if r[k]:
                    q = self.block(st.finalbody, r[k])
                    res[k] |= q['n']
                    for j in 'bcx':
                        res[j] |= q[j]
            return res
        return r


def as_load(t):
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
            x.ctx = ast.Load()
    return t


def loc(node, f):
    return '%s:%d' % (f.module.rel, getattr(node, 'lineno', f.node.lineno))
