"""Development tool: behaviour-preserving rewrites of the whole package, on
which every check has to stay quiet.
usage: python3 tools/rewrites.py [rewrite-name-part] [function-part]"""
import ast
import copy
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = '/tmp/gsapi_rewrites'


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


class SwapIf(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and 'version_info' not in ast.unparse(n.test):
            return ast.If(neg(n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(neg(n.test), n.orelse, n.body)


class NestAnd(ast.NodeTransformer):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class AugAssign(ast.NodeTransformer):
    """x += e -> x = x + e (names bound to numbers or text only)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and not isinstance(n.value, (ast.List, ast.ListComp)) and not (
                isinstance(n.value, ast.Call) and isinstance(n.op, ast.Add)):
            return ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=0)
        if isinstance(n.target, ast.Attribute) and isinstance(n.op, (ast.Mult, ast.Sub)):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value), lineno=0)
        return n


class EarlyContinue(ast.NodeTransformer):
    """last `if c: body` of a loop -> if not c: continue; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return n


class CompToLoop(ast.NodeTransformer):
    """return [e for x in xs if c] / v = [...] -> loop with append"""
    def __init__(self):
        self.k = 0

    def expand(self, comp, name):
        self.k += 1
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], lineno=0)]
        return [ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load()), lineno=0)] + body

    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp):
            nm = 'collected_%d' % self.k
            return self.expand(n.value, nm) + [ast.Return(ast.Name(nm, ast.Load()))]
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.targets) == 1:
            nm = 'collected_%d' % self.k
            return self.expand(n.value, nm) + [ast.Assign(n.targets, ast.Name(nm, ast.Load()), lineno=0)]
        return n


class LoopToIndex(ast.NodeTransformer):
    """for x in xs.attr: -> for i in range(len(xs.attr)): x = xs.attr[i] (lists that the loop leaves alone)"""
    def __init__(self):
        self.k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and n.iter.attr in ('events', 'patterns', 'patternList', 'weights') and isinstance(n.iter.value, ast.Name):
            src = ast.unparse(ast.Module(n.body, []))
            it = ast.unparse(n.iter)
            if it + '.' in src or it + ' =' in src or it + '[' in src or 'addEvent' in src or 'self.' in src and '(' in src and it.startswith('self') and 'self.events' != it:
                return n
            self.k += 1
            i = 'position_%d' % self.k
            return ast.For(ast.Name(i, ast.Store()),
                           ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [n.iter], [])], []),
                           [ast.Assign([n.target], ast.Subscript(n.iter, ast.Name(i, ast.Load()), ast.Load()), lineno=0)] + n.body, n.orelse, lineno=0)
        return n


class LoopToWhile(LoopToIndex):
    def visit_For(self, n):
        if any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
            return n
        r = LoopToIndex.visit_For(self, n)
        if isinstance(r, ast.For) and isinstance(r.target, ast.Name) and r.target.id.startswith('position_') and not r.orelse:
            i = r.target.id
            ln = r.iter.args[0]
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0), lineno=0),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ln]),
                              r.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return r


class Temp(ast.NodeTransformer):
    """return e -> answer = e; return answer; and operands of comparisons to variables"""
    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            return [ast.Assign([ast.Name('answer_', ast.Store())], n.value, lineno=0), ast.Return(ast.Name('answer_', ast.Load()))]
        return n


class TempIf(ast.NodeTransformer):
    """if e: -> test = e; if test:"""
    def __init__(self):
        self.k = 0

    def visit_If(self, n):
        self.generic_visit(n)
        if 'version_info' in ast.unparse(n.test) or isinstance(n.test, ast.Name):
            return n
        self.k += 1
        nm = 'test_%d' % self.k
        return [ast.Assign([ast.Name(nm, ast.Store())], n.test, lineno=0), ast.If(ast.Name(nm, ast.Load()), n.body, n.orelse)]


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = n.body + [ast.Pass()] if False else ([n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []) + \
            [ast.Assign([ast.Name('unused_', ast.Store())], ast.Constant(0), lineno=0), ast.Expr(ast.Constant(None))] + \
            (n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body)
        return n


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global)) for b in n.body for x in ast.walk(b)):
            return n
        args = {a.arg for a in n.args.args} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_rn'
        return n


class Flip(ast.NodeTransformer):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and 'version_info' not in ast.unparse(n):
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and 'other' in ast.unparse(n):
                return n
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class NotCmp(ast.NodeTransformer):
    """a < b -> not (a >= b)"""
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and 'version_info' not in ast.unparse(n):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class Helper(object):
    """the body of every method moves to a private helper"""
    def visit(self, tree):
        new = []
        for st in tree.body:
            if isinstance(st, ast.ClassDef):
                self.cls(st)
            if isinstance(st, ast.FunctionDef) and not st.args.vararg and not st.args.kwarg:
                h, st2 = self.split(st, False)
                if h is not None:
                    new.append(h)
            new.append(st)
        tree.body = new
        return tree

    def cls(self, c):
        new = []
        for st in c.body:
            if isinstance(st, ast.FunctionDef) and not st.decorator_list and not (st.name.startswith('__')) and st.args.args[0].arg != 'cls' and not st.args.vararg \
                    and not st.args.kwarg and not any(isinstance(x, ast.Yield) for x in ast.walk(st)):
                h, _ = self.split(st, True)
                if h is not None:
                    new.append(h)
            new.append(st)
        c.body = new

    def split(self, f, method):
        if 'class ' in ast.unparse(f):
            return None, f
        body = f.body
        doc = []
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body:
            return None, f
        names = [a.arg for a in f.args.args]
        h = ast.FunctionDef('_inner_' + f.name.strip('_'), ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body, [], lineno=0)
        if method:
            call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names[1:]], [])
        else:
            call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        f.body = doc + [ast.Return(call)]
        return h, f


class Hoist(ast.NodeTransformer):
    """self.attr read through a local alias: e = self.events for loops"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Attribute,)):
            return [ast.Assign([ast.Name('source_', ast.Store())], n.iter, lineno=0), ast.For(n.target, ast.Name('source_', ast.Load()), n.body, n.orelse, lineno=0)]
        return n


class ListCopy(ast.NodeTransformer):
    """for x in xs -> for x in list(xs) where the loop does not change xs"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = ast.unparse(n.iter)
        src = ast.unparse(ast.Module(n.body, []))
        if isinstance(n.iter, ast.Attribute) and it not in src:
            return ast.For(n.target, ast.Call(ast.Name('list', ast.Load()), [n.iter], []), n.body, n.orelse, lineno=0)
        return n


class IfExpStmt(ast.NodeTransformer):
    """x = a if c else b -> if c: x = a else: x = b"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body, lineno=0)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse, lineno=0)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n


class ReturnElse(object):
    """if c: ...return / rest -> if c: ... else: rest"""
    def visit(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                n.body = self.fix(n.body)
        return tree

    def fix(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                st.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
        return n


REWRITES = [SwapIf, NestAnd, AugAssign, EarlyContinue, CompToLoop, LoopToIndex, LoopToWhile, Temp, TempIf, Noop, Rename, Flip, NotCmp, Helper,
            Hoist, ListCopy, IfExpStmt, ReturnElse, DeMorgan]


def build(cls, src='/repo/gsapi', out=OUT):
    d = os.path.join(out, cls.__name__)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'gsapi'))
    for f in sorted(os.listdir(src)):
        if f.endswith('.py'):
            s = open(os.path.join(src, f), encoding='utf-8').read()
            t = ast.parse(s)
            if f != 'bassmine.py':
                t = cls().visit(t)
            ast.fix_missing_locations(t)
            r = ast.unparse(t)
            ast.parse(r)
            open(os.path.join(d, 'gsapi', f), 'w', encoding='utf-8').write('# -*- coding: utf-8 -*-\n' + r + '\n')
    return d


def judge(label, d, fpart='', n=40):
    """every obligation once, against the copy in d"""
    pid = os.fork()
    if pid == 0:
        from sa import prog
        prog.REPO = d
        from sa import runner
        runner.REPO = d
        from sa.obligations import O
        seen, obs = set(), []
        for p in O:
            if p in ('C08', 'C09', 'C22', 'C24'):
                continue
            for o in O[p]:
                k = (o.name, o.law, str(o.text))
                if k not in seen and fpart in o.name:
                    seen.add(k)
                    o.aspects = ('value', 'changes', 'globals', 'effects')
                    obs.append(o)
        res = runner.run_all(obs, n, 0, 60)
        bad = [r for r in res if r['verdict'] in ('refuted', 'missing', 'error')]
        print('%s: %d functions, %d agree, %d undetermined, %d ALARMS, %.0fs' % (label, len(res), sum(r['verdict'] == 'agrees' for r in res),
              sum(r['verdict'] == 'undetermined' for r in res), len(bad), sum(r.get('seconds', 0) for r in res)))
        for r in bad:
            k = r['cases'][-1] if r['cases'] else {}
            print('   ', r['function'], r['verdict'], k.get('case'), {a: b for a, b in (k.get('diff') or {}).items() if a not in ('inputs',)} if not fpart else k.get('diff'))
        for r in res:
            for k in r['cases']:
                if k['verdict'] == 'undetermined':
                    print('    und', r['function'], k.get('note'), k.get('why'))
        sys.stdout.flush()
        os._exit(0)
    os.waitpid(pid, 0)


def main():
    part = sys.argv[1] if len(sys.argv) > 1 else ''
    fpart = sys.argv[2] if len(sys.argv) > 2 else ''
    for c in REWRITES:
        if part and part.lower() not in c.__name__.lower():
            continue
        judge(c.__name__, build(c), fpart)


if __name__ == '__main__':
    main()
