"""Development tool: small semantic changes to every function, to see which of
them no check notices.
usage: python3 tools/mutants.py [function-part] [sample-rate 0..1] [n-models]"""
import ast
import copy
import multiprocessing
import os
import random
import shutil
import sys
import collections

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = '/tmp/gsapi_mutants'
SRC = '/repo/gsapi'
SKIP = ('bassmine', 'gslog', 'gsversion')

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.FloorDiv: ast.Mult}


def mutations(f):
    """[(description, function that changes node in place and returns undo)]"""
    out = []
    doc = f.body[0].value if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
    for n in ast.walk(f):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def m(n=n):
                old = n.ops
                n.ops = [CMP[type(old[0])]()]
                return lambda: setattr(n, 'ops', old)
            out.append(('%d cmp %s' % (ln, ast.unparse(n)), m))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            def m(n=n):
                old = n.op
                n.op = BIN[type(old)]()
                return lambda: setattr(n, 'op', old)
            out.append(('%d bin %s' % (ln, ast.unparse(n)), m))
        if isinstance(n, ast.BoolOp):
            def m(n=n):
                old = n.op
                n.op = ast.Or() if isinstance(old, ast.And) else ast.And()
                return lambda: setattr(n, 'op', old)
            out.append(('%d bool %s' % (ln, ast.unparse(n)), m))
        if isinstance(n, ast.Constant) and n is not doc and isinstance(n.value, (int, float, bool)) and n.value is not None:
            def m(n=n):
                old = n.value
                n.value = (not old) if isinstance(old, bool) else old + 1
                return lambda: setattr(n, 'value', old)
            out.append(('%d const %s' % (ln, n.value), m))
        if isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
            for k in n.keywords:
                if k.arg is None:
                    continue

                def m(n=n, k=k):
                    old = n.keywords
                    n.keywords = [x for x in old if x is not k]
                    return lambda: setattr(n, 'keywords', old)
                out.append(('%d drop keyword %s in %s' % (ln, k.arg, ast.unparse(n)[:60]), m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            def m(n=n):
                old = (n.func, n.args)
                n.func, n.args = ast.Name('__same__', ast.Load()), [old[0].value]

                def undo():
                    n.func, n.args = old
                return undo
            out.append(('%d no copy %s' % (ln, ast.unparse(n)), m))
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, st in enumerate(b):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) or isinstance(st, (ast.AugAssign, ast.Break, ast.Continue)) or \
                            isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Attribute, ast.Subscript)) or \
                            isinstance(st, ast.If) and not st.orelse:
                        if isinstance(st, ast.Expr) and ('Log' in ast.unparse(st)[:30] or 'log.' in ast.unparse(st)[:30] or 'print' in ast.unparse(st)[:6]):
                            continue

                        def m(b=b, i=i, st=st):
                            b[i] = ast.Pass()

                            def undo():
                                b[i] = st
                            return undo
                        out.append(('%d delete %s' % (st.lineno, ast.unparse(st)[:80]), m))
    return out


class Same(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == '__same__':
            return n.args[0]
        return n


def job(j):
    mod, fname, lineno, k, n = j
    src = open(os.path.join(SRC, mod + '.py'), encoding='utf-8').read()
    t = ast.parse(src)
    f = [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and x.name == fname and x.lineno == lineno][0]
    desc, mut = mutations(f)[k]
    mut()
    t2 = Same().visit(t)
    ast.fix_missing_locations(t2)
    d = os.path.join(OUT, 'w%d' % os.getpid())
    g = os.path.join(d, 'gsapi')
    if not os.path.isdir(g):
        os.makedirs(g)
        for x in os.listdir(SRC):
            if x.endswith('.py'):
                shutil.copy(os.path.join(SRC, x), g)
    open(os.path.join(g, mod + '.py'), 'w', encoding='utf-8').write(ast.unparse(t2))
    from sa import runner, prog
    from sa.obligations import O
    S = runner.programs()
    try:
        S['code'] = prog.Program(d)
    except Exception as x:
        return j, desc, 'parse', []
    S['cf'] = runner.index(S['code'])
    caught = []
    tried = 0
    und = 0
    for o in OBS:
        if fname not in REACH[o.name]:
            continue
        tried += 1
        r = runner.one((o, n, 0, 40))
        if r['verdict'] in ('refuted', 'missing'):
            caught.append(o.name)
            break
        if r['verdict'] == 'undetermined':
            und += 1
    shutil.copy(os.path.join(SRC, mod + '.py'), g)
    return j, desc, 'caught' if caught else 'missed(%d tried, %d undetermined)' % (tried, und), caught


def reach():
    """names of functions that may be reached from each obligation, by name"""
    from sa import runner
    S = runner.programs()
    calls = collections.defaultdict(set)
    clsinit = {}
    for q, f in S['sf'].items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                calls[q.split('.')[-1]].add(x.attr)
            elif isinstance(x, ast.Name):
                calls[q.split('.')[-1]].add(x.id)
        ops = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.In: '__eq__'}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Compare):
                for o in x.ops:
                    if type(o) in ops:
                        calls[q.split('.')[-1]].add(ops[type(o)])
            if isinstance(x, ast.Call):
                calls[q.split('.')[-1]].add('__init__')
    out = {}
    for o in OBS:
        if o.text:
            seed = {x.attr for x in ast.walk(ast.parse(o.text)) if isinstance(x, ast.Attribute)} | {'__eq__', '__ne__', '__init__'}
        else:
            seed = {o.qual.split('.')[-1]}
        seen = set()
        todo = list(seed)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(calls.get(x, ()))
        out[o.name] = seen
    return out


def main():
    global OBS, REACH
    part = sys.argv[1] if len(sys.argv) > 1 else ''
    rate = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 40
    from sa import runner
    from sa.obligations import O
    OBS, seen = [], set()
    for p in O:
        if p in ('C08', 'C09', 'C22', 'C24'):
            continue
        for o in O[p]:
            if o.name not in seen:
                seen.add(o.name)
                if not o.law:
                    o.aspects = ('value', 'changes', 'globals', 'effects')
                OBS.append(o)
    REACH = reach()
    rnd = random.Random(5)
    jobs = []
    from sa.prog import Program
    for f in Program().functions():
        if f.module.name in SKIP or part not in f.qual or f.outer is not None:
            continue
        t = ast.parse(open(os.path.join(SRC, f.module.name + '.py'), encoding='utf-8').read())
        g = [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and x.name == f.node.name and x.lineno == f.node.lineno][0]
        for k in range(len(mutations(g))):
            if rnd.random() < rate:
                jobs.append((f.module.name, f.node.name, f.node.lineno, k, n))
    print(len(jobs), 'mutants', flush=True)
    # own function first
    with multiprocessing.get_context('fork').Pool(8) as pool:
        tot = collections.Counter()
        byf = collections.defaultdict(list)
        for j, desc, res, c in pool.imap_unordered(job, jobs, 1):
            tot[res.split('(')[0]] += 1
            if res != 'caught':
                byf[(j[0], j[1], j[2])].append((desc, res))
    for k in sorted(byf):
        print('%s.%s:%d' % k)
        for d, r in sorted(byf[k], key=lambda x: int(x[0].split(' ')[0])):
            print('     ', r, d)
    print(tot)


if __name__ == '__main__':
    main()
