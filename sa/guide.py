"""Constants of a summary: which inputs are worth looking at.

A condition such as `duration < 0.001` or `text == "abc"` distinguishes inputs
only near its constant, so part of the models take their numbers and texts
from the constants of the two summaries that are compared (those found in one
of them only come first)."""
from fractions import Fraction
from .terms import Term, Node
from .interp import Seg, Obj
from .loops import LoopDef

WALK = (Seg, Obj, LoopDef)
LIMIT = 60000


def consts(s):
    """(numbers, texts) of everything a summary is made of"""
    c = getattr(s, '_consts', None)
    if c is not None:
        return c
    nums, strs, seen = set(), set(), set()
    todo = [s.value, s.st.live, [r[0] for r in s.I.raises], list(s.I.loops.values()), list(s.st.heap.values()),
            [d[1:3] for d in s.I.dumps]]
    n = 0
    while todo and n < LIMIT:
        x = todo.pop()
        if isinstance(x, (str, int, bool, Fraction)) or x is None:
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        n += 1
        if isinstance(x, Term):
            if x.op == 'poly':
                number(x.args, nums)
                for m, _ in x.args:
                    todo.extend(t for t, _ in m)
            elif x.op == 'const':
                if isinstance(x.args[0], str) and len(x.args[0]) < 40:
                    strs.add(x.args[0])
            else:
                todo.extend(x.args)
        elif isinstance(x, Node):
            todo.extend(x.var.args)
            todo.append(x.hi)
            todo.append(x.lo)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
        elif isinstance(x, WALK):
            if isinstance(x, Obj):
                todo.append(x.fields)
                todo.append(x._segs)
            elif isinstance(x, Seg):
                todo.extend((x.src, x.guard, x.val, x.key))
            else:
                todo.extend((x.guard, x.test, x.leave, x.vars))
    s._consts = nums, strs
    return s._consts


def number(items, nums):
    c0 = None
    ks = []
    for m, c in items:
        if m == ():
            c0 = c
        else:
            ks.append(c)
    if c0 is not None and abs(c0) < 10 ** 6:
        nums.add(abs(c0))
        if len(ks) == 1 and abs(ks[0]) != 1:
            nums.add(abs(c0 / ks[0]))
    for k in ks:
        if k.denominator != 1 and abs(k.numerator) == 1:
            nums.add(Fraction(k.denominator))


def pool(sa, sb):
    """(numbers, texts, length): those of one summary only come first"""
    (na, ta), (nb, tb) = consts(sa), consts(sb)
    own = sorted(na ^ nb)
    nums = (own + sorted(na & nb, key=lambda x: (x > 200, x)))[:14]
    strs = (sorted(ta ^ tb) + sorted(ta & tb, key=lambda t: (len(t), t)))[:10]
    long = [int(c) for c in own if c.denominator == 1 and 4 <= c <= 24]
    return nums, strs, (long[-1] + 2 if long else 0)
