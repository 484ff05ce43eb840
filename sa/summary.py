"""Summaries of functions: analyse one function for all inputs."""
from .terms import *
from .interp import Interp, State, Frame, Seg, ref
from .prog import Class, Func
from .sigs import BY_NAME, CASES
from fractions import Fraction
from .prog import AnalysisError


class Summary(object):
    pass


def sig_cases(prog, func):
    """the argument kinds with which a function is to be looked at"""
    base = {}
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    nd = len(names) - len(a.defaults)
    for i, n in enumerate(names):
        if n == 'self' and func.cls is not None:
            continue
        if n in BY_NAME:
            base[n] = BY_NAME[n]
        elif n in SELF_KIND:
            base[n] = SELF_KIND[n]
        elif i < nd:
            base[n] = 'any'
    out = []
    for c in CASES.get(func.qual, [{}]):
        d = dict(base)
        d.update(c)
        out.append({k: v for k, v in d.items() if k in names or k in ('self',)})
    # everything that has a default left out
    if nd < len(names) and func.qual not in NO_DEFAULTS:
        d = {k: v for k, v in out[0].items() if k not in names[nd:]}
        if d not in out:
            out.append(d)
    return out


NO_DEFAULTS = ()
SELF_KIND = {}


def const_term(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        from fractions import Fraction
        return pconst(Fraction(v))
    if isinstance(v, str):
        return mk('const', v)
    raise AnalysisError('constant %r' % (v,))


def summarise(prog, func, params=None, setup=None, intercept=None, call=None, extra=None):
    """params: {name: kind | list of candidate constants | term}; parameters
    not named keep their default when they have one and are unknown values
    otherwise.  call(I, st) may be given instead to run a composition of
    calls."""
    I = Interp(prog)
    if intercept:
        I.intercept.update(intercept)
    st = State()
    s = Summary()
    s.I, s.st, s.func = I, st, func
    s.roots = I.roots = {}
    if setup:
        setup(I, st)
    I.entry_heap = None

    def arg(n, v):
        if isinstance(v, str):
            s.roots[n] = v
            return I.input(n, v)
        if isinstance(v, (list, tuple)):
            vals = list(v)
            if len(vals) == 1:
                return const_term(vals[0])
            s.roots[n] = [Fraction(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in vals]
            ty = 'str' if all(isinstance(x, str) for x in vals) else 'any'
            return I.input(n, ty)
        return v

    s.arg = arg
    if call is not None:
        s.value = call(s, I, st)
    else:
        kw = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(names) - len(a.defaults)
        for i, n in enumerate(names):
            if params and n in params:
                kw[n] = arg(n, params[n])
            elif n == 'self' and func.cls is not None:
                kw[n] = arg('self', schema_for(I, func.cls))
            elif i < nd:
                kw[n] = arg(n, 'any')
        s.value = I.call_func(func, [], kw, st, None)
    return s


def schema_for(I, cls):
    for k, v in I.schemas.items():
        if v.get('.class') == cls.qual:
            return k
    for c in cls.mro():
        if isinstance(c, Class):
            for k, v in I.schemas.items():
                if v.get('.class') == c.qual:
                    I.schemas['@' + cls.qual] = dict(v, **{'.class': cls.qual})
                    return '@' + cls.qual
    I.schemas['@' + cls.qual] = {'.class': cls.qual}
    return '@' + cls.qual
