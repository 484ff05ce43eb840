"""Comparison of the summary of a function with that of its reference."""
from .terms import *
from .models import *
from .summary import summarise
from .prog import AnalysisError
from .guide import pool
from .interp import STUCK


def run(s, model, ignore=(), effects=False, aspects=('value', 'changes', 'globals')):
    """what a model makes of a summary: ('raises',) | ('stops',) | ('returns', {aspect: structure}, undetermined)"""
    for n in model.spec:
        model.root(n, 'any')
    ev = Ev(s, model)
    rf = Reify(ev, ignore)
    for r in s.I.raises:
        if r[1] is STUCK and ev.true(r[0], ev.top):
            raise Unknown(STUCK)
    for r in s.I.raises:
        if ev.true(r[0], ev.top):
            return ('raises', {}, {})
    if s.st.live is FALSE or not ev.true(s.st.live, ev.top):
        return ('stops', {}, {})
    out = {}

    def part(name, f):
        try:
            out[name] = f()
        except (Unknown, Bottom) as x:
            out[name] = rf.wild(x)

    part('value', lambda: rf.value(ev.ev(s.value, ev.top), 'result'))
    if 'changes' in aspects:
        part('changes', lambda: changes(s, model, rf))
    if 'globals' in aspects:
        part('globals', lambda: rf.globals())
    if effects:
        part('effects', lambda: tuple(dump_effects(s, ev, rf)))
    if 'value' not in aspects:
        del out['value']
    return ('returns', out, rf.wilds)


def changes(s, model, rf):
    ch = []
    for name, v in sorted(model.roots.items()):
        if isinstance(v, Ent):
            ch.extend(rf.final(v))
    return tuple(sorted(ch, key=lambda kv: kv[0]))


def dump_effects(s, ev, rf):
    """what is handed to files, in the order in which it happens"""
    found = []
    first = {}
    for n, (kind, args, kw, st, node, lids) in enumerate(s.I.dumps):
        e2 = Ev(s, ev.m)
        e2.st = st
        r2 = Reify(e2, rf.ignore)
        if None in lids:
            raise Unknown('written in a comprehension')
        for lid in lids:
            first.setdefault(lid, n)

        def at(env, rest, key):
            if rest:
                for i, rec in enumerate(e2.sim(rest[0], env).all()):
                    if rec.run and not rec.left:
                        at(e2.at_record(rec, env), rest[1:], key + (first[rest[0]], i))
                return
            if e2.true(st.live, env):
                x = (kind,) + tuple(r2.value(e2.ev(a, env)) for a in args)
                x += tuple((k, r2.value(e2.ev(kw[k], env))) for k in sorted(kw))
                found.append((key + (n,), x))
        at(e2.top, lids, ())
    out = []
    for _, x in sorted(found, key=lambda kx: kx[0]):
        # consecutive writes of text to one file are one write
        if x[0] == 'write' and out and out[-1][:2] == x[:2] and len(x) == 3 and isinstance(x[2], str) and isinstance(out[-1][2], str):
            out[-1] = out[-1][:2] + (out[-1][2] + x[2],)
        else:
            out.append(x)
    return out


class Diff(object):
    """a model in which two summaries denote different things"""

    def __init__(self, seed, model, aspect, where, want, got):
        self.seed, self.model, self.aspect, self.where, self.want, self.got = seed, model, aspect, where, want, got

    def inputs(self):
        return describe(self.model)


class Result(object):
    def __init__(self):
        self.agree = self.partial = self.unknown = self.bottom = 0
        self.diff = None
        self.why = {}


def first_difference(x, y, at=''):
    """innermost place where two outcomes differ"""
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[:1] == y[:1] and len(x) == len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if not same(a, b):
                lab = ''
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and isinstance(b, tuple) and len(b) == 2 and a[0] == b[0]:
                    return first_difference(a[1], b[1], at + '.' + a[0])
                if x[0] in ('list', 'tuple', 'dict'):
                    lab = '[%d]' % (i - 1)
                return first_difference(a, b, at + lab)
    return at, x, y


def diff_of(oa, ob, norm=None):
    """(aspect, where, want, got) or None"""
    for asp in oa:
        x, y = oa[asp], ob.get(asp, WILD)
        if norm is not None:
            x, y = norm(asp, x), norm(asp, y)
        if isinstance(x, Wild) or y is WILD:
            continue
        if asp == 'changes':
            dx, dy = dict(x), dict(y)
            for k in sorted(set(dx) | set(dy)):
                if k not in dx or k not in dy:
                    # a field one side never sets
                    a, b = dx.get(k, 'unset'), dy.get(k, 'unset')
                else:
                    a, b = dx[k], dy[k]
                if not same(a, b):
                    w, p, q = first_difference(a, b)
                    return asp, k + w, p, q
        elif not same(x, y):
            w, p, q = first_difference(x, y)
            return asp, asp + w, p, q
    return None


def names(prog):
    return {'.' + f.name for f in prog.functions()}


def mentions(x, heads):
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == 'opaque' and x[1] in heads:
            return True
        return any(mentions(y, heads) for y in x)
    return False


def compare(sa, sb, n=40, domains=None, ignore=(), effects=False, aspects=('value', 'changes', 'globals'), norm=None, sizes=None, base=0):
    """sa: reference, sb: code under analysis"""
    res = Result()
    steps = [0]
    near = pool(sa, sb)
    fresh = names(sb.I.prog) - names(sa.I.prog)
    for k in range(n * 6):
        if k >= n and steps[0] > n * 1500:
            break       # cheap summaries are looked at in more models
        kw = {'sizes': sizes} if sizes else {}
        m = Model((base + k) * 7919 + 13, sa.I.schemas, sa.roots, domains, **kw)
        m.steps = steps
        if k % 3 == 2:
            m.pool = near
        elif k % 6 == 4:
            m.twins = True
        try:
            oa = run(sa, m, ignore, effects, aspects)
            ob = run(sb, m, ignore, effects, aspects)
        except Unknown as x:
            res.unknown += 1
            res.why[str(x)] = res.why.get(str(x), 0) + 1
            continue
        except Bottom as x:
            res.bottom += 1
            res.why['stops: ' + str(x)] = res.why.get('stops: ' + str(x), 0) + 1
            continue
        if oa[0] != ob[0]:
            res.diff = Diff(k, m, 'outcome', 'outcome', oa[0], ob[0])
            return res
        for w in list(oa[2]) + list(ob[2]):
            res.why['part: ' + w] = res.why.get('part: ' + w, 0) + 1
        if oa[0] == 'returns':
            d = diff_of(oa[1], ob[1], norm)
            if d and mentions(d[3], fresh):
                # a call the analysis could not resolve of a function the reference does not have
                res.unknown += 1
                res.why['unresolved call'] = res.why.get('unresolved call', 0) + 1
                continue
            if d:
                res.diff = Diff(k, m, *d)
                return res
        if oa[2] or ob[2]:
            res.partial += 1
        else:
            res.agree += 1
    return res


def describe(model):
    """the inputs of a model, readable"""
    out = {}

    def show_in(v, depth=0):
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else '%d/%d' % (v.numerator, v.denominator)
        if isinstance(v, tuple):
            return '(%s)' % ', '.join(str(show_in(x)) for x in v)
        if isinstance(v, Ent):
            if depth > 3:
                return '...'
            if v.kind == 'inst':
                d = {n: show_in(x, depth + 1) for n, x in sorted(v.memo.items())}
                if v.items:
                    d['items'] = [show_in(x, depth + 1) for _, x in v.items]
                return d
            its = model.items(v)
            if v.kind == 'dict':
                return {str(show_in(k)): show_in(x, depth + 1) for k, x in its}
            return [show_in(x, depth + 1) for _, x in its]
        if isinstance(v, (str, bool)) or v is None:
            return v
        return repr(v)
    for n, v in sorted(model.roots.items()):
        out[n] = show_in(v)
    return out


def always(s, n, domains=None, sizes=None, base=0):
    """is the value of the summary true in every model?"""
    res = Result()
    for k in range(n):
        kw = {'sizes': sizes} if sizes else {}
        m = Model((base + k) * 7919 + 13, s.I.schemas, s.roots, domains, **kw)
        for name in m.spec:
            m.root(name, 'any')
        ev = Ev(s, m)
        try:
            if any(r[1] is STUCK and ev.true(r[0], ev.top) for r in s.I.raises):
                raise Unknown(STUCK)
            raised = any(ev.true(r[0], ev.top) for r in s.I.raises)
            ok = not raised and ev.truthy(ev.ev(s.value, ev.top))
        except Unknown as x:
            res.unknown += 1
            res.why[str(x)] = res.why.get(str(x), 0) + 1
            continue
        except Bottom as x:
            res.bottom += 1
            res.why['stops: ' + str(x)] = res.why.get('stops: ' + str(x), 0) + 1
            continue
        if not ok:
            res.diff = Diff(k, m, 'law', 'law', True, 'an exception' if raised else 'it does not')
            return res
        res.agree += 1
    return res
