"""Value domain of the analysis: hash-consed terms, canonical polynomials, and
gated values (decision diagrams whose tests are canonical conditions and whose
leaves are terms).

Two pieces of source that compute the same thing by different statements get
the same value here, so the rules compare meanings and not spellings.  Nothing
is ever evaluated on concrete data and no solver is involved: equality is
identity of normal forms.
"""
from fractions import Fraction
import hashlib
import sys

sys.setrecursionlimit(20000)


class Term(object):
    __slots__ = ('op', 'args', 'ty', 'sk', 'size')

    def __repr__(self):
        return show(self)


_intern = {}


def skey(v):
    return v.sk


def mk(op, *args, **kw):
    ty = kw.get('ty', 'any')
    key = (op, args, ty if op == 'sym' else None)
    t = _intern.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        t.size = 1 + sum(getattr(a, 'size', 1) for a in args)
        t.sk = _short(op + '(' + ','.join(_ks(a) for a in args) + ')')
        _intern[key] = t
    return t


def _short(s):
    """sort keys name terms that share their parts: kept short"""
    if len(s) < 240:
        return s
    return s[:40] + '~' + hashlib.blake2b(s.encode('utf-8', 'replace'), digest_size=12).hexdigest()


def _ks(a):
    if isinstance(a, (Term, Node)):
        return a.sk
    if isinstance(a, tuple):
        return '<' + ','.join(_ks(x) for x in a) + '>'
    return type(a).__name__[0] + repr(a)


# ---------------------------------------------------------------- constants

def const(c):
    """A non numeric constant, or a number (numbers are polynomials)."""
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, (int, float, Fraction)):
        return pconst(c)
    if c is None:
        return NONE
    if isinstance(c, bytes):
        c = c.decode('latin-1')
    return mk('const', c, ty='str')


NONE = mk('none')
TRUE = mk('true', ty='bool')
FALSE = mk('false', ty='bool')
UNDEF = mk('undef')
NEGINF = mk('neginf', ty='num')
POSINF = mk('posinf', ty='num')

_unk = [0]


def unk(reason, *roots):
    """A value the analysis does not know.  Roots: what it may depend on."""
    _unk[0] += 1
    return mk('unk', reason, _unk[0])


def reset():
    _unk[0] = 0


# -------------------------------------------------------------- polynomials
# args: tuple of (monomial, coefficient), monomial: tuple of (term, exponent)

def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: (tuple((t.sk, e) for t, e in mc[0])))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    key = ('poly', tuple(items), None)
    t = _intern.get(key)
    if t is None:
        t = Term()
        t.op, t.args = 'poly', tuple(items)
        t.ty = 'int' if all(c.denominator == 1 and all(e > 0 and x.ty == 'int' for x, e in m) for m, c in items) else 'num'
        t.size = 1 + sum(sum(x.size for x, _ in m) + 1 for m, _ in items)
        t.sk = _short('poly(' + '+'.join('%s*%s' % (c, '.'.join('%s^%d' % (x.sk, e) for x, e in m)) for m, c in items) + ')')
        _intern[key] = t
    return t


def pconst(c):
    return _mkpoly({(): Fraction(c)})


def pd(t):
    """dict view of a numeric term"""
    if t.op == 'poly':
        return dict(t.args)
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def padd(a, b, k=1):
    d = pd(a)
    for m, c in pd(b).items():
        d[m] = d.get(m, 0) + k * c
    return _mkpoly(d)


def psub(a, b):
    return padd(a, b, -1)


def _mmul(m1, m2):
    d = {}
    for t, e in m1 + m2:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda te: te[0].sk))


def pmul(a, b):
    d = {}
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def pdiv(a, b):
    db = pd(b)
    if not db:
        return mk('app', 'div0', a)
    if len(db) == 1:
        (m, c), = db.items()
        inv = _mkpoly({tuple((t, -e) for t, e in m): 1 / c})
        return pmul(a, inv)
    # scale so that the group has leading coefficient one
    lead = b.args[0][1]
    grp = mk('grp', pmul(b, pconst(1 / lead)), ty='num')
    if a.op == 'poly' and len(a.args) == len(b.args):
        r = a.args[0][1] / lead
        if padd(a, b, -r) is ZERO:
            return pconst(r)
    return pmul(a, _mkpoly({((grp, -1),): 1 / lead}))


ZERO = pconst(0)
ONE = pconst(1)


def is_num_const(t):
    return t.op == 'poly' and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def num_value(t):
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return t.args[0][1] if t.args else Fraction(0)


def is_numeric(t):
    return t.ty in ('num', 'int') or t.op == 'poly'


def pos(p):
    """max(p, 0), oriented so that pos(p) and pos(-p) share one atom."""
    if is_num_const(p):
        return p if num_value(p) > 0 else ZERO
    dp = p.args if p.op == 'poly' else (((((p, 1),), Fraction(1))),)
    # common monomial sign is unknown: only constants are factored out
    lead = [c for m, c in dp if m != ()][0]
    q = pmul(p, pconst(1 / abs(lead)))
    k = pconst(abs(lead))
    if nonneg(q):
        return pmul(k, q)
    if lead > 0:
        return pmul(k, mk('pos', q, ty=q.ty))
    nq = pmul(q, pconst(-1))
    if nonneg(nq):
        return ZERO
    return pmul(k, padd(mk('pos', nq, ty=nq.ty), q))


def tmax(a, b):
    if a is NEGINF:
        return b
    if b is NEGINF:
        return a
    return padd(b, pos(psub(a, b)))


def tmin(a, b):
    if a is POSINF:
        return b
    if b is POSINF:
        return a
    return psub(a, pos(psub(a, b)))


def nonneg(t):
    """True when every possible value is known to be >= 0 (syntactically)."""
    if is_num_const(t):
        return num_value(t) >= 0
    if t.op == 'pos':
        return True
    if t.op == 'len' or (t.op == 'app' and t.args[0] in ('idx',)):
        return True
    if t.op == 'sum':
        return all(is_num_const(l) and num_value(l) >= 0 for l in leaves(t.args[1]))
    if t.op == 'poly':
        return all(c > 0 and all(e % 2 == 0 or nonneg(x) for x, e in m) for m, c in t.args)
    return False


# ------------------------------------------------------- gated values (MTBDD)

class Node(object):
    __slots__ = ('var', 'hi', 'lo', 'sk', 'size')

    def __repr__(self):
        return show(self)


_nodes = {}
_atoms = {}      # atom key -> Atom
_atom_list = []
SOFT = 3000         # a larger distinction between plain values is kept as one value
LIMIT = 3000        # and one larger than this is given up


class Atom(object):
    __slots__ = ('kind', 'args', 'idx', 'opaque')

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(show(a) if isinstance(a, (Term, Node)) else str(a) for a in self.args))


def atom(kind, *args):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        a.idx = len(_atom_list)
        _atom_list.append(a)
        _atoms[key] = a
    return a


def leaf(v):
    return isinstance(v, Term)


class TooBig(Exception):
    pass


_boxes = {}


def box(v):
    """a large case distinction between plain values, kept as one value"""
    if leaf(v) or v.size < 40:
        return v
    b = _boxes.get(id(v))
    if b is not None:
        return b
    tys = set()
    for l in leaves(v):
        if l is TRUE or l is FALSE:
            tys.add('bool')
        elif l.ty in ('str', 'num', 'int') and l.op not in ('ref', 'unk', 'undef'):
            tys.add(l.ty)
        else:
            return v
    if tys == {'bool'}:
        t = mk('box', v)
        t.sk, t.size = 'box#%d' % len(_boxes), 8
        b = var_guard(atom('TRUTH', t))
    elif tys == {'str'} or tys and tys <= {'num', 'int'}:
        b = mk('box', v, ty='str' if tys == {'str'} else ('int' if tys == {'int'} else 'num'))
        b.sk, b.size = 'box#%d' % len(_boxes), 8
    else:
        return v
    _boxes[id(v)] = b
    return b


def node(var, hi, lo):
    if hi is lo:
        return hi
    key = (var.idx, id(hi), id(lo))
    n = _nodes.get(key)
    if n is not None:
        return n
    # max/min recognised as such
    if var.kind == 'G' and leaf(hi) and leaf(lo) and _numlike(hi) and _numlike(lo):
        d = psub(hi, lo)
        p = var.args[0]
        r = _ratio(d, p)
        if r is not None:
            v = tmax(hi, lo) if r > 0 else tmin(hi, lo)
            _nodes[key] = v
            return v
    if var.kind == 'I' and leaf(hi) and leaf(lo) and _numlike(hi) and _numlike(lo):
        d = psub(hi, lo)
        p = var.args[0]
        r = _ratio(d, p) or _ratio(d, psub(p, ONE))
        if r is not None:
            v = tmax(hi, lo) if r > 0 else tmin(hi, lo)
            _nodes[key] = v
            return v
    if var.kind == 'Z' and leaf(hi) and leaf(lo) and _numlike(hi) and _numlike(lo):
        # under p == 0 both arms agree when they differ by a multiple of p
        # (or of pos(p))
        p = var.args[0]
        d = psub(hi, lo)
        if _vanishes(d, p):
            _nodes[key] = lo
            return lo
    n = Node()
    n.var, n.hi, n.lo = var, hi, lo
    n.size = 1 + hi.size + lo.size
    if n.size > SOFT:
        h2, l2 = box(hi), box(lo)
        n.hi, n.lo = h2, l2
        n.size = 1 + h2.size + l2.size
        if n.size > LIMIT:
            raise TooBig()
        if h2 is l2:
            _nodes[key] = h2
            return h2
        hi, lo = h2, l2
    n.sk = _short('if(%d,%s,%s)' % (var.idx, hi.sk, lo.sk))
    _nodes[key] = n
    return n


def _numlike(t):
    return is_numeric(t)


def _ratio(d, p):
    """r when d == r*p for a constant r != 0, else None"""
    if d.op != 'poly' and p.op != 'poly':
        return Fraction(1) if d is p else None
    dd, pp = pd(d), pd(p)
    if not pp or len(dd) != len(pp):
        return None
    r = None
    for m, c in pp.items():
        if m not in dd:
            return None
        q = dd[m] / c
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def _vanishes(d, p):
    if d is ZERO:
        return True
    if _ratio(d, p) is not None:
        return True
    # replace pos(p') by 0 where p' is p up to sign/scale
    dd = {}
    changed = False
    for m, c in pd(d).items():
        if any(t.op == 'pos' and _ratio(t.args[0], p) is not None for t, e in m):
            changed = True
            continue
        dd[m] = c
    if not changed:
        return False
    d2 = _mkpoly(dd)
    return d2 is ZERO or _ratio(d2, p) is not None


def topvar(*vs):
    best = None
    for v in vs:
        if isinstance(v, Node) and (best is None or v.var.idx < best.idx):
            best = v.var
    return best


def cof(v, var, val):
    if isinstance(v, Node) and v.var is var:
        return v.hi if val else v.lo
    return v


def ite(g, a, b, memo=None):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    if memo is None:
        memo = {}
    key = (id(g), id(a), id(b))
    r = memo.get(key)
    if r is not None:
        return r
    var = topvar(g, a, b)
    if var is None:
        raise TypeError('guard is not boolean: %s' % show(g))
    r = node(var,
             ite(cof(g, var, 1), cof(a, var, 1), cof(b, var, 1), memo),
             ite(cof(g, var, 0), cof(a, var, 0), cof(b, var, 0), memo))
    memo[key] = r
    return r


def apply1(f, v, memo=None):
    if leaf(v):
        return f(v)
    if memo is None:
        memo = {}
    r = memo.get(id(v))
    if r is None:
        # the result of f may itself be gated on variables above
        h, l = apply1(f, v.hi, memo), apply1(f, v.lo, memo)
        r = ite(var_guard(v.var), h, l)
        memo[id(v)] = r
    return r


def apply2(f, a, b, memo=None):
    if leaf(a) and leaf(b):
        return f(a, b)
    if memo is None:
        memo = {}
    key = (id(a), id(b))
    r = memo.get(key)
    if r is None:
        var = topvar(a, b)
        h = apply2(f, cof(a, var, 1), cof(b, var, 1), memo)
        l = apply2(f, cof(a, var, 0), cof(b, var, 0), memo)
        r = ite(var_guard(var), h, l)
        memo[key] = r
    return r


def applyn(f, vs):
    """apply f to lists of leaves"""
    vs = list(vs)
    if all(leaf(v) for v in vs):
        return f(*vs)
    var = topvar(*vs)
    h = applyn(f, [cof(v, var, 1) for v in vs])
    l = applyn(f, [cof(v, var, 0) for v in vs])
    return ite(var_guard(var), h, l)


def var_guard(var):
    return node(var, TRUE, FALSE)


def g_not(g):
    return ite(g, FALSE, TRUE)


def g_and(*gs):
    r = TRUE
    for g in gs:
        if r is FALSE:
            return FALSE
        r = ite(r, g, FALSE)
    return r


def g_or(*gs):
    r = FALSE
    for g in gs:
        r = ite(r, TRUE, g)
    return r


def g_implies(a, b):
    """a => b holds in the diagram domain"""
    return ite(a, b, TRUE) is TRUE


def under(g, v):
    """v simplified by assuming g (generalised cofactor); v outside g is arbitrary."""
    memo = {}

    def rec(g, v):
        if g is TRUE or g is FALSE or leaf(v):
            return v
        key = (id(g), id(v))
        if key in memo:
            return memo[key]
        var = topvar(g, v)
        g1, g0 = cof(g, var, 1), cof(g, var, 0)
        if g1 is FALSE:
            r = rec(g0, cof(v, var, 0))
        elif g0 is FALSE:
            r = rec(g1, cof(v, var, 1))
        else:
            r = node(var, rec(g1, cof(v, var, 1)), rec(g0, cof(v, var, 0)))
        memo[key] = r
        return r
    return rec(g, v)


def same(a, b, g=TRUE):
    """a and b are the same value wherever g holds"""
    if a is b:
        return True
    return ite(g, a, UNDEF) is ite(g, b, UNDEF)


def leaves(v):
    out, seen = [], set()

    def rec(v):
        if id(v) in seen:
            return
        seen.add(id(v))
        if leaf(v):
            out.append(v)
        else:
            rec(v.hi)
            rec(v.lo)
    rec(v)
    return out


def cases(v):
    """[(guard, leaf)]: a partition of v into its leaves"""
    out = []
    for l in leaves(v):
        out.append((apply1(lambda x: TRUE if x is l else FALSE, v), l))
    return out


def gvars(v):
    out, seen = [], set()

    def rec(v):
        if id(v) in seen or leaf(v):
            return
        seen.add(id(v))
        if v.var not in out:
            out.append(v.var)
        rec(v.hi)
        rec(v.lo)
    rec(v)
    return out


# ----------------------------------------------------------------- conditions

def _norm(p):
    """(q, sign): p == k*q with k having that sign, q oriented and monic."""
    lead = [c for m, c in (p.args if p.op == 'poly' else (((((p, 1),), Fraction(1))),)) if m != ()][0]
    return pmul(p, pconst(1 / lead)), (1 if lead > 0 else -1)


def c_zero(p):
    """p == 0"""
    if is_num_const(p):
        return TRUE if num_value(p) == 0 else FALSE
    q, s = _norm(p)
    return var_guard(_zg(q)[0])


def _zg(q):
    z = atom('Z', q)
    g = atom('G', q)
    return z, g


def c_gt(p):
    """p > 0"""
    if is_num_const(p):
        return TRUE if num_value(p) > 0 else FALSE
    q, s = _norm(p)
    if p.ty == 'int' and q.ty == 'int' and _intlike(p):
        return _int_gt(p)
    z, g = _zg(q)
    zg = var_guard(z)
    if s > 0:
        if nonneg(q):
            return g_not(zg)
        return g_and(g_not(zg), var_guard(g))
    if nonneg(q):
        return FALSE
    return g_and(g_not(zg), g_not(var_guard(g)))


def _intlike(p):
    return True


def _int_gt(p):
    """p > 0 over the integers, one atom per oriented linear part."""
    d = pd(p)
    lin = [(m, c) for m, c in d.items() if m != ()]
    k = d.get((), Fraction(0))
    lin.sort(key=lambda mc: tuple((t.sk, e) for t, e in mc[0]))
    lead = lin[0][1]
    body = _mkpoly(dict(lin))
    if lead > 0:
        if nonneg(body):
            if k > 0:
                return TRUE
            if k == 0:
                return g_not(c_zero(body))
        return _ithr(body, k)           # body > -k
    neg = pmul(body, pconst(-1))
    # -neg + k > 0  <=>  neg < k  <=>  not (neg > k-1)
    if nonneg(neg):
        if k <= 0:
            return FALSE
        if k == 1:
            return c_zero(neg)
    return g_not(_ithr(neg, 1 - k))


def _ithr(body, k):
    return var_guard(atom('I', padd(body, pconst(k))))   # body + k > 0


def c_ge(p):
    if is_num_const(p):
        return TRUE if num_value(p) >= 0 else FALSE
    return g_not(c_gt(pmul(p, pconst(-1))))


def show(v, depth=0):
    if isinstance(v, Node):
        return '[%r ? %s : %s]' % (v.var, show(v.hi, depth + 1), show(v.lo, depth + 1))
    if not isinstance(v, Term):
        return repr(v)
    o, a = v.op, v.args
    if o == 'poly':
        if not a:
            return '0'
        parts = []
        for m, c in a:
            fs = ['%s%s' % (show(t, depth + 1), '' if e == 1 else '^%d' % e) for t, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 10000 else repr(float(c)))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if o == 'sym':
        return str(a[0])
    if o == 'const':
        return repr(a[0])
    if o in ('none', 'true', 'false', 'undef', 'neginf', 'posinf'):
        return o.capitalize()
    if o == 'attr':
        return '%s.%s' % (show(a[0], depth + 1), a[1])
    if o == 'item':
        return '%s[%s]' % (show(a[0], depth + 1), show(a[1], depth + 1))
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(show(x, depth + 1) for x in a[1:]))
    if o == 'ref':
        return '@%s' % (a[0],)
    if o == 'unk':
        return '?%s#%d' % (a[0], a[1])
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) if isinstance(x, (Term, Node)) else str(x) for x in a))


def subterms(v):
    """every term reachable in v (guards included)"""
    seen, out = set(), []

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
            return
        if not isinstance(x, (Term, Node)) or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Node):
            for y in x.var.args:
                rec(y)
            rec(x.hi)
            rec(x.lo)
        else:
            out.append(x)
            for y in x.args:
                rec(y)
    rec(v)
    return out


def has_unknown(v):
    return any(t.op in ('unk', 'undef', 'div0') for t in subterms(v)) or \
        any(a.kind == 'OPQ' for a in all_atoms(v))


def all_atoms(v):
    seen, out = set(), []

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
            return
        if not isinstance(x, (Term, Node)) or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.var not in out:
                out.append(x.var)
            for y in x.var.args:
                rec(y)
            rec(x.hi)
            rec(x.lo)
        else:
            for y in x.args:
                rec(y)
    rec(v)
    return out


def subst(v, mapping, memo=None):
    """replace leaf/sub terms by values, renormalising on the way"""
    if memo is None:
        memo = {}

    def rec(x):
        if not isinstance(x, (Term, Node)):
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        k = id(x)
        if k in memo:
            return memo[k]
        if x in mapping:
            r = mapping[x]
        elif isinstance(x, Node):
            g = rec_atom(x.var)
            r = ite(g, rec(x.hi), rec(x.lo))
        elif x.op == 'poly':
            r = ZERO
            for m, c in x.args:
                acc = pconst(c)
                for t, e in m:
                    rt = rec(t)
                    for _ in range(abs(e)):
                        acc = apply2(pmul if e > 0 else pdiv, acc, rt)
                r = apply2(padd, r, acc)
        elif x.op == 'pos':
            r = apply1(pos, rec(x.args[0]))
        elif x.op in ('sym', 'const', 'ref', 'none', 'true', 'false', 'unk', 'undef', 'neginf', 'posinf'):
            r = x
        else:
            na = [rec(y) for y in x.args]
            ia = [i for i, y in enumerate(na) if isinstance(y, (Term, Node))]
            if x.op == 'box':
                r = na[0]
                if not isinstance(r, Term) or r.op != 'box':
                    r = box(r)
            elif x.op in ('sum', 'fold', 'tuple', 'each'):
                r = mk(x.op, *na, ty=x.ty)
            else:
                def f(*ls):
                    full = list(na)
                    for i, l in zip(ia, ls):
                        full[i] = l
                    return mk(x.op, *full, ty=x.ty)
                r = applyn(f, [na[i] for i in ia])
        memo[k] = r
        return r

    def rec_atom(a):
        if a.kind == 'Z':
            return apply1(c_zero, rec(a.args[0]))
        if a.kind == 'G':
            return apply1(c_gt, rec(a.args[0]))
        if a.kind == 'I':
            return apply1(c_gt, rec(a.args[0]))
        if a.kind == 'EQ':
            from .ops import c_eq
            return apply2(c_eq, rec(a.args[0]), rec(a.args[1]))
        na = [rec(y) for y in a.args]
        ia = [i for i, y in enumerate(na) if isinstance(y, (Term, Node))]

        def f(*ls):
            full = list(na)
            for i, l in zip(ia, ls):
                full[i] = l
            return var_guard(atom(a.kind, *full))
        return applyn(f, [na[i] for i in ia])
    return rec(v)
