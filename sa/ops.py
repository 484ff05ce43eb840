"""Operations on the leaves of gated values: comparisons, truth, arithmetic."""
import math
from fractions import Fraction

from .terms import *
from .terms import _mkpoly

BUILTINS = set('''abs all any bool bytearray bytes callable chr classmethod cmp dict dir divmod enumerate
filter float format frozenset getattr globals hasattr hash hex id input int isinstance issubclass iter len list
locals long map max min next object oct open ord pow print property range raw_input reduce repr reversed round
set setattr slice sorted staticmethod str sum super tuple type unichr unicode vars xrange zip basestring
NotImplemented Ellipsis __name__ __file__ __doc__ __import__ delattr execfile file intern reload buffer
memoryview exec eval compile complex'''.split())
EXC = set('''BaseException Exception ArithmeticError AssertionError AttributeError EOFError EnvironmentError
FloatingPointError IOError ImportError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError
NotImplementedError OSError OverflowError ReferenceError RuntimeError StandardError StopIteration SyntaxError
SystemError SystemExit TypeError UnicodeDecodeError UnicodeEncodeError UnicodeError ValueError Warning
DeprecationWarning FutureWarning RuntimeWarning UserWarning ZeroDivisionError FileNotFoundError'''.split())

EXT_CONST = {
    'math.pi': mk('sym', 'math.pi', ty='num'),
    'math.e': mk('sym', 'math.e', ty='num'),
    'os.sep': const('/'),
}

LITERAL_OPS = ('none', 'const', 'true', 'false', 'tuple', 'poly')


def kind_of(t):
    """a coarse type of the leaf, or None"""
    if t.op == 'none':
        return 'none'
    if t in (TRUE, FALSE):
        return 'num'
    if is_numeric(t):
        return 'num'
    if t.op == 'const' or t.ty == 'str':
        return 'str'
    if t.op == 'tuple':
        return 'tuple'
    if t.op in ('fn', 'class', 'module', 'ext', 'builtin', 'bmeth', 'ref', 'slice'):
        return t.op
    return None


def opq(kind, *args):
    return var_guard(atom('OPQ', kind, *args))


def c_eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('unk', 'undef') or b.op in ('unk', 'undef'):
        return opq('eq', a, b)
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'num' and kb == 'num':
        return c_zero(psub(a, b))
    if ka is not None and kb is not None and ka != kb:
        if 'ref' in (ka, kb):
            # a list object may equal another sequence, an instance may define ==
            if 'none' in (ka, kb) or 'num' in (ka, kb) or 'str' in (ka, kb):
                return FALSE
            return EQ(a, b)
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return FALSE
    if ka == 'tuple' and kb == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        g = TRUE
        for x, y in zip(a.args, b.args):
            g = g_and(g, apply2(c_eq, x, y))
        return g
    if ka == 'none':
        return is_none(b)
    if kb == 'none':
        return is_none(a)
    if ka in ('fn', 'class', 'module', 'ext', 'builtin') and kb in ('fn', 'class', 'module', 'ext', 'builtin'):
        return FALSE
    return EQ(a, b)


def EQ(a, b):
    if a.sk > b.sk:
        a, b = b, a
    return var_guard(atom('EQ', a, b))


def is_none(t):
    if t.op == 'none':
        return TRUE
    if t.op in ('unk', 'undef'):
        return opq('none', t)
    if kind_of(t) is not None:
        return FALSE
    return var_guard(atom('NONE', t))


def c_truth(l):
    if l is TRUE or l is FALSE:
        return l
    if l.op == 'none':
        return FALSE
    if l.op == 'const':
        return TRUE if l.args[0] else FALSE
    if l.op in ('unk', 'undef'):
        return opq('truth', l)
    if is_numeric(l):
        return g_not(c_zero(l))
    if l.op == 'tuple':
        return TRUE if l.args else FALSE
    if l.op in ('fn', 'class', 'module', 'ext', 'builtin', 'bmeth', 'slice', 'super'):
        return TRUE
    if l.ty == 'str':
        return g_not(c_zero(t_len(l)))
    return var_guard(atom('TRUTH', l))


def t_len(l):
    """length of a leaf that is not an analysed object"""
    if l.op == 'const':
        return pconst(len(l.args[0]))
    if l.op == 'tuple':
        return pconst(len(l.args))
    if l.op == 'app' and l.args[0] == 'cat':
        r = ZERO
        for x in l.args[1:]:
            r = padd(r, t_len(x))
        return r
    if l.op in ('unk', 'undef'):
        return unk('len')
    return mk('len', l, ty='int')


def given(x):
    return x.op == 'sym' or (x.op == 'attr' and isinstance(x.args[0], Term) and x.args[0].op == 'sym')


def c_cmp(op, a, b):
    if op == 'Eq':
        return c_eq(a, b)
    if op == 'NotEq':
        return g_not(c_eq(a, b))
    if op in ('Is', 'IsNot'):
        if a is b:
            r = TRUE
        elif a.op == 'none' or b.op == 'none':
            r = is_none(b if a.op == 'none' else a)
        elif a.op == 'ref' and b.op == 'ref':
            r = FALSE if (kind_of(a) == kind_of(b)) else FALSE
        elif a.op == 'ref' or b.op == 'ref':
            r = FALSE
        elif a in (TRUE, FALSE) and b in (TRUE, FALSE):
            r = FALSE
        else:
            r = c_eq(a, b)
            if given(a) and given(b):
                # equal values need not be one object
                r = g_and(r, var_guard(atom('PRED', 'same object', a, b)))
        return r if op == 'Is' else g_not(r)
    if a.op in ('unk', 'undef') or b.op in ('unk', 'undef'):
        return opq(op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if 'str' in (ka, kb) or 'tuple' in (ka, kb):
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            return TRUE if {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op] else FALSE
        if a.op == 'tuple' and b.op == 'tuple' and all(isinstance(x, Term) and is_num_const(x) for x in a.args + b.args):
            x, y = [num_value(i) for i in a.args], [num_value(i) for i in b.args]
            return TRUE if {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op] else FALSE
        if op in ('Gt', 'GtE'):
            a, b, op = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[op]
        if op == 'LtE':
            return g_not(var_guard(atom('LT', b, a)))
        return var_guard(atom('LT', a, b))
    if a.op == 'none' or b.op == 'none':
        # Python 2: None sorts below everything
        if a.op == 'none' and b.op == 'none':
            return TRUE if op in ('LtE', 'GtE') else FALSE
        if a.op == 'none':
            return TRUE if op in ('Lt', 'LtE') else FALSE
        return FALSE if op in ('Lt', 'LtE') else TRUE
    if op == 'Lt':
        return c_gt(psub(b, a))
    if op == 'Gt':
        return c_gt(psub(a, b))
    if op == 'LtE':
        return c_ge(psub(b, a))
    if op == 'GtE':
        return c_ge(psub(a, b))
    return opq(op, a, b)


# ------------------------------------------------------------------ arithmetic

def t_floor(x):
    """floor of a number (value, whatever its type)"""
    if x.op in ('unk', 'undef'):
        return unk('floor')
    if not (is_numeric(x) or x in (TRUE, FALSE)):
        return mk('app', 'floor', x, ty='int')
    if is_num_const(x):
        return pconst(math.floor(num_value(x)))
    d = pd(x)
    whole, frac = {}, {}
    for m, c in d.items():
        if c.denominator == 1 and all(t.ty == 'int' and e > 0 for t, e in m):
            whole[m] = c
        elif m == ():
            k = math.floor(c)
            if k:
                whole[m] = Fraction(k)
            if c - k:
                frac[m] = c - k
        else:
            frac[m] = c
    if not frac:
        return _mkpoly(whole)
    if list(frac) == [()]:
        return _mkpoly(whole)
    f = mk('app', 'floor', _mkpoly(frac), ty='int')
    return padd(_mkpoly(whole), f)


def t_ceil(x):
    if x.op in ('unk', 'undef'):
        return unk('ceil')
    return psub(ZERO, t_floor(psub(ZERO, x)))


def t_int(x):
    """int(): truncation"""
    if x.op in ('unk', 'undef'):
        return unk('int')
    if x in (TRUE, FALSE):
        return pconst(num_value(x))
    if is_num_const(x):
        return pconst(int(num_value(x)))
    if x.ty == 'int':
        return x
    if x.op == 'const':
        try:
            return pconst(int(x.args[0]))
        except ValueError:
            return unk('int of text')
    if x.ty == 'str':
        return mk('app', 'int', x, ty='int')
    f = t_floor(x)
    if f.op == 'poly' or f.ty == 'int':
        if nonneg(x):
            return f
        if x.op == 'poly' and all(c.denominator == 1 and all(t.ty == 'int' and e > 0 for t, e in m) for m, c in x.args):
            return x
    return mk('app', 'int', x, ty='int')


def mod(a, b):
    if is_num_const(a) and is_num_const(b) and num_value(b) != 0:
        return pconst(num_value(a) % num_value(b))
    ty = 'int' if a.ty == 'int' and b.ty == 'int' else 'num'
    if is_num_const(b) and num_value(b) > 0:
        # drop whole multiples of the modulus
        n = num_value(b)
        d = {}
        for m, c in pd(a).items():
            if all(t.ty == 'int' and e > 0 for t, e in m) and (c / n).denominator == 1:
                continue
            if m == ():
                c = c % n
            elif all(t.ty == 'int' and e > 0 for t, e in m) and c.denominator == 1 and n.denominator == 1:
                c = c % n
            d[m] = c
        a = _mkpoly(d)
        if is_num_const(a):
            return pconst(num_value(a) % n)
        if a.op == 'app' and a.args[0] == 'mod' and is_num_const(a.args[2]):
            k = num_value(a.args[2])
            if k <= n:
                return a
            if (k / n).denominator == 1:
                return mod(a.args[1], b)
    else:
        # (x + b) % b == x % b
        r = padd(a, b, -1)
        d = pd(a)
        db = pd(b)
        if len(db) == 1:
            (m, c), = db.items()
            if m in d and (d[m] / c).denominator == 1:
                d = dict(d)
                del d[m]
                a = _mkpoly(d)
    return mk('app', 'mod', a, b, ty=ty)


def bits_below(t):
    """k when 0 <= t < 2^k is known, else None"""
    if is_num_const(t):
        v = num_value(t)
        if v >= 0 and v.denominator == 1:
            return int(v).bit_length()
        return None
    if t.op == 'app' and t.args[0] == 'mod' and is_num_const(t.args[2]):
        n = num_value(t.args[2])
        if n.denominator == 1 and int(n) & (int(n) - 1) == 0:
            return int(n).bit_length() - 1
    if t.op == 'app' and t.args[0] == 'ord':
        return 8
    return None


def low_zero(t):
    """k such that t is a known multiple of 2^k"""
    if t is ZERO:
        return 64
    k = 64
    for m, c in pd(t).items():
        if c.denominator != 1 or not all(x.ty == 'int' and e > 0 for x, e in m):
            return 0
        c = int(c)
        k = min(k, (c & -c).bit_length() - 1)
    return k


def cat(a, b):
    """text concatenation"""
    pa = a.args[1:] if a.op == 'app' and a.args[0] == 'cat' else (a,)
    pb = b.args[1:] if b.op == 'app' and b.args[0] == 'cat' else (b,)
    out = []
    for p in pa + pb:
        if p.op in ('unk', 'undef'):
            return unk('text')
        if p.op == 'const' and p.args[0] == '':
            continue
        if out and out[-1].op == 'const' and p.op == 'const':
            out[-1] = const(out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    return mk('app', 'cat', *out, ty='str')


def to_str(l):
    if l.op == 'const' or l.ty == 'str':
        return l
    if l.op in ('unk', 'undef'):
        return unk('text')
    if is_num_const(l) and num_value(l).denominator == 1:
        return const(str(num_value(l)))
    return mk('app', 'str', l, ty='str')


def fmt(f, args):
    """'...' % args with the plain conversions spelled as concatenation"""
    if f.op != 'const':
        return mk('app', 'fmt', f, *args, ty='str')
    s, i, out, k = f.args[0], 0, const(''), 0
    while i < len(s):
        c = s[i]
        if c == '%':
            j = i + 1
            while j < len(s) and s[j] in '0123456789.-+ #':
                j += 1
            if j >= len(s):
                return unk('format')
            conv, spec = s[j], s[i + 1:j]
            if conv == '%':
                out = cat(out, const('%'))
            else:
                if k >= len(args):
                    return unk('format')
                a = args[k]
                k += 1
                if isinstance(a, Node):
                    return None
                if spec == '' and conv == 's':
                    out = cat(out, to_str(a))
                elif spec == '' and conv in 'di' and a.ty == 'int':
                    out = cat(out, to_str(a))
                elif spec == '' and conv in 'di':
                    out = cat(out, to_str(t_int(a)))
                else:
                    out = cat(out, mk('app', 'fmt', const('%' + spec + conv), a, ty='str'))
            i = j + 1
        else:
            out = cat(out, const(c))
            i += 1
    return out


def binop(op, a, b, truediv=True):
    if a.op in ('unk', 'undef') or b.op in ('unk', 'undef'):
        return unk('operand of ' + op)
    ka, kb = kind_of(a), kind_of(b)
    if op == 'Add':
        if ka == 'tuple' and kb == 'tuple':
            return mk('tuple', *(a.args + b.args))
        if ka == 'str' or kb == 'str':
            return cat(a, b)
        if ka == 'tuple' or kb == 'tuple':
            return mk('app', 'concat', a, b)
        if ka in (None, 'num') and kb in (None, 'num'):
            return padd(a, b)
        return unk('sum')
    if op == 'Sub':
        return psub(a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if kind_of(x) == 'tuple' and is_num_const(y):
                return mk('tuple', *(x.args * int(num_value(y))))
            if kind_of(x) == 'str':
                if x.op == 'const' and is_num_const(y):
                    return const(x.args[0] * int(num_value(y)))
                return mk('app', 'repeat', x, y, ty='str')
        return pmul(a, b)
    if op == 'Div':
        if not truediv and a.ty == 'int' and b.ty == 'int':
            return t_floor(pdiv(a, b))
        if b is ZERO:
            return mk('app', 'div0', a)
        return pdiv(a, b)
    if op == 'FloorDiv':
        if b is ZERO:
            return mk('app', 'div0', a)
        return t_floor(pdiv(a, b))
    if op == 'Mod':
        if ka == 'str':
            args = b.args if b.op == 'tuple' else (b,)
            if any(isinstance(x, Node) for x in args):
                return applyn(lambda *xs: fmt(a, xs), args)
            return fmt(a, args)
        if b is ZERO:
            return mk('app', 'div0', a)
        return mod(a, b)
    if op == 'Pow':
        if is_num_const(b) and num_value(b).denominator == 1 and 0 <= num_value(b) <= 6:
            r = ONE
            for _ in range(int(num_value(b))):
                r = pmul(r, a)
            return r
        if is_num_const(a) and is_num_const(b) and num_value(b).denominator == 1 and abs(num_value(b)) < 200:
            return pconst(num_value(a) ** int(num_value(b)))
        return mk('app', 'pow', a, b, ty='int' if a.ty == 'int' and b.ty == 'int' else 'num')
    if op == 'LShift':
        if is_num_const(b):
            return pmul(a, pconst(2 ** int(num_value(b))))
        return pmul(a, mk('app', 'pow', pconst(2), b, ty='int'))
    if op == 'RShift':
        if is_num_const(b):
            return t_floor(pdiv(as_int(a), pconst(2 ** int(num_value(b)))))
        return mk('app', 'shr', a, b, ty='int')
    if op == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if is_num_const(y):
                k = int(num_value(y))
                if is_num_const(x):
                    return pconst(int(num_value(x)) & k)
                if k == 0:
                    return ZERO
                if k & (k + 1) == 0:
                    return mod(as_int(x), pconst(k + 1))
                if k & (k - 1) == 0:
                    # a single bit: 2^j * (floor(x / 2^j) % 2)
                    return pmul(pconst(k), mod(t_floor(pdiv(as_int(x), pconst(k))), pconst(2)))
                # high mask over one byte: x - x % low for 0 <= x < 2^n
                n = k.bit_length()
                low = k & -k
                if k == (1 << n) - low:
                    return pmul(pconst(low), mod(t_floor(pdiv(as_int(x), pconst(low))), pconst((1 << n) // low)))
        x, y = sorted((a, b), key=lambda t: t.sk)
        return mk('app', 'band', x, y, ty='int')
    if op == 'BitOr':
        if is_num_const(a) and is_num_const(b):
            return pconst(int(num_value(a)) | int(num_value(b)))
        for x, y in ((a, b), (b, a)):
            k = bits_below(x)
            if k is not None and low_zero(y) >= k:
                return padd(x, y)
        x, y = sorted((a, b), key=lambda t: t.sk)
        return mk('app', 'bor', x, y, ty='int')
    if op == 'BitXor':
        x, y = sorted((a, b), key=lambda t: t.sk)
        return mk('app', 'bxor', x, y, ty='int')
    return unk(op)


def as_int(t):
    """bit operations only apply to integers"""
    return t
