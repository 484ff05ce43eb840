"""Summaries of the builtin and library functions the package calls."""
from .terms import *
from .terms import _mkpoly
from . import ops
from .ops import c_eq, c_truth, c_cmp, cat, to_str, t_floor, t_int, t_ceil, t_len
from .prog import Class, Func


def _S(kind, *a, **k):
    from .interp import Seg
    return Seg(kind, *a, **k)


def app(name, *args, **kw):
    """uninterpreted application, distributed over gated arguments"""
    ty = kw.get('ty', 'any')

    def f(*xs):
        for x in xs:
            if x.op == 'undef':
                return unk(name)
        return mk('app', name, *xs, ty=ty)
    if not args:
        return mk('app', name, ty=ty)
    return applyn(f, args)


def freeze(I, v, st, depth=0):
    """a value in which analysed containers are replaced by their content (so
    that it can be an argument of an uninterpreted function)"""
    def f(l):
        if l.op == 'ref':
            o = I.obj(st, l.args[0])
            if o.kind in ('list', 'tuple', 'set', 'dict') and o._segs is not None and depth < 4:
                parts = []
                for s in o.segs:
                    val = freeze(I, s.val, st, depth + 1) if s.val is not None else NONE
                    key = freeze(I, s.key, st, depth + 1) if s.key is not None else NONE
                    parts.append(mk('seg', s.kind, s.src or (), s.guard, val, key))
                return mk('frozen', o.kind, tuple(parts))
        if l.op == 'tuple' and depth < 6:
            return mk('tuple', *[freeze(I, a, st, depth + 1) for a in l.args])
        return l
    return apply1(f, v)


# ----------------------------------------------------------------- builtins

def call_builtin(I, name, args, kw, st, fr, node):
    f = globals().get('b_' + name)
    if f is not None:
        return f(I, args, kw, st, fr, node)
    if name in ops.EXC:
        return mk('exc', name, *args)
    if name == 'NotImplemented':
        return unk('call')
    return unk('builtin ' + name)


def b_len(I, args, kw, st, fr, node):
    def f(s, l):
        if l.op == 'ref':
            o = I.obj(s, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup('__len__'):
                return I.call_func(o.cls.lookup('__len__')[2], [l], {}, s, node)
            return I.length(o)
        return t_len(l)
    return I.lift_st(st, args[0], f)


def _minmax(kind):
    two = tmax if kind == 'max' else tmin

    def num2(a, b):
        if a.op in ('unk', 'undef') or b.op in ('unk', 'undef'):
            return unk(kind)
        if a.op == 'none':
            return b if kind == 'max' else a
        if b.op == 'none':
            return a if kind == 'max' else b
        if ops.kind_of(a) in ('num', None) and ops.kind_of(b) in ('num', None):
            return two(a, b)
        return mk('app', kind, *sorted((a, b), key=lambda t: t.sk))

    def f(I, args, kw, st, fr, node):
        key = kw.get('key')
        if len(args) > 1:
            if key is not None:
                return app(kind, *[freeze(I, a, st) for a in args])
            r = args[0]
            for a in args[1:]:
                r = apply2(num2, r, a)
            return r

        def over(s, l):
            segs = I.iter_segs(l, s)
            if key is not None:
                return keyed(I, kind, key, segs, s, fr, node)
            r = None
            for x in segs:
                if x.kind == 'item' and x.guard is TRUE:
                    v = x.val
                elif x.kind == 'each':
                    v = mk('fold', kind, tuple(base_src(y) for y in x.src), ite(x.guard, x.val, NEGINF if kind == 'max' else POSINF), ty='num')
                else:
                    return unk(kind)
                r = v if r is None else apply2(num2, r, v)
            return r if r is not None else unk(kind + ' of nothing')
        return I.lift_st(st, args[0], over)
    return f


def keyed(I, kind, key, segs, s, fr, node):
    if len(segs) == 1 and segs[0].kind == 'each':
        x = segs[0]
        kv = I.call_value(key, [x.val], {}, s, fr, node)
        return mk('argm', kind, x.src, x.guard, kv, x.val) if leaf(x.val) and x.val.op != 'ref' else \
            mk('argm', kind, x.src, x.guard, kv, x.val)
    return unk(kind + ' by key')


b_max = _minmax('max')
b_min = _minmax('min')


def b_sum(I, args, kw, st, fr, node):
    init = args[1] if len(args) > 1 else ZERO

    def over(s, l):
        tot = init
        for x in I.iter_segs(l, s):
            if x.kind == 'item':
                tot = apply2(lambda a, b: ops.binop('Add', a, b), tot, ite(x.guard, x.val, ZERO))
            elif x.kind == 'each':
                if not all(l2.op not in ('unk', 'undef', 'ref', 'tuple') for l2 in leaves(x.val)):
                    return unk('sum')
                tot = apply2(padd, tot, I.sum_over(x.src, ite(x.guard, x.val, ZERO)))
            else:
                return unk('sum')
        return tot
    return I.lift_st(st, args[0], over)


def _num1(fn):
    def f(I, args, kw, st, fr, node):
        def g(l):
            if l.op in ('unk', 'undef'):
                return unk('number')
            return fn(l)
        return apply1(g, args[0])
    return f


def _abs(l):
    return tmax(l, psub(ZERO, l))


b_abs = _num1(_abs)


def b_int(I, args, kw, st, fr, node):
    if not args:
        return ZERO
    if len(args) > 1:
        return app('int', *args, ty='int')
    return apply1(lambda l: FALSE if False else t_int(l), args[0])


b_long = b_int


def b_float(I, args, kw, st, fr, node):
    if not args:
        return ZERO

    def f(l):
        if l in (TRUE, FALSE):
            return pconst(num_value(l))
        if l.op == 'const':
            if l.args[0] in ('inf', '+inf', 'Inf', 'infinity'):
                return POSINF
            if l.args[0] in ('-inf', '-Inf'):
                return NEGINF
            try:
                return pconst(float(l.args[0]))
            except ValueError:
                return unk('float')
        if l.ty == 'int' or l.ty == 'num' or l.op == 'poly':
            # the same value (the division rules no longer treat it as an int)
            return as_float(l)
        if l.op in ('unk', 'undef'):
            return unk('float')
        return l
    return apply1(f, args[0])


def as_float(l):
    return l


def b_round(I, args, kw, st, fr, node):
    if len(args) == 1 or (leaf(args[1]) and args[1] is ZERO):
        # Python 2: halves go away from zero
        def f(l):
            if l.op in ('unk', 'undef'):
                return unk('round')
            if l.ty == 'int':
                return l
            return mk('app', 'round', l, ty='int')
        return apply1(f, args[0])
    return app('round', *args, ty='num')


def b_divmod(I, args, kw, st, fr, node):
    a, b = args
    q = apply2(lambda x, y: ops.binop('FloorDiv', x, y), a, b)
    r = apply2(lambda x, y: ops.binop('Mod', x, y), a, b)
    return mk('tuple', q, r)


def b_pow(I, args, kw, st, fr, node):
    return apply2(lambda x, y: ops.binop('Pow', x, y), args[0], args[1])


def b_bool(I, args, kw, st, fr, node):
    return I.truth(args[0], st) if args else FALSE


def b_str(I, args, kw, st, fr, node):
    if not args:
        return const('')

    def f(s, l):
        if l.op == 'ref':
            o = I.obj(s, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                r = o.cls.lookup('__str__') or o.cls.lookup('__repr__')
                if r and r[0] == 'method':
                    return I.call_func(r[2], [l], {}, s, node)
            return app('str', freeze(I, l, s), ty='str')
        return to_str(freeze(I, l, s) if l.op == 'tuple' else l)
    return I.lift_st(st, args[0], f)


b_unicode = b_str


def b_repr(I, args, kw, st, fr, node):
    return app('repr', freeze(I, args[0], st), ty='str')


def b_format(I, args, kw, st, fr, node):
    return app('format', *[freeze(I, a, st) for a in args], ty='str')


def b_hash(I, args, kw, st, fr, node):
    return app('hash', freeze(I, args[0], st), ty='int')


def b_id(I, args, kw, st, fr, node):
    return app('id', args[0], ty='int')


def b_ord(I, args, kw, st, fr, node):
    def f(l):
        if l.op == 'const' and len(l.args[0]) == 1:
            return pconst(ord(l.args[0]))
        if l.op == 'app' and l.args[0] == 'chr':
            return l.args[1]
        if l.op in ('unk', 'undef'):
            return unk('ord')
        return mk('app', 'ord', l, ty='int')
    return apply1(f, args[0])


def b_chr(I, args, kw, st, fr, node):
    def f(l):
        if is_num_const(l) and 0 <= num_value(l) < 256:
            return const(chr(int(num_value(l))))
        if l.op == 'app' and l.args[0] == 'ord':
            return l.args[1]
        if l.op in ('unk', 'undef'):
            return unk('chr')
        return mk('app', 'chr', l, ty='str')
    return apply1(f, args[0])


b_unichr = b_chr


def b_range(I, args, kw, st, fr, node):
    def f(s, *ls):
        return None
    if len(args) == 1:
        lo, hi, step = ZERO, args[0], ONE
    else:
        lo, hi = args[0], args[1]
        step = args[2] if len(args) > 2 else ONE

    def g(s, h):
        def g2(s2, l):
            return rng(I, l, h, step, s2, fr, node)
        return I.lift_st(s, lo, g2)
    return I.lift_st(st, hi, g)


def rng(I, lo, hi, step, st, fr, node):
    if lo.op in ('unk', 'undef') or hi.op in ('unk', 'undef') or not leaf(step):
        return I.make_list(st, [_S('opaque', None)], node)
    if is_num_const(lo) and is_num_const(hi) and is_num_const(step) and num_value(step) != 0:
        r = range(int(num_value(lo)), int(num_value(hi)), int(num_value(step)))
        if len(r) <= 64:
            return I.make_list(st, [_S('item', pconst(i)) for i in r], node)
    if step is ONE:
        # range(len(L)) of a plain list: the index of its elements
        src = len_source(hi) if lo is ZERO else None
        if src is None:
            src = mk('range', psub(hi, lo))
        return I.make_list(st, [_S('each', padd(lo, mk('app', 'idx', src, ty='int')), TRUE, (src,))], node)
    if is_num_const(step) and num_value(step) == -1:
        src = mk('range', psub(lo, hi))
        l = I.make_list(st, [_S('each', psub(lo, mk('app', 'idx', src, ty='int')), TRUE, (src,))], node)
        if hi is pconst(-1) and lo.op == 'poly':
            # range(n - 1, -1, -1) is reversed(range(n))
            src2 = len_source(padd(lo, ONE)) or mk('range', padd(lo, ONE))
            l = I.make_list(st, [_S('each', mk('app', 'idx', src2, ty='int'), TRUE, (src2,))], node, order=('reversed',))
        return l
    src = mk('range', psub(hi, lo), step)
    return I.make_list(st, [_S('each', padd(lo, pmul(step, mk('app', 'idx', src, ty='int'))), TRUE, (src,))], node)


b_xrange = b_range


def len_source(hi):
    """L when hi is the length of the plain source L"""
    if hi.op == 'sum' and len(hi.args[0]) == 1 and hi.args[1] is ONE:
        return hi.args[0][0]
    if hi.op == 'len' and hi.args[0].op not in ('distinct', 'unk'):
        return hi.args[0]
    return None


def b_enumerate(I, args, kw, st, fr, node):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)

    def f(s, l):
        segs = I.iter_segs(l, s)
        out, n = [], start
        for i, x in enumerate(segs):
            if x.kind == 'item' and x.guard is TRUE:
                out.append(_S('item', mk('tuple', n, x.val)))
                n = apply2(padd, n, ONE)
            elif x.kind == 'each' and x.guard is TRUE and len(x.src) == 1 and len(segs) == 1:
                ix = mk('app', 'idx', x.src[0], ty='int')
                out.append(x.but(val=mk('tuple', apply1(lambda k: padd(k, ix), start), x.val)))
            elif x.kind == 'each':
                out.append(x.but(val=mk('tuple', unk('position'), x.val)))
            else:
                out.append(x)
        return I.make_list(s, out, node)
    return I.lift_st(st, args[0], f)


def base_src(s):
    while isinstance(s, Term) and s.op == 'ord':
        s = s.args[0]
    return s


def b_zip(I, args, kw, st, fr, node):
    lists = []
    for a in args:
        if not leaf(a):
            return I.make_list(st, [_S('opaque', None)], node)
        lists.append(I.iter_segs(a, st))
    if all(all(x.kind == 'item' and x.guard is TRUE for x in l) for l in lists):
        n = min(len(l) for l in lists) if lists else 0
        return I.make_list(st, [_S('item', mk('tuple', *[l[i].val for l in lists])) for i in range(n)], node)
    if all(len(l) == 1 and l[0].kind == 'each' and l[0].guard is TRUE and len(l[0].src) == 1 for l in lists):
        srcs = {base_src(l[0].src[0]) for l in lists}
        if len(srcs) == 1:
            return I.make_list(st, [_S('each', mk('tuple', *[l[0].val for l in lists]), TRUE, lists[0][0].src)], node)
    return I.make_list(st, [_S('opaque', None)], node)


def b_map(I, args, kw, st, fr, node):
    fn, it = args[0], args[1]
    if len(args) > 2:
        return I.make_list(st, [_S('opaque', None)], node)
    return map_segs(I, it, st, node, lambda v, s: I.call_value(fn, [v], {}, s, fr, node))


def b_filter(I, args, kw, st, fr, node):
    fn, it = args

    def f(v, s):
        if leaf(fn) and fn.op == 'none':
            return I.truth(v, s)
        return I.truth(I.call_value(fn, [v], {}, s, fr, node), s)
    return map_segs(I, it, st, node, None, f)


def map_segs(I, it, st, node, fn=None, cond=None):
    def f(s, l):
        segs = I.iter_segs(l, s)
        out = []
        for x in segs:
            if x.kind not in ('item', 'each'):
                out.append(_S('opaque', None))
                continue
            I.loopsrc.extend(base_src(y) for y in (x.src or ()))
            try:
                g = x.guard
                s2 = s.fork(g_and(s.live, g))
                live = s2.live
                if cond is not None:
                    c = cond(x.val, s2)
                    g = g_and(g, under(live, c))
                v = fn(x.val, s2) if fn is not None else x.val
                for oid, o in s2.heap.items():
                    if oid not in s.heap and oid not in I.base:
                        s.heap[oid] = o
                    elif s.heap.get(oid) is not o and x.kind == 'item':
                        s.heap[oid] = o
                out.append(x.but(val=v, guard=g))
            finally:
                if x.src:
                    del I.loopsrc[-len(x.src):]
        return I.make_list(s, out, node)
    return I.lift_st(st, it, f)


def sort_list(I, segs, key, rev, st, fr, node):
    """(segs, order)"""
    if not segs:
        return segs, None
    if all(x.kind == 'item' for x in segs) and key is None and all(leaf(x.val) and is_num_const(x.val) and x.guard is TRUE for x in segs):
        return sorted(segs, key=lambda x: num_value(x.val), reverse=rev), None
    if all(x.kind == 'item' for x in segs) and key is None and all(leaf(x.val) and x.val.op == 'const' and x.guard is TRUE for x in segs):
        return sorted(segs, key=lambda x: x.val.args[0], reverse=rev), None
    if len(segs) == 1 and segs[0].kind == 'item':
        return segs, None
    kv = []
    for x in segs:
        if x.val is None or x.kind not in ('item', 'each'):
            kv.append(NONE)
            continue
        if key is None:
            kv.append(x.val)
        else:
            srcs = [base_src(y) for y in (x.src or ())]
            I.loopsrc.extend(srcs)
            try:
                kv.append(I.call_value(key, [x.val], {}, st.fork(), fr, node))
            finally:
                if srcs:
                    del I.loopsrc[-len(srcs):]
    return segs, ('sorted', tuple(kv), bool(rev))


def truth_of(v, default=False):
    if v is None:
        return default
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    return None


def b_sorted(I, args, kw, st, fr, node):
    key = kw.get('key')
    if key is not None and key is NONE:
        key = None
    rev = truth_of(kw.get('reverse'))

    def f(s, l):
        segs = I.iter_segs(l, s)
        segs2, order = sort_list(I, list(segs), key, rev, s, fr, node)
        return I.make_list(s, segs2, node, order=order)
    return I.lift_st(st, args[0], f)


def b_reversed(I, args, kw, st, fr, node):
    def f(s, l):
        segs = list(I.iter_segs(l, s))
        if all(x.kind == 'item' for x in segs):
            return I.make_list(s, list(reversed(segs)), node)
        return I.make_list(s, segs, node, order=('reversed',))
    return I.lift_st(st, args[0], f)


def _container(kind):
    def f(I, args, kw, st, fr, node):
        if not args:
            if kind == 'dict' and kw:
                return I.make_list(st, [_S('item', v, TRUE, None, const(k)) for k, v in kw.items()], node, 'dict')
            if kind == 'tuple':
                return mk('tuple')
            return I.make_list(st, [], node, kind)

        def g(s, l):
            if kind == 'dict':
                if l.op == 'ref' and I.obj(s, l.args[0]).kind == 'dict':
                    segs = list(I.obj(s, l.args[0]).segs or [])
                else:
                    segs = []
                    for x in I.iter_segs(l, s):
                        if x.kind in ('item', 'each') and leaf(x.val) and x.val.op == 'tuple' and len(x.val.args) == 2:
                            segs.append(x.but(key=x.val.args[0], val=x.val.args[1]))
                        else:
                            segs.append(_S('opaque', None))
                for k, v in kw.items():
                    segs = [x for x in segs if x.key is not const(k)] + [_S('item', v, TRUE, None, const(k))]
                return I.make_list(s, segs, node, 'dict')
            segs = I.iter_segs(l, s)
            if kind == 'tuple':
                if l.op == 'tuple':
                    return l
                if l.op == 'ref' and I.obj(s, l.args[0]).kind == 'tuple':
                    return l
                if all(x.kind == 'item' and x.guard is TRUE for x in segs):
                    return mk('tuple', *[x.val for x in segs])
            order = None
            if l.op == 'ref' and I.obj(s, l.args[0]).kind in ('set', 'dict') and kind in ('list', 'tuple'):
                if not all(x.kind == 'item' for x in segs) or len(segs) > 1:
                    order = ('unordered',)
            return I.make_list(s, list(segs), node, kind, order=order)
        return I.lift_st(st, args[0], g)
    return f


b_list = _container('list')
b_tuple = _container('tuple')
b_set = _container('set')
b_frozenset = _container('set')
b_dict = _container('dict')


def b_bytearray(I, args, kw, st, fr, node):
    if not args:
        return const('')

    def f(l):
        return mk('app', 'bytes', l)
    if leaf(args[0]) and args[0].op == 'ref':
        return app('bytes', freeze(I, args[0], st))
    return apply1(f, args[0])


b_bytes = b_bytearray


PYTYPES = {'list': 'list', 'dict': 'dict', 'set': 'set', 'frozenset': 'set', 'tuple': 'tuple', 'str': 'str',
           'unicode': 'str', 'basestring': 'str', 'bytes': 'str', 'int': 'int', 'long': 'int', 'float': 'num', 'bool': 'bool'}


def b_isinstance(I, args, kw, st, fr, node):
    v, c = args

    def f(s, l):
        classes = []
        for cl in leaves(c):
            if cl.op == 'tuple':
                for a in cl.args:
                    classes.extend(leaves(a))
            else:
                classes.append(cl)
        g = FALSE
        for k in classes:
            g = g_or(g, is_inst(I, l, k, s))
        return g
    return I.lift_st(st, v, f)


def is_inst(I, l, k, st):
    if k.op == 'app' and k.args[0] == 'type' :
        x = k.args[1]
        k = mk('builtin', 'unicode') if x.op == 'const' else k
    if k.op == 'class':
        if l.op == 'ref':
            o = I.obj(st, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                if k.args[0] in o.cls.mro():
                    return TRUE
                if o.lazy is not None and o.cls in k.args[0].mro():
                    # an input declared by a base class may be of the subclass
                    return var_guard(atom('ISA', l, k.args[0].qual))
                return FALSE
            return FALSE
        if ops.kind_of(l) is not None:
            return FALSE
        if l.op in ('unk', 'undef'):
            return ops.opq('isinstance', l, k)
        return var_guard(atom('ISA', l, k.args[0].qual))
    name = k.args[0] if k.op == 'builtin' else (k.args[0] if k.op == 'ext' else None)
    if k.op == 'ext':
        name = k.args[0]
    if name in PYTYPES:
        want = PYTYPES[name]
        kd = ops.kind_of(l)
        if l.op == 'ref':
            o = I.obj(st, l.args[0])
            if o.kind in ('list', 'dict', 'set', 'tuple'):
                return TRUE if o.kind == want else FALSE
            if o.kind == 'inst' and isinstance(o.cls, Class):
                return TRUE if o.cls.has_external_base(name) else FALSE
            return FALSE
        if kd == 'none':
            return FALSE
        if kd == 'tuple':
            return TRUE if want == 'tuple' else FALSE
        if kd == 'str':
            if l.op == 'const' and name in ('unicode',):
                return FALSE
            return TRUE if want == 'str' else FALSE
        if kd == 'num':
            if l in (TRUE, FALSE):
                return TRUE if want in ('bool', 'int') else FALSE
            if want == 'int':
                if l.ty == 'int':
                    return TRUE
                if is_num_const(l):
                    return TRUE if num_value(l).denominator == 1 else FALSE
                return var_guard(atom('ISA', l, 'int'))
            if want == 'num':
                if l.ty == 'int':
                    return FALSE
                return var_guard(atom('ISA', l, 'float'))
            return FALSE
        if kd is not None:
            return FALSE
        if l.op in ('unk', 'undef'):
            return ops.opq('isinstance', l, k)
        # an arbitrary value: tuple / list / dict / text are exclusive
        return isa_any(l, want)
    if name in ('collections.Hashable', 'collections.abc.Hashable'):
        if l.op == 'ref' and I.obj(st, l.args[0]).kind in ('list', 'dict', 'set'):
            return FALSE
        if ops.kind_of(l) is not None:
            return TRUE
        return var_guard(atom('ISA', l, 'Hashable'))
    if l.op in ('unk', 'undef'):
        return ops.opq('isinstance', l, k)
    if ops.kind_of(l) is not None and l.op != 'ref':
        return FALSE if name is not None else ops.opq('isinstance', l, k)
    return var_guard(atom('ISA', l, str(name if name is not None else show(k))))


EXCL = ['tuple', 'list', 'dict', 'set', 'str', 'int', 'num']


def isa_any(l, want):
    if want == 'bool':
        return var_guard(atom('ISA', l, 'bool'))
    g = var_guard(atom('ISA', l, want))
    # earlier types in the fixed list exclude later ones
    for x in EXCL:
        if x == want:
            break
        g = g_and(g_not(var_guard(atom('ISA', l, x))), g)
    # and so an earlier one implies none of the later ones by construction
    return g


def b_issubclass(I, args, kw, st, fr, node):
    a, b = args
    if leaf(a) and leaf(b) and a.op == 'class' and b.op == 'class':
        return TRUE if b.args[0] in a.args[0].mro() else FALSE
    return ops.opq('issubclass', a, b)


def b_callable(I, args, kw, st, fr, node):
    def f(s, l):
        if l.op in ('fn', 'class', 'builtin', 'bmeth', 'ext'):
            return TRUE
        if l.op == 'ref':
            o = I.obj(s, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup('__call__'):
                return TRUE
            return FALSE
        if ops.kind_of(l) is not None:
            return FALSE
        if l.op in ('unk', 'undef'):
            return ops.opq('callable', l)
        return var_guard(atom('ISA', l, 'callable'))
    return I.lift_st(st, args[0], f)


def b_type(I, args, kw, st, fr, node):
    if len(args) != 1:
        return unk('type')

    def f(s, l):
        if l.op == 'ref':
            o = I.obj(s, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                return mk('class', o.cls)
            if o.kind in ('list', 'dict', 'set', 'tuple'):
                return mk('builtin', o.kind)
        k = ops.kind_of(l)
        if k == 'str':
            return mk('app', 'type', l) if l.op == 'const' else mk('builtin', 'str')
        if k == 'tuple':
            return mk('builtin', 'tuple')
        if l.ty == 'int':
            return mk('builtin', 'int')
        if l.op in ('unk', 'undef'):
            return unk('type')
        return mk('app', 'type', l)
    return I.lift_st(st, args[0], f)


def b_hasattr(I, args, kw, st, fr, node):
    v, n = args

    def f(s, l):
        if not (leaf(n) and n.op == 'const'):
            return ops.opq('hasattr', l, n)
        if l.op == 'ref':
            o = I.obj(s, l.args[0])
            if n.args[0] in o.fields:
                return TRUE
            if o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup(n.args[0]):
                return TRUE
            if o.lazy is not None and n.args[0] in I.schemas.get(o.schema, {}):
                return TRUE
        if l.op in ('unk', 'undef'):
            return ops.opq('hasattr', l, n)
        return var_guard(atom('HAS', l, n))
    return I.lift_st(st, v, f)


def b_getattr(I, args, kw, st, fr, node):
    v, n = args[0], args[1]
    if leaf(n) and n.op == 'const':
        if len(args) > 2:
            def f(s, l):
                if l.op == 'ref':
                    o = I.obj(s, l.args[0])
                    known = n.args[0] in o.fields or (o.lazy is not None and n.args[0] in I.schemas.get(o.schema, {})) or \
                        (isinstance(o.cls, Class) and o.cls.lookup(n.args[0]))
                    if known:
                        return I.getattr_leaf(l, n.args[0], s, node)
                    if o.kind == 'inst' and o.lazy is None:
                        return args[2]
                return ite(var_guard(atom('HAS', l, n)), I.getattr_leaf(l, n.args[0], s, node), args[2])
            return I.lift_st(st, v, f)
        return I.getattr(v, n.args[0], st, node)
    return unk('getattr')


def b_setattr(I, args, kw, st, fr, node):
    v, n, x = args

    def f(s, nl):
        if nl.op == 'const':
            I.setattr(v, nl.args[0], x, s, node)
        else:
            I.effect(s, 'setattr-dynamic', None, None, mk('tuple', v, nl, x), node)
            for l in leaves(v):
                if l.op == 'ref':
                    o = I.mut(s, l.args[0])
                    o.info['dynamic'] = o.info.get('dynamic', ()) + ((nl, x),)
        return NONE
    I.lift_st(st, n, f)
    return NONE


def b_delattr(I, args, kw, st, fr, node):
    if leaf(args[1]) and args[1].op == 'const':
        I.setattr(args[0], args[1].args[0], UNDEF, st, node)
    return NONE


def _anyall(isany):
    def f(I, args, kw, st, fr, node):
        def g(s, l):
            r = FALSE if isany else TRUE
            for x in I.iter_segs(l, s):
                if x.kind == 'item':
                    t = I.truth(x.val, s)
                    r = g_or(r, g_and(x.guard, t)) if isany else g_and(r, g_or(g_not(x.guard), t))
                elif x.kind == 'each':
                    t = I.truth(x.val, s)
                    if isany:
                        r = g_or(r, I.exists(x.src, g_and(x.guard, t)))
                    else:
                        r = g_and(r, g_not(I.exists(x.src, g_and(x.guard, g_not(t)))))
                else:
                    return ops.opq('any', l)
            return r
        return I.lift_st(st, args[0], g)
    return f


b_any = _anyall(True)
b_all = _anyall(False)


def b_iter(I, args, kw, st, fr, node):
    return args[0]


def b_next(I, args, kw, st, fr, node):
    return call_bmeth_any(I, args[0], 'next', args[1:], kw, st, fr, node)


def b_cmp(I, args, kw, st, fr, node):
    a, b = args

    def f(x, y):
        if x.op in ('unk', 'undef') or y.op in ('unk', 'undef'):
            return unk('cmp')
        if x.op == 'ref' or y.op == 'ref':
            return mk('app', 'cmp', freeze(I, x, st), freeze(I, y, st), ty='int')
        return ite(c_cmp('Lt', x, y), pconst(-1), ite(c_cmp('Gt', x, y), ONE, ZERO))
    return apply2(f, a, b)


def b_print(I, args, kw, st, fr, node):
    I.effect(st, 'print', None, None, None, node)
    return NONE


def b_property(I, args, kw, st, fr, node):
    return unk('property')


def b_open(I, args, kw, st, fr, node):
    mode = args[1] if len(args) > 1 else kw.get('mode', const('r'))
    I.effect(st, 'open', None, None, mk('tuple', args[0], mode), node)
    return applyn(lambda p, m: mk('file', p, m), [args[0], mode])


b_file = b_open


def b_object(I, args, kw, st, fr, node):
    return mk('app', 'object')


def b_globals(I, args, kw, st, fr, node):
    return unk('globals')


b_locals = b_globals


def b_vars(I, args, kw, st, fr, node):
    return I.getattr(args[0], '__dict__', st, node)


def b_dir(I, args, kw, st, fr, node):
    return unk('dir')


def b_slice(I, args, kw, st, fr, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return mk('slice', *a)


def b_reduce(I, args, kw, st, fr, node):
    fn, it = args[0], args[1]

    def f(s, l):
        segs = I.iter_segs(l, s)
        if all(x.kind == 'item' and x.guard is TRUE for x in segs):
            vals = [x.val for x in segs]
            if len(args) > 2:
                vals.insert(0, args[2])
            if not vals:
                return unk('reduce')
            r = vals[0]
            for v in vals[1:]:
                r = I.call_value(fn, [r, v], {}, s, fr, node)
            return r
        return unk('reduce')
    return I.lift_st(st, it, f)


# ---------------------------------------------------------------- externals

PURE_EXT = {'os.path.join': 'str', 'os.path.basename': 'str', 'os.path.abspath': 'str', 'os.path.splitext': 'any',
            'os.path.exists': 'bool', 'os.path.isdir': 'bool', 'os.path.isfile': 'bool', 'os.path.dirname': 'str',
            'os.path.split': 'any', 'os.path.realpath': 'str', 'os.path.normpath': 'str',
            'math.log': 'num', 'math.sqrt': 'num', 'math.pow': 'num', 'math.exp': 'num', 'math.log10': 'num', 'math.log2': 'num',
            'struct.pack': 'str', 'struct.unpack': 'any', 'glob.glob': 'any', 'fnmatch.filter': 'any',
            'json.dumps': 'str', 'json.loads': 'any', 'pprint.pformat': 'str', 'codecs.latin_1_encode': 'any',
            'json.load': 'any', 'pickle.load': 'any', 'cPickle.load': 'any', 'pickle.dumps': 'str', 'os.listdir': 'any',
            'time.time': 'num', 'inspect.getmembers': 'any', 'math.fabs': 'num', 'math.fmod': 'num', 'os.getcwd': 'str'}


def call_ext(I, name, args, kw, st, fr, node):
    if name in I.intercept:
        return I.intercept[name](I, st, args, kw, node)
    if name in ('copy.deepcopy', 'copy.copy'):
        deep = name.endswith('deepcopy')

        def f(s, l):
            if l.op == 'ref':
                o = I.obj(s, l.args[0])
                if not deep and o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup('__copy__'):
                    return I.call_func(o.cls.lookup('__copy__')[2], [l], {}, s, node)
            return I.clone(l, s, deep)
        return I.lift_st(st, args[0], f)
    if name == 'math.floor':
        return apply1(t_floor, args[0])
    if name == 'math.ceil':
        return apply1(t_ceil, args[0])
    if name == 'math.fabs':
        return apply1(_abs, args[0])
    if name in ('math.trunc',):
        return apply1(t_int, args[0])
    if name in ('math.pow',):
        return apply2(lambda x, y: ops.binop('Pow', x, y), args[0], args[1])
    if name in ('math.log', 'math.log2'):
        if name == 'math.log2' and len(args) == 1:
            args = [args[0], pconst(2)]
        return app('log', *args, ty='num')
    if name == 'functools.partial':
        return applyn(lambda f: mk('partial', f, *args[1:]), [args[0]])
    if name == 'functools.reduce':
        return b_reduce(I, args, kw, st, fr, node)
    if name.startswith('operator.itemgetter'):
        return unk('itemgetter')
    if name in ('collections.OrderedDict', 'collections.defaultdict', 'collections.Counter'):
        o = I.make_list(st, [], node, 'dict')
        return o
    if name.startswith('itertools.chain'):
        segs = []
        for a in args:
            segs.extend(I.as_segs(a, st))
        return I.make_list(st, segs, node)
    if name.startswith('random.'):
        meth = name.split('.', 1)[1]
        I.effect(st, 'random', None, meth, mk('tuple', *[freeze(I, a, st) for a in args]), node)
        if meth == 'seed':
            return NONE
        if meth == 'shuffle':
            for l in leaves(args[0]):
                if l.op == 'ref':
                    o = I.mut(st, l.args[0])
                    I.effect(st, 'list', o, 'shuffle', None, node)
                    o.segs = I.reorder(o, ('shuffled', I.counter.get('random', 0)), st)
                    I.counter['random'] = I.counter.get('random', 0) + 1
            return NONE
        ty = {'random': 'num', 'randint': 'int', 'uniform': 'num', 'randrange': 'int'}.get(meth, 'any')
        k = I.counter.get('random', 0)
        I.counter['random'] = k + 1
        return app('random.' + meth, pconst(k), *[freeze(I, a, st) for a in args], ty=ty)
    if name.startswith('logging.') or name.endswith('Logger') or name.startswith('warnings.'):
        return mk('ext', name + '()')
    if '()' in name:
        # methods of loggers and other opaque library objects
        if name.startswith('logging.'):
            return NONE if not name.endswith('getEffectiveLevel') else mk('app', 'loglevel', ty='int')
        return mk('ext', name + '()')
    if name in ('os.makedirs', 'os.mkdir', 'os.remove', 'os.unlink', 'os.rename', 'shutil.rmtree', 'os.rmdir'):
        I.effect(st, 'fs', None, name, mk('tuple', *args), node)
        return NONE
    if name in ('json.dump', 'pickle.dump', 'cPickle.dump'):
        base = 'json.dump' if name == 'json.dump' else 'pickle.dump'
        I.effect(st, 'dump', None, base, mk('tuple', *(list(args) + [mk('tuple', const(k), kw[k]) for k in sorted(kw)])), node)
        I.dump(base, args, kw, st, node)
        return NONE
    if name in ('json.load', 'pickle.load', 'cPickle.load'):
        base = 'json.load' if name == 'json.load' else 'pickle.load'
        I.effect(st, 'load', None, base, mk('tuple', *(list(args) + [mk('tuple', const(k), kw[k]) for k in sorted(kw)])), node)
        h = I.intercept.get(base)
        if h:
            return h(I, st, args, kw, node)
        return app(base, *[freeze(I, a, st) for a in args])
    if name in PURE_EXT:
        ty = PURE_EXT[name]
        a = [freeze(I, x, st) for x in args] + [mk('tuple', const(k), freeze(I, kw[k], st)) for k in sorted(kw)]
        if ty == 'bool':
            return applyn(lambda *xs: var_guard(atom('PRED', name, *xs)), a)
        if name == 'os.path.join' and len(a) > 2:
            r = a[0]
            for x in a[1:]:
                r = app(name, r, x, ty='str')
            return r
        return app(name, *a, ty=ty)
    if name == 'json.JSONEncoder.iterencode':
        return app(name, *[freeze(I, a, st) for a in args[1:]])
    I.effect(st, 'ext-call', None, name, mk('tuple', *[freeze(I, a, st) for a in args]), node)
    return app(name, *[freeze(I, a, st) for a in args]) if args else mk('app', name)


# ------------------------------------------------------------------ methods

def call_bmeth_any(I, v, name, args, kw, st, fr, node):
    return I.lift_st(st, v, lambda s, l: call_bmeth(I, l, name, args, kw, s, fr, node))


STR_TY = {'join': 'str', 'format': 'str', 'replace': 'str', 'strip': 'str', 'lower': 'str', 'upper': 'str', 'lstrip': 'str',
          'rstrip': 'str', 'encode': 'str', 'decode': 'str', 'capitalize': 'str', 'title': 'str', 'find': 'int', 'index': 'int',
          'count': 'int', 'rfind': 'int', 'zfill': 'str', 'rjust': 'str', 'ljust': 'str', 'read': 'str'}


def call_bmeth(I, l, name, args, kw, st, fr, node):
    if l.op == 'ref':
        o = I.obj(st, l.args[0])
        if o.schema == 'ByteStream' and name == 'next':
            # an endless stream of bytes with a position
            p = I.getattr(l, 'pos', st)
            I.mut(st, l.args[0]).fields['pos'] = apply2(padd, p, ONE)
            return apply1(lambda x: mk('app', 'byteat', o.lazy, x, ty='str'), p)
        if o._segs is not None:
            if o.kind == 'dict':
                f = globals().get('d_' + name)
            elif o.kind == 'set':
                f = globals().get('s_' + name)
            else:
                f = globals().get('l_' + name)
            if f:
                return f(I, l, o, args, kw, st, fr, node)
            if name == '__init__' and o.kind == 'inst':
                if args:
                    segs = I.as_segs(args[0], st)
                    I.mut(st, l.args[0]).segs = list(segs)
                return NONE
            if name == '__getitem__':
                k = args[0]
                o2 = o
                # element of the underlying list
                def f2(s, kk):
                    saved = o2.cls
                    c = o2.copy()
                    c.cls = None
                    c.kind = 'list'
                    s2 = s.fork()
                    s2.heap[o2.oid] = c
                    return I.subscript_leaf(l, kk, s2, node)
                return I.lift_st(st, k, f2)
        if name == '__init__':
            return NONE
        if name in ('__repr__', '__str__'):
            return app('repr', l, ty='str')
        I.effect(st, 'unknown-method', o, name, mk('tuple', *args), node)
        return unk('method ' + name)
    if l.op == 'builtin' and l.args[0] in ('str', 'unicode') and name in STR_TY and args:
        return I.lift_st(st, args[0], lambda s, x: str_method(I, x, name, args[1:], kw, s, fr, node))
    if l.op == 'const' or l.ty == 'str' or (l.op == 'app' and l.ty == 'str'):
        return str_method(I, l, name, args, kw, st, fr, node)
    if l.op == 'builtin' and l.args[0] == 'dict' and name == 'fromkeys':
        val = args[1] if len(args) > 1 else NONE
        segs = [x.but(key=x.val, val=val) for x in I.as_segs(args[0], st)]
        return I.make_list(st, segs, node, 'dict')
    if l.op == 'builtin':
        if l.args[0] in ('list', 'dict', 'set') and args and leaf(args[0]) and args[0].op == 'ref':
            return call_bmeth(I, args[0], name, args[1:], kw, st, fr, node)
        return unk('method of builtin')
    if l.op == 'file':
        return file_method(I, l, name, args, kw, st, fr, node)
    if l.op == 'slice' and name == 'indices':
        return app('slice.indices', l, *args)
    if l.op == 'tuple':
        if name == 'index' and leaf(args[0]):
            return app('index', freeze(I, l, st), freeze(I, args[0], st), ty='int')
        if name == 'count':
            r = ZERO
            for a in l.args:
                r = apply2(padd, r, ite(I.truth(I.compare('Eq', a, args[0], st, node), st), ONE, ZERO))
            return r
    if l.op in ('unk', 'undef'):
        I.effect(st, 'unknown-call', None, name, l, node)
        return unk('method of ' + str(l.args[0] if l.args else ''))
    return call_term_method(I, l, name, args, kw, st, fr, node)


def file_method(I, l, name, args, kw, st, fr, node):
    if name in ('__enter__',):
        return l
    if name in ('close', '__exit__', 'flush'):
        I.effect(st, 'file', None, name, l, node)
        return NONE
    I.effect(st, 'file', None, name, mk('tuple', l, *[freeze(I, a, st) for a in args]), node)
    if name in ('read', 'readline'):
        k = I.counter.get('read:' + l.sk, 0)
        I.counter['read:' + l.sk] = k + 1
        return app('read', l, pconst(k), *[freeze(I, a, st) for a in args], ty='str')
    return NONE


def str_method(I, l, name, args, kw, st, fr, node):
    if name == 'join':
        def f(s, it):
            segs = I.iter_segs(it, s)
            if all(x.kind == 'item' and x.guard is TRUE for x in segs):
                r = const('')
                for i, x in enumerate(segs):
                    if i and l is not const(''):
                        r = apply2(cat, r, l)
                    r = apply2(cat, r, x.val)
                return r
            lst = I.make_list(s, segs, node)
            return app('join', l, freeze(I, lst, s), ty='str')
        return I.lift_st(st, args[0], f)
    if name == 'format' and l.op == 'const' and not kw:
        parts = simple_format(l.args[0])
        if parts is not None:
            r, k = const(''), 0
            for kind, x in parts:
                if kind == 'text':
                    r = apply2(cat, r, const(x))
                else:
                    ix = k if x is None else x
                    k += 1
                    if ix >= len(args):
                        return unk('format')
                    r = apply2(cat, r, apply1(to_str, args[ix]))
            return r
    allc = [l] + list(args)
    if l.op == 'const' and all(leaf(a) and (a.op == 'const' or is_num_const(a)) for a in args) and not kw and \
            name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'split', 'capitalize', 'find', 'encode', 'decode', 'index'):
        pv = [a.args[0] if a.op == 'const' else int(num_value(a)) for a in args]
        try:
            r = getattr(l.args[0], name)(*pv) if name not in ('encode', 'decode') else l.args[0]
        except Exception:
            return unk('text method')
        if isinstance(r, list):
            return I.make_list(st, [_S('item', const(x)) for x in r], node)
        return const(r)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper'):
        return applyn(lambda *xs: var_guard(atom('PRED', name, *xs)), allc)
    if name in ('split', 'rsplit', 'partition', 'splitlines'):
        return app('.' + name, *allc)
    if name in ('next',):
        return call_term_method(I, l, name, args, kw, st, fr, node)
    ty = STR_TY.get(name, 'any')
    return app('.' + name, *([freeze(I, a, st) for a in allc] + [mk('tuple', const(k), freeze(I, kw[k], st)) for k in sorted(kw)]), ty=ty)


def simple_format(s):
    out, i, txt = [], 0, ''
    while i < len(s):
        if s[i] == '{':
            if s[i + 1:i + 2] == '{':
                txt += '{'
                i += 2
                continue
            j = s.find('}', i)
            if j < 0:
                return None
            f = s[i + 1:j]
            if f and not f.isdigit():
                return None
            if txt:
                out.append(('text', txt))
                txt = ''
            out.append(('arg', int(f) if f else None))
            i = j + 1
        elif s[i] == '}':
            if s[i + 1:i + 2] != '}':
                return None
            txt += '}'
            i += 2
        else:
            txt += s[i]
            i += 1
    if txt:
        out.append(('text', txt))
    return out


def call_term_method(I, base, name, args, kw, st, fr, node):
    """method of a value the analysis knows only by name"""
    if base.op in ('unk', 'undef'):
        return unk('method of ' + str(base.args[0] if base.args else ''))
    if name == 'next' or name == '__next__':
        # a stateful iterator: successive calls give successive items
        key = 'next:' + base.sk
        k = I.counter.get(key, 0)
        I.counter[key] = k + 1
        I.effect(st, 'next', None, None, base, node)
        h = I.intercept.get('next')
        if h:
            r = h(I, st, [base], kw, node)
            if r is not NotImplemented:
                return r
        return mk('app', 'nextitem', base, pconst(k), mk('it', tuple(base_src(s) for s in I.loopsrc)))
    if name in ('keys', 'iterkeys'):
        return mk('app', '.keys', base)
    if name in ('values', 'itervalues'):
        src = base
        return I.make_list(st, [_S('each', I.typed(mk('elem', src), 'any'), TRUE, (src,))], node)
    if name in ('items', 'iteritems'):
        src = base
        return I.make_list(st, [_S('each', mk('tuple', mk('key', src), I.typed(mk('elem', src), 'any')), TRUE, (src,))], node)
    if name == 'get' and args:
        d = args[1] if len(args) > 1 else NONE
        return applyn(lambda k: ite(var_guard(atom('IN', k, base)), mk('item', base, k), d), [args[0]])
    if name == 'has_key':
        return applyn(lambda k: var_guard(atom('IN', k, base)), [args[0]])
    if name in ('startswith', 'endswith'):
        return applyn(lambda *xs: var_guard(atom('PRED', name, *xs)), [base] + list(args))
    if name == 'copy':
        return base
    if base.op == 'ext':
        if base.args[0].startswith('logging'):
            return NONE
    ty = STR_TY.get(name, 'any')
    if name in ('write', 'writelines'):
        I.dump(name, [base] + list(args), kw, st, node)
        return NONE
    h = I.intercept.get('method:' + name)
    if h:
        r = h(I, st, [base] + list(args), kw, node)
        if r is not NotImplemented:
            return r
    I.effect(st, 'term-method', None, name, mk('tuple', base, *[freeze(I, a, st) for a in args]), node)
    return app('.' + name, base, *([freeze(I, a, st) for a in args] + [mk('tuple', const(k), freeze(I, kw[k], st)) for k in sorted(kw)]), ty=ty)


# --------------------------------------------------------------------- lists

def l_append(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'append', args[0], node)
    I.add_to(o, [_S('item', args[0])], st, node)
    return NONE


def l_extend(I, l, o, args, kw, st, fr, node):
    return I.list_extend(l, args[0], st, node)


l___iadd__ = l_extend


def l_insert(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'insert', mk('tuple', *args), node)
    k = args[0]
    if leaf(k) and k is ZERO:
        o.segs = [_S('item', args[1])] + o.segs
    elif leaf(k) and is_num_const(k) and all(x.kind == 'item' and x.guard is TRUE for x in o.segs):
        o.segs = list(o.segs)
        o.segs.insert(int(num_value(k)), _S('item', args[1]))
    else:
        if I.is_growing(o) or any(x.kind == 'opaque' for x in o.segs):
            o.segs = [_S('opaque', unk('insert'))]
        else:
            pr = I.protos_of(o) + list(leaves(args[1]))
            T = apply2(lambda i, v: mk('ins', I.content(o), i, v), k, args[1])
            I.rewrite(o, T, pr, st)
    return NONE


def l_remove(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'remove', args[0], node)
    if I.is_growing(o) or any(x.kind == 'opaque' for x in o.segs):
        o.segs = [_S('opaque', unk('remove'))]
        return NONE
    T = apply1(lambda v: mk('rem', I.content(o), v), args[0])
    I.rewrite(o, T, I.protos_of(o), st)
    return NONE


def l_pop(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'pop', mk('tuple', *args), node)
    if all(x.kind == 'item' and x.guard is TRUE for x in o.segs) and o.segs and (not args or (leaf(args[0]) and is_num_const(args[0]))):
        n = int(num_value(args[0])) if args else -1
        if -len(o.segs) <= n < len(o.segs):
            o.segs = list(o.segs)
            return o.segs.pop(n).val
    if not args and o.segs and o.segs[-1].kind == 'item' and o.segs[-1].guard is TRUE:
        v = o.segs[-1].val
        o.segs = o.segs[:-1]
        return v
    if I.is_growing(o) or any(x.kind == 'opaque' for x in o.segs):
        o.segs = [_S('opaque', unk('pop'))]
        return unk('pop')
    k = args[0] if args else pconst(-1)
    T0, pr = I.content(o), I.protos_of(o)
    v = I.elem_value(mk('item', T0, k), pr, st) if leaf(k) else unk('pop')
    I.rewrite(o, apply1(lambda kk: mk('del', T0, kk), k), pr, st)
    return v


def l_sort(I, l, o, args, kw, st, fr, node):
    key = kw.get('key') or (args[0] if args else None)
    if key is NONE:
        key = None
    rev = truth_of(kw.get('reverse'))
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'sort', None, node)
    segs, order = sort_list(I, list(o.segs), key, rev, st, fr, node)
    o.segs = segs
    if order is not None:
        o.segs = I.reorder(o, order, st)
    return NONE


def l_reverse(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'reverse', None, node)
    if all(x.kind == 'item' for x in o.segs):
        o.segs = list(reversed(o.segs))
    else:
        o.segs = I.reorder(o, ('reversed',), st)
    return NONE


def l_index(I, l, o, args, kw, st, fr, node):
    segs = o.segs
    if len(segs) == 1 and segs[0].kind == 'each' and segs[0].guard is TRUE and leaf(args[0]) and segs[0].val is args[0] and False:
        return mk('app', 'idx', base_src(segs[0].src[0]), ty='int')
    return app('index', freeze(I, l, st), freeze(I, args[0], st), ty='int')


def l_count(I, l, o, args, kw, st, fr, node):
    tot = ZERO
    for x in o.segs:
        if x.kind not in ('item', 'each'):
            return unk('count')
        g = g_and(x.guard, I.truth(I.compare('Eq', x.val, args[0], st, node), st))
        if x.kind == 'item':
            tot = apply2(padd, tot, ite(g, ONE, ZERO))
        else:
            tot = apply2(padd, tot, I.sum_over(x.src, ite(g, ONE, ZERO)))
    return tot


def l_copy(I, l, o, args, kw, st, fr, node):
    return I.make_list(st, list(o.segs), node, 'list')


def l_clear(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'clear', None, node)
    o.segs = []
    return NONE


# ---------------------------------------------------------------------- sets

def s_add(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'add', args[0], node)
    if not any(x.kind == 'item' and x.val is args[0] and x.guard is TRUE for x in o.segs):
        o.segs = o.segs + [_S('item', args[0])]
    return NONE


def s_update(I, l, o, args, kw, st, fr, node):
    for a in args:
        I.list_extend(l, a, st, node)
    return NONE


def s_union(I, l, o, args, kw, st, fr, node):
    segs = list(o.segs)
    for a in args:
        segs += I.as_segs(a, st)
    return I.make_list(st, segs, node, 'set')


def s_copy(I, l, o, args, kw, st, fr, node):
    return I.make_list(st, list(o.segs), node, 'set')


def s_discard(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'list', o, 'discard', args[0], node)
    segs = []
    for x in o.segs:
        if x.kind not in ('item', 'each'):
            segs.append(x)
            continue
        eq = I.truth(I.compare('Eq', x.val, args[0], st, node), st)
        g = g_and(x.guard, g_not(eq))
        if g is not FALSE:
            segs.append(x.but(guard=g))
    o.segs = segs
    return NONE


s_remove = s_discard


# --------------------------------------------------------------------- dicts

def _dict_lazy_src(o):
    return o.lazy


def d_items(I, l, o, args, kw, st, fr, node):
    segs = []
    for x in o.segs:
        if x.kind in ('item', 'each') and x.key is not None:
            segs.append(x.but(val=mk('tuple', x.key, x.val), key=None))
        else:
            segs.append(_S('opaque', None))
    return I.make_list(st, segs, node, 'list', None if all(x.kind == 'item' for x in segs) else None)


d_iteritems = d_items
d_viewitems = d_items


def d_keys(I, l, o, args, kw, st, fr, node):
    return I.make_list(st, [x.but(val=x.key, key=None) if x.key is not None else _S('opaque', None) for x in o.segs], node)


d_iterkeys = d_keys
d_viewkeys = d_keys


def d_values(I, l, o, args, kw, st, fr, node):
    return I.make_list(st, [x.but(key=None) for x in o.segs], node)


d_itervalues = d_values


def d_get(I, l, o, args, kw, st, fr, node):
    d = args[1] if len(args) > 1 else kw.get('default', NONE)

    def f(s, k):
        if o.lazy is not None and len(o.segs) == 1 and o.segs[0].kind == 'each':
            if o.segs[0].key is k:
                return o.segs[0].val
            return ite(var_guard(atom('IN', k, o.lazy)), mk('item', o.lazy, k), d)
        if all(x.kind == 'item' for x in o.segs):
            return I.dict_get(o, l, k, s, d)
        g = I.contains(k, l, s, node)
        return ite(I.truth(g, s), I.dict_get(o, l, k, s), d)
    return I.lift_st(st, args[0], f)


def d_has_key(I, l, o, args, kw, st, fr, node):
    return I.contains(args[0], l, st, node)


d___contains__ = d_has_key


def d_setdefault(I, l, o, args, kw, st, fr, node):
    k = args[0]
    d = args[1] if len(args) > 1 else NONE
    g = I.truth(I.contains(k, l, st, node), st)
    have = I.subscript(l, k, st.fork(), node)

    def put(s):
        I.store_sub(l, k, d, s, node)
    I.branch(g_not(g), st, put, lambda s: None)
    return ite(g, have, d)


def d_update(I, l, o, args, kw, st, fr, node):
    segs = []
    for a in args:
        segs += I.dict_segs(a, st)
    segs += [_S('item', v, TRUE, None, const(k)) for k, v in kw.items()]
    o = I.mut(st, l.args[0])
    I.effect(st, 'dict', o, 'update', args[0] if args and leaf(args[0]) else NONE, node)
    for s in segs:
        if s.kind == 'item' and s.guard is TRUE:
            I.dict_store(o, s.key, s.val, st)
        else:
            o.segs = o.segs + [s]
    return NONE


def d_pop(I, l, o, args, kw, st, fr, node):
    k = args[0]
    v = I.subscript(l, k, st, node) if len(args) == 1 else d_get(I, l, o, args, kw, st, fr, node)
    o = I.mut(st, l.args[0])
    I.effect(st, 'dict', o, 'pop', k, node)
    if leaf(k) and all(x.kind == 'item' for x in o.segs) and k.op == 'const' and all(leaf(x.key) and x.key.op == 'const' for x in o.segs):
        o.segs = [x for x in o.segs if x.key is not k]
    else:
        o.segs = [_S('opaque', app('without-key', freeze(I, l, st), freeze(I, k, st)))]
    return v


def d_clear(I, l, o, args, kw, st, fr, node):
    o = I.mut(st, l.args[0])
    I.effect(st, 'dict', o, 'clear', None, node)
    o.segs = []
    return NONE


def d_copy(I, l, o, args, kw, st, fr, node):
    return I.make_list(st, list(o.segs), node, 'dict')
