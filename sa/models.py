"""Finite models of summaries.

Two summaries whose normal forms differ may still mean the same.  A difference
is only believed when a finite model shows it: a small input structure (a
pattern with a few events and so on) in which the terms of the two summaries
denote different values.  What is evaluated here are the terms the analysis
derived, never the code itself; anything the terms leave open makes the model
say nothing (Unknown).
"""
import hashlib
import math
from fractions import Fraction

from .coherent import COHERENT, COHERENT_ITEMS
from .depends import Depends
from .sigs import VALUES, KEYS, ALIAS
from .terms import *
from . import ops
from .loops import base_src, bases
from .interp import Obj, ref
from .prog import Class, Func, Module

BIG = Fraction(10 ** 15)


class Unknown(Exception):
    """the model does not determine the value"""


class Bottom(Exception):
    """the program stops with an error the summary does not describe"""


def digest(*parts):
    h = hashlib.md5(repr(parts).encode('utf-8')).digest()
    return int.from_bytes(h[:6], 'big')


class Ent(object):
    """an object given from outside"""
    __slots__ = ('kind', 'schema', 'path', 'memo', 'model', 'items', 'depth')

    def __init__(self, model, kind, schema, path, depth):
        self.model, self.kind, self.schema, self.path, self.depth = model, kind, schema, path, depth
        self.memo = {}
        self.items = None

    def __repr__(self):
        return '<%s>' % showpath(self.path)


def showpath(p):
    if p[0] == 'sym':
        return p[1]
    if p[0] == 'attr':
        return '%s.%s' % (showpath(p[1]), p[2])
    if p[0] == 'elem':
        return '%s[%s]' % (showpath(p[1]), p[2])
    return repr(p)


EQ_FIELDS = {'gspattern.Event': ('startTime', 'duration', 'pitch', 'velocity', 'tag'),
             'gspattern.Pattern': ('events', 'duration', 'timeSignature', 'startTime')}


class FObj(object):
    """an object made by the program: allocation site and iteration"""
    __slots__ = ('oid', 'binds', 'key')

    def __init__(self, oid, binds):
        self.oid, self.binds = oid, binds
        self.key = (oid, tuple(sorted((b.sk, i) for b, i in binds)))

    def __eq__(self, other):
        return isinstance(other, FObj) and self.key == other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'new %s%s' % (self.oid, ['%d' % i for _, i in self.key[1]] or '')


class LV(object):
    """the content of a collection"""
    __slots__ = ('kind', 'items', 'tags')

    def __init__(self, kind, items, tags=None):
        self.kind, self.items = kind, tuple(items)
        self.tags = tags

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)

    def __eq__(self, o):
        return isinstance(o, LV) and self.kind == o.kind and self.items == o.items

    def __hash__(self):
        return hash((self.kind, self.items))


class Opq(object):
    """a value of which only its origin is known"""
    __slots__ = ('key',)

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Opq', self.key))

    def __repr__(self):
        return 'opaque%r' % (self.key,)


class TV(object):
    """a function, class or module used as a value"""
    __slots__ = ('name', 'env')

    def __init__(self, name, env=None):
        self.name, self.env = name, env

    def __eq__(self, o):
        return isinstance(o, TV) and self.name == o.name and self.env == o.env

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('TV', self.name))

    def __repr__(self):
        return str(self.name)


# --------------------------------------------------------------------- inputs

F = Fraction
NUMS = [F(0), F(1), F(1, 2), F(2), F(1, 4), F(3, 2), F(3), F(3, 4), F(4), F(5)]
FIELD_DOM = {
    ('num', 'duration'): [F(1), F(1, 2), F(2), F(1, 4), F(3, 2), F(3), F(1, 3)],
    ('num', 'startTime'): NUMS[:9] + [F(1, 3), F(5, 8)],
    ('Pattern', 'duration'): [F(4), F(4), F(8), F(3), F(16), F(2)],
    ('Pattern', 'startTime'): [F(0), F(0), F(2), F(4)],
    ('int', 'pitch'): [F(60), F(36), F(0), F(61), F(64), F(67), F(127), F(72), F(48)],
    ('num', 'velocity'): [F(100), F(64), F(127), F(0), F(1), F(161, 2), F(323, 4), F(321, 4)],
    ('int', 'resolution'): [F(960), F(480), F(96), F(5), F(7)],
    ('num', 'bpm'): [F(120), F(60), F(100), F(133)],
}
ROOT_DOM = {
    ('int', 'pitch_class'): [F(x) for x in (0, 6, 11, -1, 3, 10, 8, 1, 12, 5, 25, -14, 2, 4, 7, 9)],
    ('int', 'interval'): [F(x) for x in (0, 1, -1, 7, -12, 12, -25, 30)],
    ('str', 'alt'): ['#', 'b', 'x', '#', 'b'],
}
TAGS = ['a', 'b', ('a', 'b'), 'ab', None, ('b',), 'silence', 'C', ('a', 'c'), F(3)]
STATUS = [F(x) for x in (0x90, 0x80, 0xB3, 0xC1, 0xE0, 0x9F, 0xA2, 0xD4)]
STREAM = [0, 1, 2, 60, 64, 127, 0x81, 0x90, 0xFF, 0x80, 0x9C, 0xB1, 0xC2, 0xF0, 0xF7, 0x51, 0x58, 0x03, 0x2F, 0x7E, 4, 100, 0xE3, 0xD0]
STRS = ['a', 'b', 'C', 'silence', 'kick', 'ab']
BYTES = [F(x) for x in (0, 1, 5, 64, 127, 60, 100, 3)]
ANYS = [F(0), F(1), F(2), 'a', None, F(3), 'b', F(1, 2)]


ODD = ['', 'startTime', 'duration', 'pitch', 'velocity', 'velocity', 'tag']
NEAR_ZERO = [F(0), F(1, 10000), F(0), F(10)]
NEAR_TOP = {'pitch': 127, 'velocity': 127, 'channel': 15, 'numSteps': 12, 'order': 4, 'num': 12, 'length': 24}


def twin(path):
    """the same for the elements at even places, and for all parameters"""
    if path[0] == 'sym':
        return ('sym', 'twin')
    if path[0] == 'elem' and isinstance(path[1], tuple) and isinstance(path[2], int):
        return ('elem', twin(path[1]), path[2] % 2) + path[3:]
    if path[0] == 'attr' and isinstance(path[1], tuple):
        return ('attr', twin(path[1])) + path[2:]
    return path


class Model(object):
    """a finite input structure, chosen from a seed"""

    def __init__(self, seed, schemas, roots=None, domains=None, sizes=(1, 2, 3, 0, 2, 4, 3)):
        self.seed, self.schemas = seed, schemas
        self.roots = {}
        self.spec = roots or {}
        self.domains = domains or {}
        self.sizes = sizes
        self.consts = {}
        self.steps = [0]
        self.pool = None
        self.twins = False

    def special(self, path, ty, name):
        '''now and then a value near a constant of the code'''
        nums, strs = self.pool[:2]
        d = digest(self.seed, path, 'near')
        if d % 3:
            return None
        d //= 3
        if ty == 'str':
            return strs[d % len(strs)] if strs else None
        if ty == 'tag':
            return strs[d % len(strs)] if strs and d % 2 else None
        if ty not in ('num', 'int', 'byte'):
            return None
        if name == 'duration' and d % 2:
            return NEAR_ZERO[d // 2 % len(NEAR_ZERO)]
        if not nums:
            return None
        c = nums[d % len(nums)]
        d //= len(nums)
        if ty == 'num':
            c += (F(0), F(1, 8), F(-1, 8))[d % 3]
        else:
            c = F(math.floor(c)) + (0, 1, -1)[d % 3]
        top = 255 if ty == 'byte' else NEAR_TOP.get(name, 200)
        return c if 0 <= c <= top else None

    def choose(self, path, dom):
        return dom[digest(self.seed, path) % len(dom)]

    def pick(self, path, dom, name):
        '''a value of a field: in every second model all fields of that name take one of three values only,
        so that coincidences (same onset, same pitch, end on a boundary) are common'''
        if self.twins and path[0] == 'attr' and path[3:] in (('Event',), ('Pattern',)) and name != ODD[digest(self.seed, 'odd') % len(ODD)]:
            path = twin(path)
        if len(dom) > 3 and (self.seed // 2) % 2:
            o = digest(self.seed, 'palette', name)
            dom = [dom[(o + i * (1 + o // 64 % 2)) % len(dom)] for i in range(3)]
        return dom[digest(self.seed, path) % len(dom)]

    def root(self, name, ty):
        if name not in self.roots:
            sch = self.spec.get(name)
            if isinstance(sch, (list, tuple)) and not isinstance(sch, str):
                v = self.choose(('sym', name), list(sch))
                if isinstance(v, str) and v.startswith('$'):
                    v = self.make(v[1:], ('sym', name), 0)
                self.roots[name] = v
            else:
                self.roots[name] = self.make(sch or ty, ('sym', name), 0)
        return self.roots[name]

    def size(self, path, depth):
        if depth >= 3:
            return 0
        s = self.sizes
        if self.twins:
            s = tuple(x + 2 for x in s)
        elif self.pool and self.pool[2] and depth < 2:
            s += (self.pool[2],) * 2
        if path[0] == 'attr' and path[2] == 'viewpoints':
            s = (0, 0, 1)
        elif depth == 2:
            s = (1, 2)
        return self.choose((twin(path) if self.twins else path) + ('size',), list(s))

    def make(self, ty, path, depth):
        if path[0] == 'attr' and isinstance(path[1], Ent):
            raise TypeError
        leafname = path[2] if path[0] == 'attr' else (path[1] if path[0] == 'sym' else None)
        dom = self.domains.get(leafname) if path[0] in ('sym', 'attr') else None
        if dom is None and path[0] == 'attr':
            owner = path[3] if len(path) > 3 else None
            dom = FIELD_DOM.get((owner, leafname)) or FIELD_DOM.get((ty, leafname))
        elif dom is None and path[0] == 'sym':
            dom = ROOT_DOM.get((ty, leafname))
        if ty.startswith('maybe '):
            if self.choose(path + ('none',), [0, 1, 2]) == 0 or depth >= 3:
                return None
            return self.make(ty[6:], path, depth)
        if self.pool is not None and path[0] in ('sym', 'attr', 'elem'):
            x = self.special(path, ty, leafname)
            if x is not None:
                return x
        if ty in VALUES:
            return self.pick(path, dom or VALUES[ty], leafname)
        if ty in ('num', 'int'):
            return self.pick(path, dom or (NUMS if ty == 'num' else [F(1), F(0), F(2), F(3), F(4)]), leafname)
        if ty == 'byte':
            return self.pick(path, dom or BYTES, leafname)
        if ty == 'status':
            return self.choose(path, dom or STATUS)
        if ty == 'obj':
            return Opq('input', path)
        if ty == 'str':
            return self.choose(path, dom or STRS)
        if ty == 'tag':
            return self.pick(path, dom or self.domains.get('tag') or TAGS[:8], leafname)
        if ty == 'bool':
            return self.choose(path, [True, False])
        if ty == 'any':
            return self.choose(path, dom or ANYS)
        if ty.startswith('oneof '):
            return self.make(self.choose(path + ('class',), ty[6:].split('|')), path, depth)
        if ty.startswith('ntuple '):
            _, n, inner = ty.split(' ', 2)
            if leafname == 'timeSignature':
                return self.choose(path, [(F(4), F(4)), (F(3), F(4)), (F(6), F(8)), (F(5), F(4)), (F(7), F(16))])
            return tuple(self.make(inner, ('elem', path, i), depth + 1) for i in range(int(n)))
        if ty.startswith('nlist '):
            return Ent(self, 'list', ty, path, depth)
        if ty.startswith('list ') or ty.startswith('tuple ') or ty.startswith('dict ') or ty.startswith('set '):
            e = Ent(self, ty.split(' ')[0], ty, path, depth)
            return e
        if ty in self.schemas:
            return Ent(self, 'inst', ty, path, depth)
        raise Unknown('no model of ' + ty)

    def field(self, e, name):
        if name not in e.memo:
            if not e.memo and e.schema in COHERENT:
                COHERENT[e.schema](self, e)
                if name in e.memo:
                    return e.memo[name]
            sch = self.schemas.get(e.schema, {})
            if name not in sch:
                raise Unknown('attribute %s of an input' % name)
            e.memo[name] = self.make(sch[name], ('attr', e.path, name, e.schema), e.depth + 1)
        return e.memo[name]

    def items(self, e):
        """[(key, value)]"""
        if e.items is None:
            ty = e.schema
            if e.kind == 'inst':
                inner = self.schemas[e.schema].get('.list')
                if inner is None:
                    raise Unknown('content of an object')
                if e.schema in COHERENT_ITEMS:
                    its = COHERENT_ITEMS[e.schema](self, e)
                    if its is not None:
                        e.items = its
                        return its
            else:
                inner = ty.split(' ', 1)[1]
            if isinstance(inner, list):
                e.items = [(None, self.make(x, ('elem', e.path, i), e.depth + 1)) for i, x in enumerate(inner)]
                return e.items
            if e.schema.startswith('nlist '):
                n, inner = e.schema.split(' ', 2)[1:]
                n = int(n)
            else:
                n = self.size(e.path, e.depth)
            out = []
            for i in range(n):
                k = None
                if e.kind == 'dict':
                    nm = e.path[2] if e.path[0] == 'attr' else e.path[1]
                    kd = self.domains.get(('keys', nm)) or self.domains.get('keys') or KEYS.get(nm if isinstance(nm, str) else None) or STRS
                    k0 = digest(self.seed, e.path, 'k')
                    if nm == 'viewpoints' and k0 % 8 < 6:
                        k0 = 0
                    k = kd[(k0 + i) % len(kd)]
                    if i >= len(kd):
                        break
                out.append((k, self.make(inner, ('elem', e.path, i), e.depth + 1)))
            e.items = out
        return e.items


# ---------------------------------------------------------------- environment

class Env(object):
    __slots__ = ('binds', 'phis', 'memo', 'kids')

    def __init__(self, binds, phis):
        self.binds, self.phis, self.memo, self.kids = binds, phis, {}, {}

    def bind(self, pairs):
        key = tuple(pairs)
        e = self.kids.get(key)
        if e is None:
            b = dict(self.binds)
            b.update(pairs)
            e = self.kids[key] = Env(b, self.phis)
        return e

    def with_phis(self, phis):
        p = dict(self.phis)
        p.update(phis)
        return Env(self.binds, p)


ATOMIC = ('const', 'none', 'true', 'false')


def depends_of(S):
    d = getattr(S, 'depends', None)
    if d is None:
        d = S.depends = Depends(S.I, S.st)
        d.plans = {}
    return d


class Ev(object):
    """values of the terms of one summary in one model"""
    MAXITER = 40

    def __init__(self, summary, model):
        self.S, self.I, self.st, self.m = summary, summary.I, summary.st, model
        self.top = Env({}, {})
        self.sims = {}
        self.shared = {}
        self.deps = depends_of(summary)
        self.plans = self.deps.plans
        self.steps = 0
        self.busy = set()

    # ------------------------------------------------------------------ values
    def ev(self, v, env):
        r = env.memo.get(id(v))
        if r is not None:
            if r[1] is not None:
                raise r[1]
            return r[0]
        if v.__class__ is Term and v.op in ATOMIC:
            return getattr(self, 't_' + v.op)(v, env)
        key = self.moment(v, env)
        if key is not None:
            r = self.shared.get(key)
            if r is not None:
                r = r[0]
                env.memo[id(v)] = r
                if r[1] is not None:
                    raise r[1]
                return r[0]
        self.steps += 1
        self.m.steps[0] += 1
        if self.steps > 300000:
            raise Unknown('too much to evaluate')
        try:
            r = (self.ev1(v, env), None)
        except (Unknown, Bottom) as x:
            r = (None, x)
        env.memo[id(v)] = r
        if key is not None and (r[1] is None or 'recursive loop' not in str(r[1])):
            self.shared[key] = (r, env)
        if r[1] is not None:
            raise r[1]
        return r[0]

    def moment(self, v, env):
        """what the value of a term is determined by: two evaluations with the
        same moment have the same value"""
        d = self.plans.get(id(v))
        if d is None:
            x = self.deps.split(self.deps.of(v))
            d = self.plans[id(v)] = (x is not None, tuple(x[0]) if x else (), tuple(x[1]) if x else ())
        if not d[0]:
            return None
        bs, ps = env.binds, env.phis
        return (id(v),) + tuple([bs.get(b) for b in d[1]]) + tuple([id(ps[p]) if p in ps else None for p in d[2]])

    def ev1(self, v, env):
        while isinstance(v, Node):
            try:
                a = self.atom(v.var, env)
            except (Unknown, Bottom) as x:
                # the condition may be irrelevant here: it is when both ways agree
                h = self.ev(v.hi, env)
                l = self.ev(v.lo, env)
                if type(h) is type(l) and (h is l or h == l):
                    return h
                # the order of conditions in a diagram is not that of the program,
                # so a condition without a value does not show that the program stops
                raise Unknown('condition: %s' % x)
            v = v.hi if a else v.lo
        f = getattr(self, 't_' + v.op, None)
        if f is None:
            raise Unknown('term ' + v.op)
        return f(v, env)

    def true(self, g, env):
        r = self.ev(g, env)
        if r is True or r is False:
            return r
        raise Unknown('guard')

    def num(self, t, env):
        v = self.ev(t, env)
        return self.tonum(v)

    def tonum(self, v):
        if v is True:
            return F(1)
        if v is False:
            return F(0)
        if isinstance(v, Fraction):
            return v
        if v is None or isinstance(v, (str, tuple)):
            raise Bottom('number expected')
        raise Unknown('number')

    def t_poly(self, t, env):
        tot = F(0)
        if len(t.args) > 1 or not t.args or t.args[0][1] != 1:
            pass
        for m, c in t.args:
            x = c
            for s, e in m:
                n = self.num(s, env)
                if e < 0 and n == 0:
                    raise Bottom('division by zero')
                x *= n ** e
            tot += x
        return tot

    def t_pos(self, t, env):
        n = self.num(t.args[0], env)
        return n if n > 0 else F(0)

    def t_grp(self, t, env):
        return self.num(t.args[0], env)

    def t_const(self, t, env):
        return t.args[0]

    def t_none(self, t, env):
        return None

    def t_true(self, t, env):
        return True

    def t_false(self, t, env):
        return False

    def t_neginf(self, t, env):
        return -BIG

    def t_posinf(self, t, env):
        return BIG

    def t_undef(self, t, env):
        raise Bottom('undefined')

    def t_unk(self, t, env):
        raise Unknown(str(t.args[0]))

    def t_sym(self, t, env):
        name = t.args[0]
        if isinstance(name, str) and name.startswith('phi('):
            return self.phi(t, env)
        if name == 'math.pi':
            return F(314159, 100000)
        if name == 'math.e':
            return F(271828, 100000)
        if name == 'seqidx':
            raise Unknown('seqidx')
        return self.m.root(name, t.ty)

    def t_attr(self, t, env):
        p = t.args[0]
        if isinstance(p, Term) and p.op == 'ext':
            return TV(('ext', p.args[0] + '.' + t.args[1]))
        o = self.ev(p, env)
        return self.getfield(o, t.args[1])

    def getfield(self, o, name):
        if isinstance(o, Ent):
            if o.kind != 'inst':
                raise Bottom('attribute of a collection')
            if name not in self.m.schemas.get(o.schema, {}):
                c = self.I.cls_of_schema(o.schema)
                r = c.lookup(name) if isinstance(c, Class) else None
                if r and r[0] == 'attr' and not (isinstance(r[2], tuple) and r[2][0] == 'property'):
                    v = self.I.class_attr(r[1], name, r[2], self.st)
                    if leaf(v) and (v.op in ('const', 'none') or is_num_const(v)):
                        return self.ev(v, self.top)
            return self.m.field(o, name)
        if isinstance(o, Opq):
            return Opq('attr', o, name)
        if isinstance(o, (TV,)):
            return TV(('attr', o.name, name))
        if isinstance(o, FObj):
            # a copy of an input reads like the input
            ob = self.I.obj(self.st, o.oid)
            if ob.lazy is not None:
                src = self.ev(ob.lazy, self.env_of(o))
                return self.getfield(src, name)
            raise Unknown('attribute of a new object')
        if o is None or isinstance(o, (Fraction, bool, tuple, str, LV)):
            raise Bottom('attribute %s of %r' % (name, o))
        raise Unknown('attribute')

    def chosen(self, src, env):
        """the leaf of a source that a condition selects"""
        while isinstance(src, Node):
            src = src.hi if self.atom(src.var, env) else src.lo
        return src

    def coll(self, src, env):
        """content of a source: LV"""
        src = self.chosen(src, env)
        src = base_src(src) if src.op == 'ord' else src
        if src.op == 'again':
            return self.coll(src.args[0], env)
        if src.op == 'range':
            n = self.num(src.args[0], env)
            step = self.num(src.args[1], env) if len(src.args) > 1 else F(1)
            if step == 0:
                raise Bottom('range step')
            k = max(0, math.ceil(n / step))
            if k > 400:
                raise Unknown('long range')
            return LV('list', [(None, F(i)) for i in range(k)])
        if src.op == 'while':
            recs = self.sim(src.args[0], env).all()
            return LV('list', [(None, F(i)) for i in range(len(recs))])
        return self.contents(self.ev(src, env))

    def contents(self, v, depth=0):
        if isinstance(v, LV):
            return v
        if isinstance(v, Ent):
            if v.kind == 'inst' and '.list' not in self.m.schemas.get(v.schema, {}):
                raise Unknown('iterating an object')
            return LV(v.kind if v.kind != 'inst' else 'list', self.m.items(v))
        if isinstance(v, tuple):
            return LV('list', [(None, x) for x in v])
        if isinstance(v, str):
            return LV('list', [(None, x) for x in v])
        if isinstance(v, Opq):
            n = digest(self.m.seed, v.key) % 3
            return LV('list', [(Opq('key', v, i), Opq('item', v, i)) for i in range(n)])
        if v is None or isinstance(v, (Fraction, bool)):
            raise Bottom('not a collection')
        if isinstance(v, FObj):
            o = self.I.obj(self.st, v.oid)
            if o._segs is None:
                raise Unknown('content of a new object')
            if self.I.set_counts().get((v.oid, None)):
                raise Unknown('content of a new collection')
            return self.segs_value([(s.kind, s.src or (), s.guard, s.val, s.key) for s in o.segs], self.env_of(v), o.kind)
        raise Unknown('collection')

    def order(self, src, env):
        """the indexes of the elements of a source, in its order"""
        src = self.chosen(src, env)
        if src.op == 'ord':
            idx = self.order(src.args[0], env)
            how = src.args[1]
            if how[0] == 'reversed':
                return list(reversed(idx))
            if how[0] == 'unordered':
                c = self.coll(src, env)
                return sorted(idx, key=lambda i: skey_val(self.settled(c.items[i][1] if c.kind != 'dict' else c.items[i][0])))
            if how[0] == 'shuffled':
                r = self.m.seed % 3
                return idx if r == 0 else (list(reversed(idx)) if r == 1 else idx[1:] + idx[:1])
            if how[0] == 'sorted':
                b = base_src(src)
                kvs = how[1]
                own = len(kvs) == 1 and b.op != 'lstv'
                c = None if own else self.coll(b, env)
                keys = {}
                for i in idx:
                    if own:
                        e2 = env.bind([(b, i)])
                        kv = kvs[0]
                    else:
                        if c.tags is None:
                            raise Unknown('sort key of a mixed list')
                        k, e2 = c.tags[i]
                        e2 = e2.bind([(b, i)])
                        if len(kvs) > 1 and k >= len(kvs):
                            raise Unknown('sort key of another list')
                        kv = kvs[k] if len(kvs) > 1 else kvs[0]
                    try:
                        keys[i] = pykey(self.settled(self.ev(kv, e2)))
                    except Bottom:
                        keys[i] = (0,)
                return sorted(idx, key=lambda i: keys[i], reverse=bool(how[2]))
            raise Unknown('order ' + str(how[0]))
        return list(range(len(self.coll(src, env).items)))

    def iters(self, srcs, env):
        """environments of the iterations over nested sources"""
        if not srcs:
            return [env]
        s = srcs[0]
        b = base_src(s)
        out = []
        for i in self.order(s, env):
            out.extend(self.iters(srcs[1:], env.bind([(b, i)])))
            if len(out) > 3000:
                raise Unknown('too many iterations')
        return out

    def t_elem(self, t, env):
        b = t.args[0]
        i = env.binds.get(b)
        if i is None:
            raise Unknown('unbound element')
        c = self.coll(b, env)
        if i >= len(c.items):
            raise Unknown('element outside')
        return c.items[i][1] if c.kind != 'dict' or True else None

    def t_key(self, t, env):
        b = t.args[0]
        i = env.binds.get(b)
        if i is None:
            raise Unknown('unbound key')
        c = self.coll(b, env)
        if i >= len(c.items):
            raise Unknown('key outside')
        return c.items[i][0]

    def t_item(self, t, env):
        return self.index(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def index(self, v, k):
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
            c = self.contents(v)
            s = self.pyslice(k)
            r = c.items[s]
            if isinstance(v, str):
                return ''.join(x[1] for x in r)
            if isinstance(v, tuple):
                return tuple(x[1] for x in r)
            return LV('list', r)
        if isinstance(v, (Ent, LV)) and (v.kind == 'dict'):
            for kk, x in self.contents(v).items:
                if self.same_val(kk, k):
                    return x
            raise Bottom('no such key')
        if isinstance(v, Opq):
            return Opq('item', v, k)
        c = self.contents(v)
        if not isinstance(k, Fraction):
            if isinstance(k, Opq):
                raise Unknown('index')
            raise Bottom('index')
        if k.denominator != 1:
            raise Bottom('index')
        k = int(k)
        if -len(c.items) <= k < len(c.items):
            return c.items[k][1]
        raise Bottom('index out of range')

    def pyslice(self, k):
        a = []
        for x in k[1:]:
            if x is None:
                a.append(None)
            elif isinstance(x, Fraction) and x.denominator == 1:
                a.append(int(x))
            elif isinstance(x, bool):
                a.append(int(x))
            elif isinstance(x, Opq):
                raise Unknown('slice')
            else:
                raise Bottom('slice')
        return slice(*a)

    def t_slice(self, t, env):
        return ('slice',) + tuple(self.ev(a, env) for a in t.args)

    def t_tuple(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def t_len(self, t, env):
        return F(len(self.contents(self.ev(t.args[0], env)).items))

    def t_range(self, t, env):
        return self.coll(t, env)

    def t_ord(self, t, env):
        c = self.coll(t, env)
        idx = self.order(t, env)
        return LV(c.kind, [c.items[i] for i in idx], [c.tags[i] for i in idx] if c.tags else None)

    def t_again(self, t, env):
        return self.ev(t.args[0], env)

    def t_while(self, t, env):
        return self.coll(t, env)

    def t_sum(self, t, env):
        tot = F(0)
        for e in self.iters(t.args[0], env):
            tot += self.num(t.args[1], e)
        return tot

    def t_fold(self, t, env):
        kind, srcs, val = t.args
        best = None
        for e in self.iters(srcs, env):
            n = self.num(val, e)
            if best is None or (n > best if kind == 'max' else n < best):
                best = n
        if best is None:
            return -BIG if kind == 'max' else BIG
        return best

    def t_argm(self, t, env):
        kind, srcs, g, kv, val = t.args
        best = None
        for e in self.iters(srcs, env):
            if self.true(g, e):
                k = pykey(self.ev(kv, e))
                if best is None or (k > best[0] if kind == 'max' else k < best[0]):
                    best = (k, e)
        if best is None:
            raise Bottom('nothing to choose from')
        return self.ev(val, best[1])

    # ------------------------------------------------------------- collections
    def segs_value(self, segs, env, kind):
        """content of a list of segments (kind, src, guard, val, key)"""
        out, tags = [], []
        for n, (k, src, g, val, key) in enumerate(segs):
            if k == 'item':
                if self.true(g, env):
                    out.append((None if key is None or key is NONE and kind != 'dict' else self.ev(key, env), self.ev(val, env)))
                    tags.append((n, env))
            elif k == 'each':
                try:
                    es = self.iters(src, env)
                except (Unknown, Bottom):
                    # no elements at all when the guard fails whatever the element
                    try:
                        if g is TRUE or self.true(g, env):
                            raise Unknown('guard')
                        continue
                    except (Unknown, Bottom):
                        pass
                    raise
                for e in es:
                    if self.true(g, e):
                        out.append((None if key is None or key is NONE and kind != 'dict' else self.ev(key, e), self.ev(val, e)))
                        tags.append((n, e))
            else:
                raise Unknown('part of a collection: ' + k)
        if kind == 'set':
            o2, t2, seen = [], [], []
            for x, tg in zip(out, tags):
                if not any(self.same_val(x[1], y) for y in seen):
                    seen.append(x[1])
                    o2.append(x)
                    t2.append(tg)
            out, tags = o2, t2
        if kind == 'dict':
            o2, t2 = [], []
            for x, tg in zip(out, tags):
                for i, y in enumerate(o2):
                    if self.same_val(x[0], y[0]):
                        o2[i] = (y[0], x[1])
                        t2[i] = tg
                        break
                else:
                    o2.append(x)
                    t2.append(tg)
            out, tags = o2, t2
        return LV(kind, out, tags)

    def t_lstv(self, t, env):
        return self.segs_value(t.args[1], env, t.args[0])

    def t_frozen(self, t, env):
        kind, parts = t.args
        return self.segs_value([p.args for p in parts], env, kind)

    def listv(self, t, env):
        return self.contents(self.ev(t, env))

    def t_put(self, t, env):
        c = self.listv(t.args[0], env)
        k, v = self.ev(t.args[1], env), self.ev(t.args[2], env)
        items = list(c.items)
        if c.kind == 'dict':
            for i, (kk, x) in enumerate(items):
                if self.same_val(kk, k):
                    items[i] = (kk, v)
                    return LV('dict', items)
            return LV('dict', items + [(k, v)])
        i = self.posn(k, len(items))
        items[i] = (None, v)
        return LV(c.kind, items)

    def posn(self, k, n):
        if not isinstance(k, Fraction) or k.denominator != 1:
            raise Unknown('position')
        if not -n <= k < n:
            raise Bottom('index out of range')
        return int(k)

    def t_putsl(self, t, env):
        c = self.listv(t.args[0], env)
        s = self.pyslice(('slice', self.ev(t.args[1], env), self.ev(t.args[2], env), None))
        new = self.listv(t.args[3], env)
        items = list(c.items)
        items[s] = list(new.items)
        return LV(c.kind, items)

    def t_ins(self, t, env):
        c = self.listv(t.args[0], env)
        k = self.ev(t.args[1], env)
        if not isinstance(k, Fraction) or k.denominator != 1:
            raise Unknown('position')
        items = list(c.items)
        items.insert(int(k), (None, self.ev(t.args[2], env)))
        return LV(c.kind, items)

    def t_rem(self, t, env):
        c = self.listv(t.args[0], env)
        v = self.ev(t.args[1], env)
        items = list(c.items)
        for i, (k, x) in enumerate(items):
            if self.py_eq(x, v):
                del items[i]
                return LV(c.kind, items)
        raise Bottom('value not in list')

    def t_del(self, t, env):
        c = self.listv(t.args[0], env)
        k = self.ev(t.args[1], env)
        items = list(c.items)
        if c.kind == 'dict':
            for i, (kk, x) in enumerate(items):
                if self.same_val(kk, k):
                    del items[i]
                    return LV('dict', items)
            raise Bottom('no such key')
        if isinstance(k, tuple) and k and k[0] == 'slice':
            del items[self.pyslice(k)]
        else:
            del items[self.posn(k, len(items))]
        return LV(c.kind, items)

    def t_sl(self, t, env):
        c = self.listv(t.args[0], env)
        return LV(c.kind, c.items[self.pyslice(self.ev(t.args[1], env))])

    def py_eq(self, a, b):
        if isinstance(a, (Ent, FObj)) or isinstance(b, (Ent, FObj)):
            if type(a) is type(b) and (a is b or a == b):
                return True
            for x, y in ((a, b), (b, a)):
                if x is None or isinstance(x, (Fraction, str, bool)):
                    return False
            if isinstance(a, Ent) and isinstance(b, Ent) and a.kind == b.kind == 'inst' and a.schema == b.schema == 'Event':
                if self.touched(a) or self.touched(b):
                    raise Unknown('comparing changed objects')
                return all(self.py_eq(self.m.field(a, n), self.m.field(b, n)) for n in ('startTime', 'duration', 'pitch', 'velocity', 'tag'))
            ca, cb = self.class_of(a), self.class_of(b)
            if ca is not None and ca == cb and ca in EQ_FIELDS:
                fa, fb = self.fields_of(a), self.fields_of(b)
                return all(self.py_eq(fa(n), fb(n)) for n in EQ_FIELDS[ca])
            if ca in EQ_FIELDS and cb in EQ_FIELDS:
                return False
            ka, kb = (('tuple' if isinstance(x, tuple) else self.coll_kind(x)) for x in (a, b))
            if ka and kb:
                if ka != kb:
                    return False
                if ka == 'tuple':
                    return self.py_eq(*(LV('tuple', self.contents(x).items) for x in (a, b)))
                return self.py_eq(self.contents(a), self.contents(b))
            if ka and cb in EQ_FIELDS or kb and ca in EQ_FIELDS:
                return False
            raise Unknown('comparing objects')
        if isinstance(a, LV) and isinstance(b, LV):
            if a.kind != b.kind:
                return False
            if a.kind in ('dict', 'set'):
                if len(a.items) != len(b.items):
                    return False
                return all(any(self.py_eq(k, k2) and self.py_eq(x, x2) for k2, x2 in b.items) for k, x in a.items)
            return len(a.items) == len(b.items) and all(self.py_eq(x[1], y[1]) for x, y in zip(a.items, b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.py_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            if isinstance(a, Opq) and isinstance(b, Opq):
                return False
            raise Unknown('comparing an opaque value')
        if isinstance(a, bool):
            a = F(int(a))
        if isinstance(b, bool):
            b = F(int(b))
        return type(a) is type(b) and a == b

    same_val = py_eq

    def coll_kind(self, v):
        if isinstance(v, LV):
            return v.kind if v.kind != 'inst' else 'list'
        if isinstance(v, Ent):
            return v.kind if v.kind != 'inst' else None
        if isinstance(v, FObj):
            o = self.I.obj(self.st, v.oid)
            return o.kind if o.kind != 'inst' else None
        return None

    def class_of(self, v):
        if isinstance(v, Ent) and v.kind == 'inst':
            return self.m.schemas.get(v.schema, {}).get('.class')
        if isinstance(v, FObj):
            o = self.I.obj(self.st, v.oid)
            return o.cls.qual if o.kind == 'inst' and isinstance(o.cls, Class) else None
        return None

    def fields_of(self, v):
        '''reader of the fields of an object that has had one state only'''
        if isinstance(v, Ent):
            if self.touched(v):
                raise Unknown('comparing changed objects')
            return lambda n: self.m.field(v, n)
        n_sets = self.I.set_counts()
        o = self.I.obj(self.st, v.oid)
        env = self.env_of(v)

        def read(n):
            if n_sets.get((v.oid, n), 0) > 1:
                raise Unknown('comparing changed objects')
            x = o.fields.get(n)
            if x is None and o.lazy is not None:
                x = self.I.lazy_field(o, n)
            if x is None or x is UNDEF:
                raise Unknown('comparing objects')
            return self.ev(x, env)
        return read

    def touched(self, e):
        """an input object the program may have changed"""
        for oid, o in self.st.heap.items():
            if o.lazy is not None and not o.origin.startswith('fresh') and not o.info.get('prior') and o.fields:
                if self.match(o.lazy, e.path) is not None:
                    for n, v in o.fields.items():
                        if v is not self.I.lazy_field(o, n):
                            return True
        return False

    # ------------------------------------------------------------------ loops
    def outer_env(self, D, env):
        b = set(bases(D.srcs))
        ownn = set(p.args[0] for p in D.vars)
        if any(x in env.binds for x in b) or any(p in env.phis for p in ownn):
            return Env({k: v for k, v in env.binds.items() if k not in b}, {k: v for k, v in env.phis.items() if k not in ownn})
        return env

    def sim_env(self, D, env):
        """only what the loop depends on, so that moments share simulations"""
        d = self.deps.split(self.deps.loop(D.lid))
        if d is None:
            return self.outer_env(D, env)
        if all(x in d[0] for x in env.binds) and all(p in d[1] for p in env.phis):
            return env
        binds = {k: v for k, v in env.binds.items() if k in d[0]}
        phis = {k: v for k, v in env.phis.items() if k in d[1]}
        if not binds and not phis:
            return self.top
        return Env(binds, phis)

    def at_record(self, r, env):
        return Env({**env.binds, **r.env.binds}, {**env.phis, **r.env.phis})

    def loop_of(self, lid):
        D = self.I.loops.get(lid)
        if D is None:
            raise Unknown('loop')
        return D

    def sim(self, lid, env):
        """records of the iterations of a loop: [(binds, phis before, env, left)]"""
        D = self.loop_of(lid)
        out = self.sim_env(D, env)
        key = (lid, tuple(sorted((b.sk, i) for b, i in out.binds.items())),
               tuple((p, ('stopped', str(v)) if isinstance(v, Exception) else (type(v).__name__, v)) for p, v in sorted(out.phis.items())))
        r = self.sims.get(key)
        if r is None:
            try:
                r = self.sims[key] = Sim(self, D, out)
            except (Unknown, Bottom) as x:
                self.sims[key] = x
                raise
        if isinstance(r, Exception):
            raise r
        return r

    def phi(self, t, env):
        n = t.args[0]
        if n in env.phis:
            v = env.phis[n]
        else:
            lid = t.args[0].rsplit('@', 1)[1]
            D = self.loop_of(lid)
            bs = bases(D.srcs)
            if any(b not in env.binds for b in bs):
                raise Unknown('loop variable outside its loop')
            ph = self.rec_at(lid, env).phis
            v = ph.get(n)
            if n not in ph:
                raise Unknown('loop variable')
        if isinstance(v, Exception):
            raise v
        return v

    def rec_at(self, lid, env):
        D = self.loop_of(lid)
        bs = bases(D.srcs)
        want = tuple(env.binds.get(b) for b in bs)
        return self.sim(lid, env).at(bs, want)

    def t_mu(self, t, env):
        lid, p = t.args
        final = self.sim(lid, env).final()
        n = p.args[0] if isinstance(p, Term) else p
        if n not in final:
            raise Unknown('loop variable')
        v = final[n]
        if isinstance(v, Exception):
            raise v
        return v

    def t_first(self, t, env):
        lid, g, l = t.args
        r = self.sim(lid, env).leaver()
        if r is None:
            raise Bottom('no iteration left the loop')
        return self.ev(l, self.at_record(r, env))

    def t_deref(self, t, env):
        path, name, pairs = t.args
        e = self.ev(path, env)
        return self.family(e, pairs, env)

    def family(self, e, pairs, env):
        for oid, v in pairs:
            if isinstance(e, FObj):
                if e.oid == oid:
                    return self.ev(v, self.other(env, self.env_of(e).binds, oid))
            elif isinstance(e, Ent):
                o = self.I.obj(self.st, oid)
                if o.lazy is not None and not o.origin.startswith('fresh'):
                    b = self.match(o.lazy, e.path)
                    if b is not None:
                        return self.ev(v, self.other(env, b, oid))
        if e is None or isinstance(e, (str, Fraction, tuple, bool)):
            raise Bottom('attribute')
        raise Unknown('which object')

    def other(self, env, binds, oid):
        """the same moment, seen from another element of the family"""
        if all(env.binds.get(b) == i for b, i in binds.items()):
            return env
        key = (oid, tuple(binds.items()))
        r = env.kids.get(key)
        if r is not None:
            return r
        pre = 'phi(%s.' % (oid,)
        pre2 = 'phi(%s[' % (oid,)
        r = env.kids[key] = Env({**env.binds, **binds}, {p: v for p, v in env.phis.items() if not p.startswith(pre) and not p.startswith(pre2)})
        return r

    def t_upd(self, t, env):
        old, r, srcs, g, path, val, name, reads = t.args
        oid = r.args[0]
        me = self.ident(oid, env)
        v = self.ev(old, env)
        if reads:
            return self.upd_seq(t, env, me, v)
        if not srcs:
            if self.true(g, env) and self.ident_eq(self.ev(path, env), me):
                v = self.ev(val, env)
            return v
        srcl, lid, cover = srcs
        out = self.outer_env(self.loop_of(lid), env)
        for e in self.iters(srcl, out):
            if not self.true(cover, e):
                continue
            if self.true(g, e) and self.ident_eq(self.ev(path, e), me):
                v = self.ev(val, e)
        return v

    def t_cupd(self, t, env):
        '''a collection others have added to'''
        old, r, srcs, ws = t.args
        me = self.ident(r.args[0], env)
        items = list(self.contents(self.ev(old, env)).items)
        if not srcs:
            its = [env]
        else:
            srcl, lid, cover = srcs
            out = self.outer_env(self.loop_of(lid), env)
            its = [e for e in self.iters(srcl, out) if self.true(cover, e)]
        for e in its:
            for g, path, val in ws:
                if self.true(g, e) and self.ident_eq(self.ev(path, e), me):
                    items.extend(self.contents(self.ev(val, e)).items)
        return LV('list', items)

    def upd_seq(self, t, env, me, v):
        """writes which read the same field through other elements"""
        old, r, srcs, g, path, val, name, reads = t.args
        oid = r.args[0]
        if not srcs:
            raise Unknown('order of updates')
        srcl, lid, cover = srcs
        # every read must be of an element not written before it
        out = self.outer_env(self.loop_of(lid), env)
        written = []
        for e in self.iters(srcl, out):
            if not self.true(cover, e):
                continue
            seen = []
            for (_, n, p, inner) in reads:
                for e2 in self.iters(inner, e):
                    try:
                        seen.append(self.ev(p, e2))
                    except Bottom:
                        pass
            if self.true(g, e):
                for x in seen:
                    if any(self.ident_eq(x, y) for y in written):
                        raise Unknown('reads what it wrote')
                w = self.ev(path, e)
                written.append(w)
                if self.ident_eq(w, me):
                    v = self.ev(val, e)
            else:
                for x in seen:
                    if any(self.ident_eq(x, y) for y in written):
                        raise Unknown('reads what it wrote')
        return v

    def ident_eq(self, a, b):
        if isinstance(a, (Ent, FObj)) and isinstance(b, (Ent, FObj)):
            return a is b or a == b
        if a is None:
            raise Bottom('attribute of nothing')
        raise Unknown('identity')

    # ---------------------------------------------------------------- objects
    def ident(self, oid, env):
        o = self.I.obj(self.st, oid)
        if o.info.get('path') is not None:
            return self.ev(o.info['path'], env)
        if o.lazy is not None and not o.origin.startswith('fresh'):
            return self.ev(o.lazy, env)
        pairs = []
        for b in o.fam:
            if b not in env.binds:
                raise Unknown('object of an iteration')
            pairs.append((b, env.binds[b]))
        return FObj(oid, tuple(pairs))

    def t_ref(self, t, env):
        return self.ident(t.args[0], env)

    def env_of(self, f):
        return self.top.bind(sorted(f.binds, key=lambda bi: bi[0].sk))

    def match(self, lazy, path):
        """bindings under which a symbolic path denotes the input at path"""
        if lazy.op == 'sym':
            return {} if path[0] == 'sym' and path[1] == lazy.args[0] else None
        if lazy.op == 'attr':
            if path[0] == 'attr' and path[2] == lazy.args[1]:
                return self.match(lazy.args[0], path[1])
            return None
        if lazy.op == 'elem':
            if path[0] != 'elem':
                return None
            b = lazy.args[0]
            inner = b
            while inner.op == 'again':
                inner = inner.args[0]
            r = self.match(inner, path[1])
            if r is None:
                return None
            r = dict(r)
            r[b] = path[2]
            return r
        return None

    # -------------------------------------------------------------- functions
    def t_fn(self, t, env):
        f, fid, sv = t.args
        s = None
        if isinstance(sv, (Term, Node)):
            s = self.ev(sv, env)
        return TV(('fn', f.qual if isinstance(f, Func) else str(f)), s)

    def t_class(self, t, env):
        c = t.args[0]
        return TV(('class', c.qual if isinstance(c, Class) else str(c)))

    def t_module(self, t, env):
        c = t.args[0]
        return TV(('module', getattr(c, 'name', str(c))))

    def t_ext(self, t, env):
        return TV(('ext', t.args[0]))

    def t_builtin(self, t, env):
        return TV(('builtin', t.args[0]))

    def t_exc(self, t, env):
        return TV(('exc', t.args[0]))

    def t_bmeth(self, t, env):
        return TV(('bmeth', t.args[1]), self.ev(t.args[0], env))

    def t_partial(self, t, env):
        return TV(('partial',), tuple(self.ev(a, env) for a in t.args))

    def t_file(self, t, env):
        return Opq('file', *[self.ev(a, env) for a in t.args])

    def t_pick(self, t, env):
        raise Unknown('pick')

    def t_box(self, t, env):
        return self.ev(t.args[0], env)

    def t_it(self, t, env):
        return None

    def t_renamed(self, t, env):
        raise Unknown('renamed')

    def t_carried(self, t, env):
        raise Unknown('carried')

    # ------------------------------------------------------------------ atoms
    def atom(self, a, env):
        key = ('a', a.idx)
        r = env.memo.get(key)
        if r is None:
            r = self.atom1(a, env)
            env.memo[key] = r
        return r

    def atom1(self, a, env):
        k = a.kind
        if k == 'Z':
            v = self.ev(a.args[0], env)
            if v is None or isinstance(v, (str, tuple)):
                return False
            return self.tonum(v) == 0
        if k in ('G', 'I'):
            return self.num(a.args[0], env) > 0
        if k == 'EQ':
            return self.py_eq(self.ev(a.args[0], env), self.ev(a.args[1], env))
        if k == 'NONE':
            v = self.ev(a.args[0], env)
            if isinstance(v, Opq):
                return False
            return v is None
        if k == 'TRUTH':
            v = self.ev(a.args[0], env)
            return self.truthy(v)
        if k == 'IN':
            x, c = self.ev(a.args[0], env), self.ev(a.args[1], env)
            return self.contains(x, c)
        if k == 'LT':
            return py_lt(self.ev(a.args[0], env), self.ev(a.args[1], env))
        if k == 'ISA':
            return self.isa(self.ev(a.args[0], env), a.args[1])
        if k == 'HAS':
            v, n = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if isinstance(v, Ent) and v.kind == 'inst':
                if n in self.m.schemas.get(v.schema, {}):
                    return True
                c = self.S.I.cls_of_schema(v.schema)
                if isinstance(c, Class) and c.lookup(n):
                    return True
                return False
            if isinstance(v, (Fraction, tuple, bool)) or v is None:
                return n in ('__hash__', '__class__') or (n in ('__iter__', '__len__') and isinstance(v, tuple))
            if isinstance(v, str):
                return n in ('__hash__', '__class__', '__len__') or hasattr(str, n)
            raise Unknown('hasattr')
        if k == 'PRED':
            args = [self.ev(x, env) for x in a.args[1:]]
            if a.args[0] == 'same object':
                return not isinstance(args[0], (str, tuple)) or bool(digest(self.m.seed, 'same', str(a.args[1]), str(a.args[2])) % 2)
            return self.pred(a.args[0], args)
        if k == 'COVER':
            D = self.loop_of(a.args[0])
            r = self.rec_at(a.args[0], env)
            return not r.left
        if k == 'LEAVES':
            r = self.sim(a.args[0], env).leaver()
            return r is not None and self.true(a.args[1], self.at_record(r, env))
        raise Unknown('condition %s %s' % (k, str(a.args)[:70]))

    def truthy(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Fraction):
            return v != 0
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, LV):
            return len(v.items) > 0
        if isinstance(v, Ent):
            if v.kind == 'inst' and '.list' not in self.m.schemas.get(v.schema, {}):
                return True
            return len(self.m.items(v)) > 0
        if isinstance(v, TV):
            return True
        if isinstance(v, FObj):
            o = self.I.obj(self.st, v.oid)
            if o.kind == 'inst' and isinstance(o.cls, Class) and o._segs is None and not any(o.cls.lookup(n) for n in ('__len__', '__bool__', '__nonzero__')):
                return True
        if isinstance(v, Opq):
            return bool(digest(self.m.seed, 'truth', repr(v)) % 4)
        raise Unknown('truth')

    def contains(self, x, c):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Bottom('in text')
        if isinstance(c, Opq):
            return bool(digest(self.m.seed, 'in', repr(x), repr(c)) % 2)
        cc = self.contents(c)
        return any(self.py_eq(x, (k if cc.kind == 'dict' else v)) for k, v in cc.items)

    def isa(self, v, name):
        if isinstance(v, Opq):
            raise Unknown('type')
        if name.startswith('='):
            if isinstance(v, Ent) and v.kind == 'inst':
                c = self.S.I.cls_of_schema(v.schema)
                return isinstance(c, Class) and c.qual == name[1:]
            if isinstance(v, FObj):
                c = self.I.obj(self.st, v.oid).cls
                return isinstance(c, Class) and c.qual == name[1:]
            raise Unknown('class of %r' % (v,))
        if name == 'Hashable':
            return not (isinstance(v, (LV, Ent)) and v.kind in ('list', 'dict', 'set'))
        if name == 'callable':
            return isinstance(v, TV) and v.name[0] in ('fn', 'class', 'builtin', 'bmeth', 'ext', 'partial')
        if name == 'str':
            return isinstance(v, str)
        if name == 'tuple':
            return isinstance(v, tuple)
        if name in ('list', 'dict', 'set'):
            return isinstance(v, (LV, Ent)) and v.kind == name
        if name == 'int':
            return isinstance(v, bool) or (isinstance(v, Fraction) and v.denominator == 1)
        if name in ('num', 'float'):
            return isinstance(v, Fraction) and v.denominator != 1
        if name == 'bool':
            return isinstance(v, bool)
        if isinstance(v, Ent) and v.kind == 'inst':
            c = self.S.I.cls_of_schema(v.schema)
            if isinstance(c, Class):
                return any(isinstance(x, Class) and x.qual == name for x in c.mro())
            return False
        if isinstance(v, FObj):
            o = self.I.obj(self.st, v.oid)
            if isinstance(o.cls, Class):
                return any(isinstance(x, Class) and x.qual == name for x in o.cls.mro())
            return False
        if isinstance(v, (str, tuple, Fraction, bool, LV)) or v is None:
            return False
        if isinstance(v, Ent):
            return False
        raise Unknown('type')

    def pred(self, name, args):
        n = name.lstrip('.')
        if n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper') and all(isinstance(x, str) for x in args):
            return getattr(args[0], n)(*args[1:])
        return bool(digest(self.m.seed, name, [canon_val(self.settled(x)) for x in args]) % 2)

    def settled(self, v):
        '''tuples made by the program, as values'''
        if isinstance(v, FObj):
            if self.coll_kind(v) == 'tuple':
                return tuple(self.settled(x) for _, x in self.contents(v).items)
        elif isinstance(v, tuple):
            return tuple(self.settled(x) for x in v)
        elif isinstance(v, LV):
            if any(isinstance(x, (FObj, tuple)) for kx in v.items for x in kx):
                return LV(v.kind, [(self.settled(k), self.settled(x)) for k, x in v.items])
        return v

    # ------------------------------------------------------------------- apps
    def t_app(self, t, env):
        name = t.args[0]
        if name == 'idx':
            src = t.args[1]
            b = base_src(src)
            i = env.binds.get(b)
            if i is None:
                raise Unknown('index outside its loop')
            if src.op == 'ord':
                return F(self.order(src, env).index(i))
            return F(i)
        args = [self.ev(a, env) for a in t.args[1:]]
        if name == 'str' and t.args[1].ty == 'int' and isinstance(args[0], Fraction) and args[0].denominator == 1:
            return str(args[0].numerator)
        f = APPS.get(name)
        if f is not None:
            return f(self, args)
        if name.startswith('random.'):
            return self.randomly(name, args[1:], t.ty)
        if name.startswith('.') and args and isinstance(args[0], str) and all(isinstance(a, str) for a in args) and \
                name[1:] in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'capitalize', 'title', 'encode', 'decode', 'count', 'find', 'rsplit'):
            if name in ('.encode', '.decode'):
                return args[0]
            r = getattr(args[0], name[1:])(*args[1:])
            if isinstance(r, list):
                return LV('list', [(None, x) for x in r])
            return F(r) if isinstance(r, int) else r
        args = [self.settled(a) for a in args]
        if name == 'type' and len(args) == 1 and isinstance(args[0], (str, tuple)):
            # equal values need not be of one type (text read from a file, a kind of tuple)
            x = t.args[1]
            return Opq('type', type(args[0]).__name__, digest(self.m.seed, 'type of', str(x)) % 2 if ops.given(x) else 0)
        key = (name,) + tuple(canon_val(a) for a in args)
        if t.ty == 'str':
            return '%s%r' % (name, key[1:])
        if t.ty == 'int':
            return F(digest(self.m.seed, key) % 7)
        if t.ty == 'num':
            return F(digest(self.m.seed, key) % 29, 4)
        return Opq(*key)

    def randomly(self, name, args, ty):
        u = [F(1, 10), F(1, 2), F(9, 10)][self.m.seed % 3]
        n = name[7:]
        if n == 'random':
            return u
        if n == 'uniform' and len(args) == 2:
            return self.tonum(args[0]) + u * (self.tonum(args[1]) - self.tonum(args[0]))
        if n in ('randint', 'randrange'):
            a = self.tonum(args[0]) if len(args) > 1 else F(0)
            b = self.tonum(args[1]) if len(args) > 1 else self.tonum(args[0])
            if n == 'randint':
                b += 1
            if b <= a:
                raise Bottom('empty range')
            return a + F(math.floor(u * (b - a)))
        if n == 'choice':
            c = self.contents(args[0])
            if not c.items:
                raise Bottom('choice of nothing')
            return c.items[math.floor(u * len(c.items))][1]
        return Opq(name, *[canon_val(self.settled(a)) for a in args])


class Rec(object):
    def __init__(self, env, phis, run, left, leaving):
        self.env, self.phis, self.run, self.left, self.leaving = env, phis, run, left, leaving
        self.after = phis
        self.ready = False


class Sim(object):
    """the iterations of a loop, worked out one after the other as they are
    asked for: a field changed in a loop may depend on what earlier iterations
    left in other elements, which are other simulations of the same loop"""

    def __init__(self, ev, D, out):
        self.ev, self.D, self.out = ev, D, out
        self.recs, self.done, self.busy, self.left = [], False, False, False
        self.failed = None
        phis = {}
        for p, (init, step) in D.vars.items():
            try:
                phis[p.args[0]] = ev.ev(init, out)
            except (Bottom, Unknown) as x:
                phis[p.args[0]] = x
        self.phis = phis
        b = base_src(D.srcs[0])
        self.iswhile = b.op == 'while'
        if self.iswhile:
            def envs():
                i = 0
                while True:
                    if i > ev.MAXITER * 4:
                        raise Unknown('long loop')
                    yield Env({**out.binds, b: i}, out.phis)
                    i += 1
            self.it = envs()
        else:
            self.it = iter(ev.iters(D.srcs, out))

    def advance(self):
        if self.failed is not None:
            raise self.failed
        if self.busy:
            raise Unknown('recursive loop')
        self.busy = True
        try:
            self.advance1()
        except (Bottom, Unknown) as x:
            self.failed = x
            raise
        finally:
            self.busy = False

    def advance1(self):
        ev, D, phis = self.ev, self.D, self.phis
        e0 = next(self.it, None)
        if e0 is None:
            self.done = True
            return
        e = e0.with_phis(phis) if D.vars else e0
        if D.test is not None and not ev.true(D.test, e):
            self.done = True
            return
        run = D.guard is TRUE or ev.true(D.guard, e)
        leaving = run and not self.left and ev.true(D.leave, e)
        rec = Rec(e, dict(phis), run, self.left, leaving)
        self.recs.append(rec)
        if run:
            new = {}
            for p, (init, step) in D.vars.items():
                try:
                    new[p.args[0]] = ev.ev(step, e)
                except (Bottom, Unknown) as x:
                    new[p.args[0]] = x
            self.phis = new
        rec.after = self.phis
        rec.ready = True
        if leaving:
            self.left = True
        if self.left and self.iswhile:
            self.done = True

    def at(self, bs, want):
        i = 0
        while True:
            while i < len(self.recs):
                r = self.recs[i]
                if tuple(r.env.binds.get(b) for b in bs) == want:
                    return r
                i += 1
            if self.done:
                raise Unknown('iteration')
            self.advance()

    def all(self):
        while not self.done:
            self.advance()
        return self.recs

    def leaver(self):
        for r in self.all():
            if r.leaving:
                return r
        return None

    def final(self):
        r = self.leaver()
        return r.after if r is not None else self.phis


def canon_val(v):
    """a printable value that is equal for equal values"""
    if isinstance(v, FObj):
        raise Unknown('new object in an expression')
    if isinstance(v, tuple):
        return tuple(canon_val(x) for x in v)
    if isinstance(v, LV):
        if v.kind in ('set',):
            return (v.kind,) + tuple(sorted((canon_val(x) for _, x in v.items), key=repr))
        if v.kind == 'dict':
            return ('dict',) + tuple(sorted(((canon_val(k), canon_val(x)) for k, x in v.items), key=repr))
        return (v.kind,) + tuple(canon_val(x) for _, x in v.items)
    if isinstance(v, Ent):
        return ('in', showpath(v.path))
    if isinstance(v, Opq):
        return ('opq',) + tuple(canon_val(x) for x in v.key)
    if isinstance(v, TV):
        return ('tv', v.name, None if v.env is None else canon_val(v.env))
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else (v.numerator, v.denominator)
    return v


def pykey(v):
    """sort key with the ordering of Python 2"""
    if v is None:
        return (0,)
    if isinstance(v, bool):
        return (1, F(int(v)))
    if isinstance(v, Fraction):
        return (1, v)
    if isinstance(v, str):
        return (4, v)
    if isinstance(v, tuple):
        return (5, tuple(pykey(x) for x in v))
    if isinstance(v, LV) and v.kind == 'list':
        return (3, tuple(pykey(x[1]) for x in v.items))
    raise Unknown('ordering')


def skey_val(v):
    try:
        return pykey(v)
    except Unknown:
        return (9, repr(canon_val(v)) if not isinstance(v, FObj) else repr(v))


def py_lt(a, b):
    return pykey(a) < pykey(b)


def _round(ev, args):
    x = ev.tonum(args[0])
    if len(args) > 1:
        n = args[1]
        if n is None:
            n = F(0)
        s = F(10) ** int(n)
        return _round(ev, [x * s]) / s
    r = F(math.floor(abs(x) + F(1, 2)))
    return r if x >= 0 else -r


def _str(ev, args):
    v = args[0]
    if isinstance(v, str):
        return v
    return 'str(%r)' % (canon_val(ev.settled(v)),)


def _cat(ev, args):
    out = []
    for a in args:
        if isinstance(a, str):
            out.append(a)
        elif isinstance(a, Opq):
            out.append(repr(canon_val(a)))
        elif a is None or isinstance(a, (Fraction, tuple, bool)):
            raise Bottom('text expected')
        else:
            raise Unknown('text')
    return ''.join(out)


def _mod(ev, args):
    a, b = ev.tonum(args[0]), ev.tonum(args[1])
    if b == 0:
        raise Bottom('modulo by zero')
    return a - b * math.floor(a / b)


def _pow(ev, args):
    a, b = ev.tonum(args[0]), ev.tonum(args[1])
    if b.denominator == 1 and abs(b) < 300:
        if a == 0 and b < 0:
            raise Bottom('division by zero')
        return a ** int(b)
    return F(digest('pow', a, b) % 100, 7)


def _log(ev, args):
    x = ev.tonum(args[0])
    if x <= 0:
        raise Bottom('log')
    b = ev.tonum(args[1]) if len(args) > 1 else None
    if b == 2:
        # exact for powers of two
        n = 0
        y = x
        while y > 1 and y.denominator == 1 and y % 2 == 0:
            y /= 2
            n += 1
        while y < 1 and (1 / y).denominator == 1 and (1 / y) % 2 == 0:
            y *= 2
            n -= 1
        if y == 1:
            return F(n)
    return F(math.log(x) if b is None else math.log(x, b)).limit_denominator(10 ** 9)


def _index(ev, args):
    c = ev.contents(args[0])
    for i, (k, x) in enumerate(c.items):
        if ev.py_eq(x, args[1]):
            return F(i)
    raise Bottom('not in list')


def _join(ev, args):
    sep = args[0]
    c = ev.contents(args[1])
    parts = []
    for _, x in c.items:
        if not isinstance(x, str):
            if isinstance(x, Opq):
                x = repr(canon_val(x))
            else:
                raise Bottom('text expected')
        parts.append(x)
    return sep.join(parts)


def _int(ev, args):
    x = args[0]
    if isinstance(x, str):
        try:
            return F(int(x)) if len(args) == 1 else F(int(x, int(args[1])))
        except ValueError:
            raise Bottom('int of text')
    x = ev.tonum(x)
    return F(int(x))


def _bits(op):
    def f(ev, args):
        a, b = ev.tonum(args[0]), ev.tonum(args[1])
        if a.denominator != 1 or b.denominator != 1:
            raise Bottom('bits of a fraction')
        return F(op(int(a), int(b)))
    return f


def _ord(ev, args):
    if isinstance(args[0], str) and len(args[0]) == 1:
        return F(ord(args[0]))
    if isinstance(args[0], str):
        raise Bottom('ord')
    raise Unknown('ord')


def _pack(ev, args):
    import struct
    if isinstance(args[0], str) and all(isinstance(a, (Fraction, bool)) for a in args[1:]):
        try:
            return struct.pack(args[0], *[int(a) for a in args[1:]]).decode('latin-1')
        except struct.error:
            raise Bottom('packing')
    raise Unknown('packing')


def _byteat(ev, args):
    b, p = args
    if not isinstance(b, Ent):
        raise Unknown('stream')
    p0 = ev.m.field(b, 'pos')
    d = digest(ev.m.seed, b.path, 'byte', int(p - p0))
    if p - p0 == 0 and d % 5:
        # mostly short delta times before a status byte
        return chr(STREAM[d % 6])
    if p - p0 == 1 and d % 4:
        return chr([0x90, 0x80, 0xFF, 0xB1, 0xC2, 0xF0, 0xE3, 0xD0, 60, 5, 0x9C][(d // 7) % 11])
    return chr(STREAM[(d // 3) % len(STREAM)])


def _chr(ev, args):
    x = ev.tonum(args[0])
    if x.denominator != 1 or not 0 <= x < 256:
        raise Bottom('chr')
    return chr(int(x))


def _fmt(ev, args):
    return 'fmt%r' % (tuple(canon_val(a) for a in args),)


def _div0(ev, args):
    raise Bottom('division by zero')


def _mm(which):
    def f(ev, args):
        ks = [(pykey(a), a) for a in args]
        r = ks[0]
        for k in ks[1:]:
            if (k[0] > r[0] if which == 'max' else k[0] < r[0]):
                r = k
        return r[1]
    return f


def _keys(ev, args):
    c = ev.contents(args[0])
    return LV('list', [(None, k) for k, _ in c.items])


def _repeat(ev, args):
    a, b = args
    if isinstance(b, (str, tuple)):
        a, b = b, a
    n = int(ev.tonum(b))
    if isinstance(a, str):
        return a * n
    raise Unknown('repeat')


APPS = {
    'floor': lambda ev, a: F(math.floor(ev.tonum(a[0]))),
    'int': _int, 'round': _round, 'mod': _mod, 'pow': _pow, 'str': _str, 'cat': _cat, 'index': _index, 'join': _join,
    'log': _log, 'div0': _div0, 'max': _mm('max'), 'min': _mm('min'), '.keys': _keys, 'repeat': _repeat,
    'band': _bits(lambda a, b: a & b), 'bor': _bits(lambda a, b: a | b), 'bxor': _bits(lambda a, b: a ^ b),
    'shr': _bits(lambda a, b: a >> b), 'invert': lambda ev, a: -ev.tonum(a[0]) - 1,
    'byteat': _byteat, 'struct.pack': _pack, 'ord': _ord, 'chr': _chr, 'fmt': _fmt, 'repr': _fmt, 'format': _fmt,
    'cmp': lambda ev, a: F(-1 if py_lt(a[0], a[1]) else (1 if py_lt(a[1], a[0]) else 0)),
}


# -------------------------------------------------------------------- results

FLAT = ('num', 'int', 'str', 'any', 'byte', 'bool', 'tag', 'ntuple') + tuple(ALIAS)


class Wild(object):
    """a part of an outcome that is not determined"""

    def __repr__(self):
        return '?'


WILD = Wild()


class Stop(Wild):
    """a part whose computation stops with an exception"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'stops: ' + self.why

    def __eq__(self, o):
        return isinstance(o, Stop)

    def __ne__(self, o):
        return not isinstance(o, Stop)

    def __hash__(self):
        return 7


def same(x, y):
    """equality of outcomes up to undetermined parts; x is what is wanted"""
    if isinstance(x, Wild) or y is WILD:
        return True
    if isinstance(y, Stop):
        return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        return all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return abs(x - y) < 2e-6
    return type(x) is type(y) and x == y or x == y and not isinstance(x, bool) and not isinstance(y, bool)


class Reify(object):
    """the observable outcome of a summary in a model, as a plain structure"""

    def __init__(self, ev, ignore=()):
        self.ev, self.I, self.st = ev, ev.I, ev.st
        self.ids, self.open = {}, set()
        self.wilds = {}
        self.ignore = set(ignore)      # field names that are not compared
        self.n = 0

    def value(self, v, at=''):
        self.n += 1
        if self.n > 6000:
            raise Unknown('too large')
        if v is None or isinstance(v, (str, bool)):
            return v
        if isinstance(v, Fraction):
            if abs(v) >= BIG / 2:
                return 'inf' if v > 0 else '-inf'
            return int(v) if v.denominator == 1 else round(float(v), 6)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.value(x, '%s[%d]' % (at, i)) for i, x in enumerate(v))
        if isinstance(v, LV):
            return self.lv(v, at)
        if isinstance(v, Opq):
            return ('opaque',) + tuple(self.value(x, at) if not isinstance(x, str) else x for x in v.key)
        if isinstance(v, TV):
            return ('value', v.name, None if v.env is None else self.value(v.env, at))
        if isinstance(v, Ent):
            return ('input', showpath(v.path))
        if isinstance(v, FObj):
            return self.fobj(v, at)
        if isinstance(v, (Rec,)):
            raise Unknown('value')
        if isinstance(v, int):
            return v
        raise Unknown('value of type ' + type(v).__name__)

    def lv(self, v, at=''):
        if v.kind == 'dict':
            its = sorted(((self.value(k, at), x) for k, x in v.items), key=lambda kv: repr(kv[0]))
            return ('dict',) + tuple((k, self.value(x, '%s{%r}' % (at, k))) for k, x in its)
        if v.kind == 'set':
            r = ('set',) + tuple(sorted((self.value(x, at) for _, x in v.items), key=repr))
            if len(r) > 2 and '?' in repr(r):
                raise Unknown('part of a set')
            return r
        return (v.kind if v.kind != 'inst' else 'list',) + tuple(self.value(x, '%s[%d]' % (at, i)) for i, (_, x) in enumerate(v.items))

    def fobj(self, f, at=''):
        o = self.I.obj(self.st, f.oid)
        b = self.I.base.get(f.oid)
        if b is not None and (b.origin.startswith('global:') or b.origin.startswith('default:')):
            return ('shared', b.origin, shared_no(self.I, f.oid, b.origin))
        env = self.ev.env_of(f)
        if o.kind == 'inst':
            if f.key in self.ids:
                return ('same', self.ids[f.key])
            self.ids[f.key] = at
            fields = []
            names = set(o.fields)
            sch = self.ev.m.schemas.get(o.schema, {}) if o.lazy is not None else {}
            names |= {x for x in sch if not x.startswith('.')}
            for name in sorted(names):
                if name in self.ignore or name == '.':
                    continue
                fields.append((name, self.field(o, name, env, at)))
            r = ('new', o.cls.qual if isinstance(o.cls, Class) else str(o.cls)) + tuple(fields)
            if o._segs is not None:
                r += (('items', self.segs(o, env, at)),)
            return r
        if f.key in self.open:
            return ('inside itself',)
        self.open.add(f.key)
        try:
            return self.segs(o, env, at)
        finally:
            self.open.discard(f.key)

    def field(self, o, name, env, at=''):
        v = o.fields.get(name)
        if v is None:
            v = self.I.lazy_field(o, name)
        if v is UNDEF:
            return 'unset'
        try:
            return self.value(self.ev.ev(v, env), at + '.' + name)
        except (Bottom, Unknown) as x:
            return self.wild(x)

    def wild(self, x):
        self.wilds[str(x)] = self.wilds.get(str(x), 0) + 1
        return Stop(str(x)) if isinstance(x, Bottom) else WILD

    def segs(self, o, env, at=''):
        if o._segs is None:
            raise Unknown('content')
        c = self.ev.segs_value([(s.kind, s.src or (), s.guard, s.val, s.key) for s in o.segs], env, o.kind)
        return self.lv(c, at)

    def content_now(self, e):
        """what an input collection holds in the end"""
        for oid, o in self.heap_of(e):
            if o._segs is None:
                continue
            b = self.ev.match(o.lazy, e.path)
            env = self.ev.top.bind(sorted(b.items(), key=lambda bi: bi[0].sk))
            base = self.I.base.get(oid)
            if base is not None and base._segs is not None and len(base.segs) == len(o.segs) and all(x.ident() == y.ident() for x, y in zip(base.segs, o.segs)):
                continue
            return self.ev.segs_value([(s.kind, s.src or (), s.guard, s.val, s.key) for s in o.segs], env, o.kind)
        return LV(e.kind if e.kind != 'inst' else 'list', self.ev.m.items(e))

    def final(self, e, depth=0):
        """the final state of an input: every field of every object that could
        be reached at the start, collections by content"""
        out = []
        at = showpath(e.path)
        if e.kind == 'inst':
            sch = self.ev.m.schemas.get(e.schema, {})
            names = {n for n in sch if not n.startswith('.')}
            now = {}
            for oid, o in self.heap_of(e):
                b = self.ev.match(o.lazy, e.path)
                env = self.ev.top.bind(sorted(b.items(), key=lambda bi: bi[0].sk))
                for name, v in o.fields.items():
                    if name == '.' or name in now or v is self.I.lazy_field(o, name) and name in sch:
                        continue
                    now[name] = (v, env)
            for n in sorted(names | set(now)):
                if n in self.ignore:
                    continue
                here = at + '.' + n
                if n in now:
                    if now[n][0] is UNDEF:
                        out.append((here, 'unset'))
                        continue
                    try:
                        v = self.ev.ev(now[n][0], now[n][1])
                    except (Bottom, Unknown) as x:
                        out.append((here, self.wild(x)))
                        continue
                else:
                    v = self.ev.m.field(e, n)
                try:
                    if isinstance(v, Ent) and v.kind != 'inst' and showpath(v.path) == here:
                        v = self.content_now(v)
                    v = self.value(v, here)
                except (Bottom, Unknown) as x:
                    v = self.wild(x)
                out.append((here, v))
            for n in sorted(names):
                if depth < 4 and sch[n].split(' ')[0] not in FLAT and isinstance(self.ev.m.field(e, n), Ent):
                    out.extend(self.final_inner(self.ev.m.field(e, n), depth + 1))
        if e.kind != 'inst' or '.list' in self.ev.m.schemas.get(e.schema, {}):
            try:
                v = self.lv(self.content_now(e), at)
            except (Bottom, Unknown) as x:
                v = self.wild(x)
            out.append((at, v))
            out.extend(self.final_inner(e, depth, True))
        return out

    def final_inner(self, e, depth, again=False):
        if e.kind == 'inst' and not again:
            return self.final(e, depth)
        out = []
        if depth < 4:
            for k, x in self.ev.m.items(e):
                if isinstance(x, Ent):
                    out.extend(self.final_inner(x, depth + 1))
        return out

    def globals(self):
        """tables and defaults whose content the program changed"""
        out = []
        for oid, o in self.st.heap.items():
            b = self.I.base.get(oid)
            if b is None or not (b.origin.startswith('global:') or b.origin.startswith('default:')):
                continue
            tag = ('shared', b.origin, shared_no(self.I, oid, b.origin))
            ch = []
            for n, v in o.fields.items():
                if b.fields.get(n) is not v:
                    ch.append((n, self.field(o, n, self.ev.top)))
            if o._segs is not None and not (b._segs is not None and len(b.segs) == len(o.segs) and all(x.ident() == y.ident() for x, y in zip(b.segs, o.segs))):
                now, was = self.segs(o, self.ev.top), self.segs(b, self.ev.top)
                if now != was:
                    ch.append(('content', now))
            if ch:
                out.append((tag, tuple(ch)))
        for oid, o in self.st.heap.items():
            if isinstance(oid, str) and (oid.startswith('cls:') or oid.startswith('mod:')):
                for n, v in sorted(o.fields.items()):
                    out.append((oid, n, self.field(o, n, self.ev.top)))
        return sorted(out, key=repr)

    def heap_of(self, e):
        out = []
        for oid, o in self.st.heap.items():
            if o.lazy is None or o.origin.startswith('fresh') or o.info.get('prior'):
                continue
            if self.ev.match(o.lazy, e.path) is not None:
                if e.kind == 'inst' and o.kind == 'inst' and isinstance(o.cls, Class):
                    c = self.I.cls_of_schema(e.schema)
                    if isinstance(c, Class) and c.qual != o.cls.qual:
                        continue
                if e.kind == 'list' and 'nlist' in (e.schema.split(' ')[0], o.schema.split(' ')[0]) and o.schema != e.schema:
                    continue
                out.append((oid, o))
        return out


def shared_no(I, oid, origin):
    k = 0
    for x, b in I.base.items():
        if isinstance(b, Obj) and b.origin == origin:
            if x == oid:
                return k
            k += 1
    return k
