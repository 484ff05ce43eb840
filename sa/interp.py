"""Abstract interpretation of the package's source over the value domain of
terms.py.

Every function is analysed once, for all inputs: parameters are symbols,
branches are joined into gated values, a loop over a collection is analysed on
one representative element, and collections are described by segments
("one item", "one item per element of that source for which this condition
holds").  The result of analysing a function is a summary: the value it
returns, the final content of the objects involved and the effects it has.
"""
import ast
from fractions import Fraction

from .terms import *
from .terms import _mkpoly
from . import ops
from .ops import c_eq, c_truth, c_cmp
from .loops import LoopMixin, base_src, bases, ordered
from .prog import Func, Class, Module, Program, AnalysisError


# ------------------------------------------------------------------- objects

class Seg(object):
    """part of a collection.  kind: item | each | opaque | carried"""
    __slots__ = ('kind', 'src', 'guard', 'val', 'key')

    def __init__(self, kind, val=None, guard=TRUE, src=None, key=None):
        self.kind, self.val, self.guard, self.src, self.key = kind, val, guard, src, key

    def but(self, **kw):
        s = Seg(self.kind, self.val, self.guard, self.src, self.key)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def ident(self):
        return (self.kind, self.src, self.guard, self.val, self.key)

    def __repr__(self):
        k = '' if self.key is None else show(self.key) + ': '
        g = '' if self.guard is TRUE else ' if ' + show(self.guard)
        if self.kind == 'item':
            return k + show(self.val) + g
        if self.kind == 'each':
            return '{%s%s for each %s%s}' % (k, show(self.val), '/'.join(show(s) for s in self.src), g)
        return '<%s>' % self.kind


class Obj(object):
    __slots__ = ('oid', 'kind', 'cls', 'fields', '_segs', 'origin', 'lazy', 'schema',
                 'fam', 'info')
    trace = None        # the collections whose content the running loop looks at

    @property
    def segs(self):
        if Obj.trace is not None:
            Obj.trace.add(self.oid)
        return self._segs

    @segs.setter
    def segs(self, v):
        self._segs = v

    def __init__(self, oid, kind, cls=None, origin='fresh', lazy=None, schema=None, fam=()):
        self.oid, self.kind, self.cls, self.origin = oid, kind, cls, origin
        self.fields = {}
        self.segs = None
        self.lazy, self.schema = lazy, schema
        self.fam = fam
        self.info = {}

    def copy(self):
        o = Obj(self.oid, self.kind, self.cls, self.origin, self.lazy, self.schema, self.fam)
        o.fields = dict(self.fields)
        o.segs = list(self._segs) if self._segs is not None else None
        o.info = dict(self.info)
        return o


class State(object):
    def __init__(self):
        self.envs, self.heap, self.live = {}, {}, TRUE

    def fork(self, live=None):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.live = self.live if live is None else live
        return s

    def assign(self, other):
        self.envs, self.heap, self.live = other.envs, other.heap, other.live


class Frame(object):
    n = 0

    def __init__(self, func, fid, parent=None, cls=None):
        self.func, self.fid, self.parent = func, fid, parent
        self.returns = []
        self.loops = []
        self.cls = cls
        self.yields = None
        self.assigned = None
        self.globals_decl = set()
        self.nonlocals = set()


class Effect(object):
    def __init__(self, kind, obj, name, value, guard, node, func, loops):
        self.kind, self.obj, self.name, self.value = kind, obj, name, value
        self.guard, self.node, self.func, self.loops = guard, node, func, loops

    @property
    def where(self):
        return '%s:%s' % (self.func.module.rel if self.func else '?', getattr(self.node, 'lineno', '?'))

    def __repr__(self):
        return '%s %s.%s = %s if %s at %s' % (self.kind, self.obj and self.obj.oid, self.name,
                                             show(self.value) if isinstance(self.value, (Term, Node)) else self.value,
                                             show(self.guard), self.where)


class CallVal(object):
    pass


def ref(oid):
    return mk('ref', oid)


def fnval(f, fid=None, self_val=None):
    return mk('fn', f, fid, self_val)


from .sigs import SCHEMAS, ALIAS


class Interp(LoopMixin):
    MAXDEPTH = 14
    MAXREC = 4

    def __init__(self, prog):
        self.prog = prog
        self.base = {}           # initial heap: lazily materialised inputs, globals, defaults
        self.effects = []
        self.raises = []
        self.recs = []
        self.breaks = []
        self.stack = []
        self.loopsrc = []
        self.loopguards = []
        self.intercept = {}      # qualified name -> handler(interp, st, args, kwargs, node)
        self.visited = set()
        self.nfun = 0
        self.sites = 0
        self.counter = {}
        self.schemas = dict(SCHEMAS)
        self.budget = 400000
        self.protos = {}
        self.elobjs = {}
        self.registered = set()
        self.registry = {}
        self.loopstack = []
        self.loops = {}
        self.carried_read = set()
        self.rec_calls = []
        self.frames_by_id = {}
        self.gen_live = TRUE
        self.dumps = []
        self.last_returns = []

    # ---------------------------------------------------------------- objects
    def new(self, st, kind, node=None, cls=None, origin='fresh'):
        site = 'L%s' % getattr(node, 'lineno', 0)
        fn = self.stack[-1].func.name if self.stack else 'top'
        base = '%s:%s' % (fn, site)
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        o = Obj('%s#%d' % (base, k), kind, cls, origin)
        o.fam = tuple(self.loopsrc)
        if kind in ('list', 'set', 'dict', 'tuple'):
            o.segs = []
        st.heap[o.oid] = o
        return o

    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.base.get(oid)
            if o is None:
                o = self.elobjs.get(oid)
                if o is None:
                    o = self.registry[oid]
        return o

    def mut(self, st, oid):
        o = self.obj(st, oid).copy()
        st.heap[oid] = o
        return o

    def sym(self, name, ty='any'):
        return mk('sym', name, ty=ty)

    def input(self, path, schema, origin=None, fam=()):
        """lazily described input of the given schema; path: a term"""
        if isinstance(path, str):
            path = mk('sym', path, ty='any')
        origin = origin or 'input:' + show(path)
        schema = ALIAS.get(schema, schema)
        if schema in ('num', 'int', 'str', 'any', 'bool', 'tag'):
            if path.op == 'sym':
                path = mk('sym', path.args[0], ty=schema)
            else:
                path = mk('attr', *path.args) if path.op == 'attr' else path
            if schema == 'bool':
                return var_guard(atom('TRUTH', path))
            return self.typed(path, schema)
        if schema.startswith('maybe '):
            inner = self.input(path, schema[6:], origin, fam)
            return ite(var_guard(atom('NONE', path)), NONE, inner)
        if schema.startswith('oneof '):
            names = schema[6:].split('|')
            v = self.input(path, names[-1], origin, fam)
            for n in reversed(names[:-1]):
                v = ite(var_guard(atom('ISA', path, '=' + self.schemas[n]['.class'])), self.input(path, n, origin, fam), v)
            return v
        oid = show(path)
        if '.class' in self.schemas.get(schema, {}) and schema[:1] == 'M' and schema not in ('MPattern', 'MTrack', 'MarkovStyle', 'MFile1', 'MTrack1'):
            oid += '#' + schema
        if origin.startswith('fresh'):
            oid = (origin[6:] or 'cp') + ':' + oid
        if schema.startswith(('list ', 'nlist ')) and oid in self.base and self.base[oid].schema != schema:
            oid += '#' + schema         # the same field of an object of another class
        if oid not in self.base:
            if schema.startswith('list ') or schema.startswith('tuple '):
                kind, inner = schema.split(' ', 1)
                o = Obj(oid, kind, None, origin, path, schema)
                src = path
                el = self.input(mk('elem', src), inner, origin, fam + (src,))
                o.segs = [Seg('each', el, TRUE, (src,))]
            elif schema.startswith('nlist '):
                _, n, inner = schema.split(' ', 2)
                o = Obj(oid, 'list', None, origin, path, schema)
                o.segs = [Seg('item', self.input(mk('item', path, pconst(i)), inner, origin, fam)) for i in range(int(n))]
            elif schema.startswith('ntuple '):
                _, n, inner = schema.split(' ', 2)
                items = tuple(self.input(mk('item', path, pconst(i)), inner, origin, fam) for i in range(int(n)))
                return mk('tuple', *items)
            elif schema.startswith('dict '):
                _, inner = schema.split(' ', 1)
                o = Obj(oid, 'dict', None, origin, path, schema)
                k = self.typed(mk('key', path), 'any')
                v = self.input(mk('elem', path), inner, origin, fam + (path,))
                o.segs = [Seg('each', v, TRUE, (path,), k)]
            else:
                o = Obj(oid, 'inst', self.cls_of_schema(schema), origin, path, schema)
                if '.list' in self.schemas.get(schema, {}):
                    inner = self.schemas[schema]['.list']
                    if isinstance(inner, list):
                        o.segs = [Seg('item', self.input(mk('item', path, pconst(i)), x, origin, fam)) for i, x in enumerate(inner)]
                        o.fam = fam
                        self.base[oid] = o
                        return ref(oid)
                    el = self.input(mk('elem', path), inner, origin, fam + (path,))
                    o.segs = [Seg('each', el, TRUE, (path,))]
            o.fam = fam
            self.base[oid] = o
        return ref(oid)

    def typed(self, t, ty):
        if ty in ('num', 'int', 'str', 'tag'):
            if t.ty != ty and t.op != 'poly':
                if t.op == 'sym':
                    return mk('sym', t.args[0], ty=ty)
                t2 = mk(t.op, *t.args)
                if t2.ty == 'any':
                    t2.ty = ty
                return t2
        return t

    def cls_of_schema(self, schema):
        q = self.schemas[schema].get('.class')
        return self.prog.find(q) if q else None

    # ---------------------------------------------------------------- effects
    def effect(self, st, kind, obj=None, name=None, value=None, node=None):
        if self.stack:
            fn = self.stack[-1].func
        else:
            fn = None
        self.effects.append(Effect(kind, obj, name, value, st.live, node, fn, tuple(self.loopsrc)))

    def set_counts(self):
        '''how many times each field of each object is written'''
        if getattr(self, '_set_counts', (None,))[0] != len(self.effects):
            c = {}
            for e in self.effects:
                if e.kind == 'set' and e.obj is not None:
                    k = (e.obj.oid, e.name)
                    c[k] = c.get(k, 0) + 1
                if e.kind in ('list', 'dict') and e.obj is not None:
                    c[e.obj.oid, None] = 1
                    for x in e.obj.info.get('alias') or ():
                        c[x, None] = 1
            self._set_counts = (len(self.effects), c)
        return self._set_counts[1]

    def dump(self, kind, args, kw, st, node):
        """something handed to a file, with the loops it happens in"""
        self.dumps.append((kind, list(args), dict(kw), st.fork(), node, tuple(L['lid'] for L in self.loopstack)))

    # ----------------------------------------------------------------- values
    def truth(self, v, st):
        return apply1(lambda l: self.truth_leaf(l, st), v)

    def truth_leaf(self, l, st):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if o._segs is not None and o.kind != 'inst':
                return apply1(c_truth, self.length(o))
            if o.kind == 'inst' and o.cls is not None:
                m = o.cls.lookup('__len__') if isinstance(o.cls, Class) else None
                if m and m[0] == 'method':
                    return apply1(c_truth, self.call_func(m[2], [l], {}, st, None))
                if o._segs is not None:
                    return apply1(c_truth, self.length(o))
            return TRUE
        return c_truth(l)

    def length(self, o):
        if o._segs is None:
            return mk('len', ref(o.oid), ty='int')
        if self.is_growing(o):
            return mk('len', unk('growing list'), ty='int')
        if o.kind in ('set',) and not (len(o.segs) == 0):
            # number of distinct values
            if len(o.segs) == 1 and o.segs[0].kind == 'item' and o.segs[0].guard is TRUE:
                return ONE
            return mk('len', self.content(o), ty='int')
        tot = ZERO
        for s in o.segs:
            if s.kind == 'item':
                tot = apply2(padd, tot, ite(s.guard, ONE, ZERO))
            elif s.kind == 'each':
                tot = apply2(padd, tot, self.sum_over(s.src, ite(s.guard, ONE, ZERO)))
            else:
                return mk('len', unk('len of ' + s.kind), ty='int')
        return tot

    def sum_over(self, src, val):
        """sum of val over the elements of (nested) sources"""
        if val is ZERO:
            return ZERO
        t = mk('sum', src, val, ty='int' if all(l.ty == 'int' for l in leaves(val)) else 'num')
        return t

    def exists(self, src, g):
        if g is FALSE:
            return FALSE
        return c_gt(self.sum_over(src, ite(g, ONE, ZERO)))

    # ----------------------------------------------------------- attribute get
    def getattr(self, v, name, st, node=None):
        return self.lift_st(st, v, lambda s, l: self.getattr_leaf(l, name, s, node))

    def lift_st(self, st, v, f):
        """apply f(state, leaf) to each leaf of v under its guard"""
        if leaf(v):
            return f(st, v)
        cs = cases(v)
        cs = [(g, l) for g, l in cs if g_and(st.live, g) is not FALSE]
        if len(cs) == 1:
            return f(st, cs[0][1])
        if not cs:
            return UNDEF
        res, acc = None, None
        live0 = st.live
        for g, l in cs:
            s = st.fork(g_and(live0, g))
            r = f(s, l)
            if res is None:
                res, acc, accg = r, s, g
            else:
                res = ite(g, r, res)
                acc = self.merge(g, s, acc)
        st.assign(acc)
        return res

    def getattr_leaf(self, l, name, st, node=None):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if name in o.fields:
                return o.fields[name]
            if o.kind == 'inst':
                if o.info.get('alias'):
                    r = o.cls.lookup(name) if isinstance(o.cls, Class) else None
                    if not (r and (r[0] == 'method' or isinstance(r[2], tuple) and r[2][0] == 'property')):
                        v = self.alias_read(o, name, st)
                        if v is not None:
                            return v
                if o.schema == 'ByteStream' and name in ('next', '__next__'):
                    return mk('bmeth', l, 'next')
                if o.lazy is not None and name in self.schemas.get(o.schema, {}):
                    ty = self.schemas[o.schema][name]
                    return self.input(mk('attr', o.lazy, name), ty, self.sub_origin(o), o.fam)
                c = o.cls
                if isinstance(c, Class):
                    r = c.lookup(name)
                    if r:
                        kind, owner, thing = r
                        if kind == 'method':
                            if thing.wrap == 'staticmethod':
                                return fnval(thing)
                            if thing.wrap == 'classmethod':
                                return fnval(thing, None, mk('class', c))
                            return fnval(thing, None, l)
                        if isinstance(thing, tuple) and thing[0] == 'property':
                            if thing[1] is None:
                                return unk('write only property ' + name)
                            return self.call_func(thing[1], [l], {}, st, node)
                        return self.class_attr(owner, name, thing, st)
                    if name == '__class__':
                        return mk('class', c)
                    if name == '__dict__':
                        return mk('app', '__dict__', l)
                    if o._segs is not None:
                        return mk('bmeth', l, name)
                if o.lazy is not None:
                    return self.typed(mk('attr', o.lazy, name), 'any')
                return mk('attr', l, name)
            return mk('bmeth', l, name)
        if l.op == 'class':
            c = l.args[0]
            if isinstance(c, Class):
                r = c.lookup(name)
                if r:
                    kind, owner, thing = r
                    if kind == 'method':
                        if thing.wrap == 'classmethod':
                            return fnval(thing, None, l)
                        return fnval(thing)
                    if isinstance(thing, tuple) and thing[0] == 'property':
                        return unk('property object')
                    oid = 'cls:%s' % owner.qual
                    if oid in st.heap and name in st.heap[oid].fields:
                        return st.heap[oid].fields[name]
                    return self.class_attr(owner, name, thing, st)
                if name == '__name__':
                    return const(c.name)
            return mk('attr', l, name)
        if l.op == 'module':
            return self.module_attr(l.args[0], name, st)
        if l.op == 'ext':
            full = l.args[0] + '.' + name
            if full in ops.EXT_CONST:
                return ops.EXT_CONST[full]
            return mk('ext', full)
        if l.op == 'super':
            c, selfv = l.args
            mro = self.real_class(selfv, st, c).mro()
            rest = mro[mro.index(c) + 1:] if c in mro else c.mro()[1:]
            for k in rest:
                if isinstance(k, Class):
                    if name in k.methods:
                        f = k.methods[name]
                        return fnval(f, None, selfv)
                    if name in k.attrs:
                        return self.class_attr(k, name, k.attrs[name], st)
            return mk('bmeth', selfv, name)
        if l.op in ('const', 'tuple') or l.op == 'none' or l.op == 'builtin' and name[:2] != '__':
            return mk('bmeth', l, name)
        if is_numeric(l):
            return mk('bmeth', l, name)
        if l.op == 'unk':
            return unk('attribute of ' + l.args[0])
        if l.op == 'fn':
            return mk('attr', mk('const', 'fn', ty='str'), name)
        return mk('attr', l, name)

    def real_class(self, selfv, st, default):
        if selfv.op == 'ref':
            c = self.obj(st, selfv.args[0]).cls
            return c if isinstance(c, Class) else default
        if selfv.op == 'class':
            return selfv.args[0]
        return default

    def class_attr(self, owner, name, thing, st):
        if thing[0] == 'class':
            return mk('class', thing[1])
        if owner.module.name not in self.registered:
            self.register_classes(owner.module)
        if thing[0] == 'expr':
            return self.global_value('%s.%s' % (owner.qual, name), owner.module, thing[1], cls=owner)
        if thing[0] == 'unpack':
            v = self.global_value('%s.%s()' % (owner.qual, name), owner.module, thing[1], cls=owner)
            return self.unpack_const(v, thing[2])
        return unk('class attribute ' + name)

    def unpack_const(self, v, i):
        if leaf(v) and v.op == 'tuple' and i < len(v.args):
            return v.args[i]
        if leaf(v) and v.op == 'ref':
            o = self.base.get(v.args[0])
            if o is not None and o.segs and i < len(o.segs):
                return o.segs[i].val
        return unk('unpacked global')

    def module_attr(self, m, name, st):
        fid = 'mod:' + m.name
        if fid in st.envs and name in st.envs[fid]:
            return st.envs[fid][name]
        r = self.prog.resolve_name(m, name)
        return self.binding(r, m, name, st)

    def binding(self, r, m, name, st):
        if r is None:
            return None
        if isinstance(r, Func):
            return fnval(r)
        if isinstance(r, Class):
            return mk('class', r)
        if isinstance(r, Module):
            return mk('module', r)
        if r[0] == 'ext':
            if r[1] in ops.EXT_CONST:
                return ops.EXT_CONST[r[1]]
            return mk('ext', r[1])
        if r[0] == 'global':
            gm, gname, b = r[1], r[2], r[3]
            fid = 'mod:' + gm.name
            if fid in st.envs and gname in st.envs[fid]:
                return st.envs[fid][gname]
            if b[0] == 'unpack':
                v = self.global_value('%s.%s()' % (gm.name, gname), gm, b[1])
                return self.unpack_const(v, b[2])
            return self.global_value('%s.%s' % (gm.name, gname), gm, b[1])
        return unk('global ' + name)

    def global_value(self, qual, m, expr, cls=None):
        key = ('global', qual)
        if key in self.base:
            return self.base[key]
        self.base[key] = unk('recursive global ' + qual)
        st = State()
        f = Func(m, ast.parse('def _module_(): pass').body[0], None, '<module>')
        fr = Frame(f, 'init:' + qual)
        st.envs[fr.fid] = {}
        if cls is not None:
            fr.cls = cls
        saved = (self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks)
        self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks = [fr], [], [], [], [], []
        try:
            v = self.eval(expr, st, fr)
        finally:
            self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks = saved
        for oid, o in st.heap.items():
            o2 = o.copy()
            o2.origin = 'global:' + qual
            self.base[oid] = o2
        self.base[key] = v
        return v

    def register_classes(self, m):
        """what the metaclasses of a module leave in its registries: their
        __init__ is followed for each class statement, in order"""
        self.registered.add(m.name)
        todo = []
        for st in m.tree.body:
            if isinstance(st, ast.ClassDef):
                c = m.globals.get(st.name)
                if not isinstance(c, Class):
                    continue
                for k in c.mro():
                    mc = getattr(k, 'metaclass', None) if isinstance(k, Class) else None
                    if mc is not None and '__init__' in mc.methods:
                        todo.append((c, mc.methods['__init__']))
                        break
        if not todo:
            return
        st = State()
        f = Func(m, ast.parse('def _module_(): pass').body[0], None, '<module>')
        fr = Frame(f, 'init:classes of ' + m.name)
        st.envs[fr.fid] = {}
        saved = (self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks, dict(self.counter), self.loopstack)
        self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks, self.loopstack = [fr], [], [], [], [], [], []
        try:
            for c, init in todo:
                bases = mk('tuple', *[mk('class', b) for b in c.bases if isinstance(b, Class)])
                self.call_func(init, [mk('class', c), const(c.name), bases, unk('namespace')], {}, st, None)
        finally:
            self.stack, self.loopsrc, self.effects, self.recs, self.raises, self.breaks, self.counter, self.loopstack = saved
        for oid, o in st.heap.items():
            o2 = o.copy()
            if oid not in self.base:
                o2.origin = 'global:' + oid
            self.base[oid] = o2

    # ----------------------------------------------------------- attribute set
    def setattr(self, v, name, val, st, node=None):
        def f(s, l):
            self.setattr_leaf(l, name, val, s, node)
            return NONE
        self.lift_st(st, v, f)

    def setattr_leaf(self, l, name, val, st, node):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                r = o.cls.lookup(name)
                if r and r[0] == 'attr' and isinstance(r[2], tuple) and r[2][0] == 'property':
                    if r[2][2] is not None:
                        self.call_func(r[2][2], [l, val], {}, st, node)
                    return
            self.effect(st, 'set', o, name, val, node)
            if o.info.get('alias'):
                self.alias_write(st, o, name, val, node)
            self.stale(st, o, name)
            self.mut(st, l.args[0]).fields[name] = val
        elif l.op == 'class':
            oid = 'cls:%s' % getattr(l.args[0], 'qual', l.args[0])
            if oid not in self.base:
                self.base[oid] = Obj(oid, 'cls', l.args[0], 'global:' + oid)
            self.effect(st, 'set', self.base[oid], name, val, node)
            self.mut(st, oid).fields[name] = val
        elif l.op == 'module':
            fid = 'mod:' + l.args[0].name
            self.effect(st, 'global', None, l.args[0].name + '.' + name, val, node)
            st.envs.setdefault(fid, {})[name] = val
        elif l.op in ('unk', 'undef'):
            self.effect(st, 'set-unknown', None, name, val, node)
        else:
            self.effect(st, 'set-term', None, name, mk('tuple', l, val), node)

    def stale(self, st, o, name):
        '''what other handles on the object remember of the field no longer stands'''
        mine = set(o.info.get('alias') or (o.oid,))
        for hid, h in list(st.heap.items()):
            if hid != o.oid and name in h.fields and mine.intersection(h.info.get('alias') or ()):
                del self.mut(st, hid).fields[name]

    # ------------------------------------------------------------------- merge
    def merge(self, g, a, b):
        """state that is a where g holds, else b"""
        if a.live is FALSE:
            return b
        if b.live is FALSE:
            return a
        s = State()
        s.live = ite(g, a.live, b.live)
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                s.envs[fid] = dict(ea or eb)
                continue
            e = {}
            for n in list(ea) + [x for x in eb if x not in ea]:
                va, vb = ea.get(n, UNDEF), eb.get(n, UNDEF)
                e[n] = va if va is vb else self.gite(g, va, vb)
            s.envs[fid] = e
        for oid in list(a.heap) + [x for x in b.heap if x not in a.heap]:
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is None or ob is None:
                other = self.base.get(oid) or self.elobjs.get(oid)
                if other is None:
                    s.heap[oid] = oa or ob
                    continue
                oa, ob = oa or other, ob or other
            s.heap[oid] = oa if oa is ob else self.merge_obj(g, oa, ob, a, b)
        return s

    def gite(self, g, a, b):
        try:
            return ite(g, a, b)
        except TooBig:
            return unk('too big')

    def merge_obj(self, g, a, b, sa, sb):
        o = a.copy()
        if o.info.get('alias') and o.kind == 'inst':
            # a handle on an element: whatever was not written through it is read from the element itself
            for n in set(a.fields) | set(b.fields):
                va, vb = a.fields.get(n), b.fields.get(n)
                if va is None:
                    va = self.alias_read(a, n, sa)
                if vb is None:
                    vb = self.alias_read(b, n, sb)
                if va is None or vb is None:
                    o.fields.pop(n, None)
                else:
                    o.fields[n] = va if va is vb else self.gite(g, va, vb)
            return o
        for n in set(a.fields) | set(b.fields):
            va = a.fields.get(n)
            vb = b.fields.get(n)
            if va is None:
                va = self.lazy_field(a, n)
            if vb is None:
                vb = self.lazy_field(b, n)
            o.fields[n] = va if va is vb else self.gite(g, va, vb)
        if a._segs is not None and b._segs is not None:
            o.segs = self.merge_segs(g, a._segs, b._segs)
        return o

    def lazy_field(self, o, n):
        if o.lazy is not None and n in self.schemas.get(o.schema, {}):
            return self.input(mk('attr', o.lazy, n), self.schemas[o.schema][n], self.sub_origin(o), o.fam)
        return UNDEF

    def sub_origin(self, o):
        if o.origin.startswith('fresh'):
            return o.origin if o.origin != 'fresh' else 'fresh:' + o.oid
        return o.origin

    def merge_segs(self, g, a, b):
        out, i = [], 0
        while i < len(a) and i < len(b) and a[i].ident() == b[i].ident():
            out.append(a[i])
            i += 1
        ra, rb = a[i:], b[i:]
        # same shape with gated values
        if len(ra) == len(rb) and all(x.kind == y.kind and x.src == y.src and x.kind in ('item', 'each') for x, y in zip(ra, rb)):
            for x, y in zip(ra, rb):
                out.append(Seg(x.kind, self.gite(g, x.val, y.val), self.gite(g, x.guard, y.guard), x.src,
                               x.key if x.key is y.key else (None if x.key is None or y.key is None else self.gite(g, x.key, y.key))))
            return out
        for x in ra:
            gg = g_and(g, x.guard)
            if gg is not FALSE:
                out.append(x.but(guard=gg))
        ng = g_not(g)
        for x in rb:
            gg = g_and(ng, x.guard)
            if gg is not FALSE:
                out.append(x.but(guard=gg))
        return out

    # -------------------------------------------------------------- statements
    def exec_block(self, body, st, fr):
        for s in body:
            if st.live is FALSE:
                return
            self.budget -= 1
            if self.budget < 0:
                raise AnalysisError('analysis budget exceeded')
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.havoc_stmt(s, st, fr)
            else:
                m(s, st, fr)

    def havoc_stmt(self, s, st, fr):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.store_name(n.id, unk('unsupported ' + type(s).__name__), st, fr)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.do_yield(s.value, st, fr)
            return
        self.eval(s.value, st, fr)

    def do_yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value else NONE
        o = self.mut(st, fr.yields)
        o.segs.append(Seg('item', v, self.rel(st)))
        return NONE

    def x_Pass(self, s, st, fr):
        pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.store_name(nm, mk('ext', a.name if a.asname else a.name.split('.')[0]), st, fr)

    def x_ImportFrom(self, s, st, fr):
        g = {}
        self.prog._import_from(s, g)
        for nm, b in g.items():
            if nm == '*':
                continue
            if b[0] == 'from':
                v = self.binding(self.prog.resolve_name(self.prog.modules[b[1]], b[2]), None, nm, st) or unk('import ' + nm)
            elif b[0] == 'mod':
                v = mk('module', self.prog.modules[b[1]])
            else:
                v = mk('ext', b[1])
            self.store_name(nm, v, st, fr)

    def x_Global(self, s, st, fr):
        fr.globals_decl |= set(s.names)

    def x_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.store(t, v, st, fr)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.store(s.target, self.eval(s.value, st, fr), st, fr)

    def x_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.load_name(s.target.id, st, fr, s)
            rhs = self.eval(s.value, st, fr)
            new = self.aug(cur, op, rhs, st, s)
            self.store_name(s.target.id, new, st, fr)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value, st, fr)
            cur = self.getattr(base, s.target.attr, st, s)
            rhs = self.eval(s.value, st, fr)
            new = self.aug(cur, op, rhs, st, s)
            if new is not cur:
                self.setattr(base, s.target.attr, new, st, s)
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st, fr)
            key = self.eval_index(s.target.slice, st, fr)
            cur = self.subscript(base, key, st, s)
            rhs = self.eval(s.value, st, fr)
            new = self.aug(cur, op, rhs, st, s)
            self.store_sub(base, key, new, st, s)

    def aug(self, cur, op, rhs, st, node):
        def f(s, l):
            if l.op == 'ref' and op == 'Add':
                o = self.obj(s, l.args[0])
                if o.kind == 'list' or (o.kind == 'inst' and o._segs is not None):
                    self.list_extend(l, rhs, s, node)
                    return l
            if l.op == 'ref' and op in ('BitOr',):
                o = self.obj(s, l.args[0])
                if o.kind == 'set':
                    self.list_extend(l, rhs, s, node)
                    return l
            return apply1(lambda r: self.binop_leaf(op, l, r, s, node), rhs)
        return self.lift_st(st, cur, f)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st, fr)
                key = self.eval_index(t.slice, st, fr)
                for l in leaves(base):
                    if l.op == 'ref':
                        o = self.mut(st, l.args[0])
                        self.effect(st, 'list' if o.kind != 'dict' else 'dict', o, 'del', key, s)
                        o.segs = self.deleted(o, key, st)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st, fr)
                self.setattr(base, t.attr, UNDEF, st, s)

    def deleted(self, o, key, st):
        if o._segs is None:
            return None
        if self.is_growing(o):
            return [Seg('opaque', unk('del in a growing list'))]
        if leaf(key) and is_num_const(key) and o.kind == 'list':
            n = int(num_value(key))
            if all(s.kind == 'item' and s.guard is TRUE for s in o.segs) and -len(o.segs) <= n < len(o.segs):
                segs = list(o.segs)
                del segs[n]
                return segs
        if o.kind == 'dict' and leaf(key) and key.op == 'const':
            return [s for s in o.segs if s.key is not key]
        if any(x.kind == 'opaque' for x in o.segs):
            return o.segs
        T = apply1(lambda k: mk('del', self.content(o), k), key)
        return self.term_segs(T, self.protos_of(o), st, o.kind)

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append([st.live, v, st.fork(), s])
        st.live = FALSE

    def x_Raise(self, s, st, fr):
        self.raises.append((st.live, s, fr.func))
        st.live = FALSE

    def x_Assert(self, s, st, fr):
        g = self.truth(self.eval(s.test, st, fr), st)
        self.raises.append((g_and(st.live, g_not(g)), s, fr.func))
        st.live = g_and(st.live, g)

    def x_If(self, s, st, fr):
        from .prog import version_test
        v = version_test(s.test)
        if v is not None:
            self.exec_block(s.body if v == self.prog.py else s.orelse, st, fr)
            return
        g = self.cond(s.test, st, fr)
        self.branch(g, st, lambda a: self.exec_block(s.body, a, fr), lambda b: self.exec_block(s.orelse, b, fr))

    def cond(self, e, st, fr):
        return self.truth(self.eval(e, st, fr), st)

    def branch(self, g, st, fa, fb):
        ga, gb = g_and(st.live, g), g_and(st.live, g_not(g))
        if gb is FALSE:
            fa(st)
            return
        if ga is FALSE:
            fb(st)
            return
        a, b = st.fork(ga), st.fork(gb)
        fa(a)
        fb(b)
        st.assign(self.merge(g, a, b))

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, st, fr)
        self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        if s.handlers:
            g = var_guard(atom('OPQ', 'exception in try', getattr(s, 'lineno', 0), fr.func.qual))
            before = st.fork()
            body = st.fork(g_and(st.live, g_not(g)))
            self.exec_block(s.body, body, fr)
            self.exec_block(s.orelse, body, fr)
            acc = body
            for h in s.handlers:
                hs = before.fork(g_and(before.live, g))
                if h.name:
                    self.store_name(h.name, unk('exception'), hs, fr)
                self.exec_block(h.body, hs, fr)
                acc = self.merge(g, hs, acc)
            st.assign(acc)
        else:
            self.exec_block(s.body, st, fr)
        self.exec_block(s.finalbody, st, fr)

    def x_FunctionDef(self, s, st, fr):
        f = Func(fr.func.module, s, None, outer=fr.func)
        f.defcls = fr.cls
        self.bind_defaults(f, st, fr)
        st.envs[fr.fid][s.name] = fnval(f, fr.fid)

    def bind_defaults(self, f, st, fr):
        """defaults of nested functions are evaluated when the def runs"""
        a = f.node.args
        vals = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            vals[n] = self.eval(d, st, fr)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                vals[n.arg] = self.eval(d, st, fr)
        f.defaults = vals

    def x_ClassDef(self, s, st, fr):
        c = self.prog._class(fr.func.module, s)
        c.qual = fr.func.qual + '.' + s.name
        c.fid = fr.fid
        bases = []
        for b in c.base_exprs:
            v = self.eval(b, st, fr)
            bases.append(v.args[0] if leaf(v) and v.op in ('class', 'ext') else ast.unparse(b))
        c.bases = bases
        st.envs[fr.fid][s.name] = mk('class', c)

    def x_Continue(self, s, st, fr):
        fr.loops[-1]['continues'].append(st.fork())
        st.live = FALSE

    def x_Break(self, s, st, fr):
        fr.loops[-1]['breaks'].append(st.fork())
        st.live = FALSE

    # ------------------------------------------------------------------- names
    def lookup_env(self, name, st, fr):
        f = fr
        fid = fr.fid
        while True:
            env = st.envs.get(fid)
            if env is not None and name in env:
                return env[name]
            f = self.frames_by_id.get(fid)
            if f is None or f.parent is None:
                return None
            fid = f.parent

    def load_name(self, name, st, fr, node):
        v = self.lookup_env(name, st, fr) if name not in fr.globals_decl else None
        if v is not None:
            return v
        m = fr.func.module
        if fr.cls is not None and fr.fid.startswith('init:'):
            r = fr.cls.lookup(name)
            if r and r[0] == 'attr':
                return self.class_attr(r[1], name, r[2], st)
        v = self.module_attr(m, name, st)
        if v is not None:
            return v
        if name in ops.BUILTINS or name in ops.EXC:
            return mk('builtin', name)
        return unk('name ' + name)

    def store_name(self, name, v, st, fr):
        if name in fr.globals_decl:
            fid = 'mod:' + fr.func.module.name
            self.effect(st, 'global', None, fr.func.module.name + '.' + name, v, None)
            st.envs.setdefault(fid, {})[name] = v
            return
        if name in fr.nonlocals:
            fid = fr.parent
            while fid is not None:
                if name in st.envs.get(fid, {}):
                    st.envs[fid][name] = v
                    return
                p = self.frames_by_id.get(fid)
                fid = p.parent if p else None
        st.envs[fr.fid][name] = v

    def store(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st, fr), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                self.store_slice(base, t.slice, v, st, fr, t)
            else:
                self.store_sub(base, self.eval_index(t.slice, st, fr), v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.store(t.value, unk('starred'), st, fr)

    def unpack(self, elts, v, st, fr):
        n = len(elts)
        for i, e in enumerate(elts):
            def f(s, l, i=i):
                if l.op == 'tuple' and len(l.args) == n:
                    return l.args[i]
                return self.subscript_leaf(l, pconst(i), s, e)
            self.store(e, self.lift_st(st, v, f), st, fr)

    def store_slice(self, base, sl, v, st, fr, node):
        full = sl.lower is None and sl.upper is None and sl.step is None
        for g, l in cases(base):
            if l.op == 'ref':
                o = self.mut(st, l.args[0])
                self.effect(st, 'list', o, 'assign', v, node)
                if full:
                    o.segs = self.as_segs(v, st)
                else:
                    a = self.eval(sl.lower, st, fr) if sl.lower else NONE
                    b = self.eval(sl.upper, st, fr) if sl.upper else NONE
                    if self.is_growing(o) or sl.step is not None or not leaf(a) or not leaf(b):
                        o.segs = [Seg('opaque', unk('slice assignment'))]
                    else:
                        ns = self.as_segs(v, st)
                        tmp = Obj('tmp', 'list')
                        tmp.segs = ns
                        pr = self.protos_of(o) + self.protos_of(tmp)
                        T = mk('putsl', self.content(o), a, b, self.content(tmp))
                        self.rewrite(o, T, pr, st)

    def store_sub(self, base, key, v, st, node):
        def f(s, l):
            if l.op != 'ref':
                if l.op not in ('unk', 'undef'):
                    self.effect(s, 'sub-term', None, None, mk('tuple', l, key, v), node)
                return NONE
            o = self.obj(s, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup('__setitem__'):
                self.call_func(o.cls.lookup('__setitem__')[2], [l, key, v], {}, s, node)
                return NONE
            o = self.mut(s, l.args[0])
            self.effect(s, 'dict' if o.kind == 'dict' else 'list', o, 'setitem', mk('tuple', key, v), node)
            if o._segs is None:
                return NONE
            if o.kind == 'dict':
                self.dict_store(o, key, v, s)
            elif leaf(key) and is_num_const(key):
                n = int(num_value(key))
                if all(x.kind == 'item' and x.guard is TRUE for x in o.segs) and -len(o.segs) <= n < len(o.segs):
                    o.segs[n] = Seg('item', v)
                else:
                    self.term_store(o, key, v, s)
            else:
                self.term_store(o, key, v, s)
            return NONE
        self.lift_st(st, base, f)

    def rewrite(self, o, T, protos, st):
        o.segs = self.term_segs(T, protos, st, o.kind)
        if o.info.get('alias') and o.info.get('path') is not None:
            self.nested_write(o, T, st)

    def nested_write(self, o, T, st):
        for oid in o.info['alias']:
            F = self.mut(st, oid)
            if F._segs is not None:
                F.segs = [Seg('opaque', unk('changed through a container'))]
        self.forget_handles(st, o.info['alias'], o.oid)

    def forget_handles(self, st, oids, but=None):
        """what was read through a container no longer stands"""
        oids = set(oids)
        for hid, h in list(st.heap.items()):
            if hid != but and h._segs is not None and oids.intersection(h.info.get('alias') or ()):
                self.mut(st, hid).segs = [Seg('opaque', unk('changed elsewhere'))]

    def term_store(self, o, key, v, st):
        if self.is_growing(o):
            o.segs = [Seg('opaque', unk('store in a growing list'))]
            return
        if any(x.kind == 'opaque' for x in o.segs):
            return
        T = apply2(lambda k, w: mk('put', self.content(o), k, w), key, v)
        self.rewrite(o, T, self.protos_of(o) + list(leaves(v)), st)

    def dict_store(self, o, key, v, st):
        if self.is_growing(o) and any(s.key is None for s in o.segs if s.kind != 'carried'):
            o.segs = [Seg('opaque', unk('store'))]
            return
        if o.info.get('alias'):
            for oid in o.info['alias']:
                self.nested_write(o, None, st)
                break
        for i, s in enumerate(o.segs):
            if s.kind == 'item' and s.key is key and s.guard is TRUE:
                o.segs[i] = Seg('item', v, TRUE, None, key)
                return
        if leaf(key) and (key.op == 'const' or is_num_const(key)):
            segs = []
            for s in o.segs:
                if s.kind == 'item' and s.key is key:
                    continue
                segs.append(s)
            o.segs = segs + [Seg('item', v, TRUE, None, key)]
            return
        o.segs = o.segs + [Seg('item', v, TRUE, None, key)]

    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        self.iterate(it, s, st, fr, lambda v, b: self.store(s.target, v, b, fr),
                     lambda b: self.exec_block(s.body, b, fr), s.orelse)

    def schema_of_cls(self, cls):
        for k, v in self.schemas.items():
            if isinstance(cls, Class) and v.get('.class') == cls.qual:
                return k
        return None

    # ------------------------------------------------------------- collections
    def iter_segs(self, l, st):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if o._segs is not None and self.is_growing(o):
                return [Seg('opaque', None)]
            if o.kind == 'dict':
                out = []
                for s in o.segs or []:
                    out.append(s.but(val=s.key, key=None) if s.key is not None else s)
                return out
            if o.kind == 'set' and o._segs is not None and not (len(o.segs) <= 1 and all(s.kind == 'item' for s in o.segs)) and not self.distinct_items(o):
                if any(s.kind == 'opaque' for s in o.segs):
                    return o.segs
                T = self.content(o)
                if base_src(T) is T:
                    T = ordered(T, ('unordered',))
                return self.term_segs(T, self.protos_of(o), st)
            if o._segs is not None:
                return o.segs
            if o.kind == 'inst' and isinstance(o.cls, Class):
                r = o.cls.lookup('__iter__')
                if r:
                    v = self.call_func(r[2], [l], {}, st, None)
                    if leaf(v):
                        return self.iter_segs(v, st)
                r = o.cls.lookup('__getitem__')
                if r:
                    # the sequence protocol: self[0], self[1], ...
                    return self.seq_protocol(l, o, r[2], st)
        if l.op == 'tuple':
            return [Seg('item', a) for a in l.args]
        if l.op == 'const' and isinstance(l.args[0], str):
            return [Seg('item', const(c)) for c in l.args[0]]
        if l.op in ('unk', 'undef'):
            return [Seg('opaque', None)]
        if l.op == 'app' and l.args[0] in ('iter', 'ro'):
            return self.iter_segs(l.args[1], st)
        if l.op == 'none':
            return []
        # an unknown iterable value: one representative element
        return [Seg('each', self.typed(mk('elem', l), 'any'), TRUE, (l,))]

    def distinct_items(self, o):
        return all(s.kind == 'item' and s.guard is TRUE and leaf(s.val) and (s.val.op == 'const' or is_num_const(s.val)) for s in o.segs)

    def seq_protocol(self, l, o, f, st):
        idx = mk('sym', 'seqidx', ty='int')
        s2 = st.fork()
        v = self.call_func(f, [l, idx], {}, s2, None)
        # expected shape: <list>[idx] for one list of the object
        if leaf(v) and v.op == 'pick':
            r = v.args[0]
            if r.op == 'ref':
                return self.obj(st, r.args[0]).segs
            return self.iter_segs(r, st)
        return [Seg('opaque', None)]

    def as_segs(self, v, st):
        """the content of an iterable value as segments"""
        if leaf(v):
            return list(self.iter_segs(v, st))
        out = []
        for g, l in cases(v):
            for s in self.iter_segs(l, st):
                out.append(s.but(guard=g_and(g, s.guard)) if s.kind in ('item', 'each') else s)
        return out

    def list_extend(self, l, rhs, st, node):
        segs = self.as_segs(rhs, st)
        o = self.mut(st, l.args[0])
        self.effect(st, 'list', o, 'extend', rhs, node)
        self.add_to(o, segs, st, node)
        return NONE

    def add_to(self, o, segs, st, node):
        """items added at the end of a list"""
        if o.info.get('alias') and o.info.get('path') is not None:
            self.grow_elsewhere(st, o.info['path'], o.info['alias'], segs, node)
            o.segs = [Seg('opaque', unk('grown through a container'))]
        elif o.kind == 'list' and self.awaits(o.oid):
            # others add to it in this loop as well: keep the order
            self.grow_elsewhere(st, ref(o.oid), (o.oid,), segs, node)
        else:
            o.segs = (o._segs or []) + segs

    def make_list(self, st, segs, node=None, kind='list', order=None):
        o = self.new(st, kind, node)
        o.segs = list(segs)
        if order is not None:
            o.segs = self.reorder(o, order, st)
        return ref(o.oid)

    def reorder(self, o, how, st):
        segs = o.segs
        if len(segs) == 1 and segs[0].kind == 'each' and len(segs[0].src) == 1:
            return [segs[0].but(src=(ordered(segs[0].src[0], how),))]
        if any(s.kind == 'carried' for s in segs):
            self.carried_read.add(o.oid)
            return [Seg('opaque', unk('ordered while growing'))]
        if len(segs) == 0 or (len(segs) == 1 and segs[0].kind == 'item'):
            return segs
        T = ordered(self.content(o), how)
        return self.term_segs(T, self.protos_of(o), st, o.kind if o.kind == 'dict' else 'list')

    def comp(self, e, st, fr, kind):
        """list/set/generator/dict comprehension"""
        outer_env = dict(st.envs[fr.fid])
        out = []
        node = e
        before, counters = st.fork(), dict(self.counter)
        marks = (len(self.effects), len(self.raises), len(self.recs), len(self.breaks), len(self.dumps), len(self.rec_calls))
        stateful = []

        def gen(i, s, wrap):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.eval(e.key, s, fr)
                    v = self.eval(e.value, s, fr)
                    out.append(wrap(Seg('item', v, s.live, None, k)))
                else:
                    v = self.eval(e.elt, s, fr)
                    out.append(wrap(Seg('item', v, s.live)))
                return
            g = e.generators[i]
            it = self.eval(g.iter, s, fr)

            def over(s1, l):
                for seg in self.iter_segs(l, s1):
                    if s1.live is FALSE:
                        return NONE
                    if seg.kind == 'item':
                        b = s1.fork(g_and(s1.live, seg.guard))
                        if b.live is FALSE:
                            continue
                        self.store(g.target, seg.val, b, fr)
                        for c in g.ifs:
                            b.live = g_and(b.live, self.truth(self.eval(c, b, fr), b))
                        if b.live is not FALSE:
                            gen(i + 1, b, wrap)
                        s1.heap = b.heap if seg.guard is TRUE and not g.ifs else s1.heap
                        if not (seg.guard is TRUE and not g.ifs):
                            for oid, o in b.heap.items():
                                if oid not in s1.heap and oid not in self.base:
                                    s1.heap[oid] = o
                    elif seg.kind == 'each':
                        sg = self.fresh_elem(seg, s1)
                        srcs, val = tuple(sg.src), sg.val
                        bsrcs = bases(srcs)
                        b = s1.fork(g_and(s1.live, sg.guard))
                        self.loopsrc.extend(bsrcs)
                        L = {'srcs': srcs, 'heap': dict(b.heap), 'reads': [], 'writes': [], 'lid': None}
                        self.loopstack.append(L)
                        try:
                            self.store(g.target, val, b, fr)
                            for c in g.ifs:
                                b.live = g_and(b.live, self.truth(self.eval(c, b, fr), b))
                            live = s1.live

                            def wrap2(x, srcs=srcs, live=live):
                                gg = x.guard
                                if x.kind == 'item':
                                    y = Seg('each', x.val, gg, srcs, x.key)
                                elif x.kind == 'each':
                                    y = x.but(src=tuple(srcs) + tuple(x.src))
                                else:
                                    y = x
                                return wrap(y)
                            if b.live is not FALSE:
                                gen(i + 1, b, wrap2)
                        finally:
                            del self.loopsrc[-len(bsrcs):]
                            self.loopstack.pop()
                        for oid, o in b.heap.items():
                            o0 = s1.heap.get(oid) or self.base.get(oid)
                            if o0 is None:
                                s1.heap[oid] = o
                            elif o is not o0:
                                if any(x in o.fam for x in bsrcs) or o0.info.get('prior'):
                                    s1.heap[oid] = o
                                else:
                                    no = o0.copy()
                                    for n, v in o.fields.items():
                                        if o0.fields.get(n) is not v:
                                            stateful.append(1)
                                            no.fields[n] = unk('changed in comprehension')
                                    if o._segs is not None and [x.ident() for x in o.segs] != [x.ident() for x in o0.segs or []]:
                                        stateful.append(1)
                                        no.segs = [Seg('opaque', unk('changed in comprehension'))]
                                    s1.heap[oid] = no
                    else:
                        out.append(Seg('opaque', unk('comprehension over unknown')))
                return NONE
            self.lift_st(s, it, over)
        s = st.fork()
        live0 = st.live
        gen(0, s, lambda x: x)
        if stateful and kind in ('list', 'dict', 'set', 'gen'):
            # its elements change something: seen as the loop it abbreviates
            self.counter = counters
            del self.effects[marks[0]:], self.raises[marks[1]:], self.recs[marks[2]:], self.breaks[marks[3]:], self.dumps[marks[4]:], self.rec_calls[marks[5]:]
            st.assign(before)
            return self.comp_as_loop(e, st, fr, kind, outer_env)
        st.heap = s.heap
        st.envs = s.envs
        st.envs[fr.fid] = outer_env
        segs = []
        for x in out:
            if x.kind in ('item', 'each'):
                g = under(live0, x.guard)
                segs.append(x.but(guard=g))
            else:
                segs.append(x)
        return segs, None

    def comp_as_loop(self, e, st, fr, kind, outer_env):
        name = '$comp%d' % e.lineno
        tmp = ast.Name(id=name, ctx=ast.Load())
        if kind == 'dict':
            body = ast.Assign(targets=[ast.Subscript(value=tmp, slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            body = ast.Expr(value=ast.Call(func=ast.Attribute(value=tmp, attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        ast.copy_location(body, e)
        ast.fix_missing_locations(body)
        l = self.make_list(st, [], e, 'dict' if kind == 'dict' else 'list')
        st.envs[fr.fid] = dict(st.envs[fr.fid])
        st.envs[fr.fid][name] = l
        self.exec_block([body], st, fr)
        segs = self.obj(st, l.args[0]).segs
        st.envs[fr.fid] = outer_env
        return list(segs), None

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unk('expression ' + type(e).__name__)
        try:
            return m(e, st, fr)
        except TooBig:
            return unk('too big')

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return unk('ellipsis')
        return const(e.value) if not isinstance(e.value, complex) else unk('complex')

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.eval(e.value, st, fr), e.attr, st, e)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return unk('starred')
        return mk('tuple', *[self.eval(x, st, fr) for x in e.elts])

    def e_List(self, e, st, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vals.extend(self.as_segs(self.eval(x.value, st, fr), st))
            else:
                vals.append(Seg('item', self.eval(x, st, fr)))
        return self.make_list(st, vals, e)

    def e_Set(self, e, st, fr):
        return self.make_list(st, [Seg('item', self.eval(x, st, fr)) for x in e.elts], e, 'set')

    def e_Dict(self, e, st, fr):
        o = self.new(st, 'dict', e)
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                segs.extend(self.dict_segs(self.eval(v, st, fr), st))
            else:
                kv = self.eval(k, st, fr)
                segs = [s for s in segs if not (s.kind == 'item' and s.key is kv)]
                segs.append(Seg('item', self.eval(v, st, fr), TRUE, None, kv))
        o = self.mut(st, o.oid)
        o.segs = segs
        return ref(o.oid)

    def dict_segs(self, v, st):
        out = []
        for g, l in cases(v):
            if l.op == 'ref' and self.obj(st, l.args[0]).kind == 'dict':
                for s in self.obj(st, l.args[0]).segs or []:
                    out.append(s.but(guard=g_and(g, s.guard)))
            elif l.op == 'none':
                pass
            else:
                out.append(Seg('each', self.typed(mk('elem', l), 'any'), g, (l,), mk('key', l)))
        return out

    def e_ListComp(self, e, st, fr):
        segs, order = self.comp(e, st, fr, 'list')
        return self.make_list(st, segs, e, order=order)

    def e_GeneratorExp(self, e, st, fr):
        segs, order = self.comp(e, st, fr, 'list')
        return self.make_list(st, segs, e, order=order)

    def e_SetComp(self, e, st, fr):
        segs, order = self.comp(e, st, fr, 'list')
        return self.make_list(st, segs, e, 'set')

    def e_DictComp(self, e, st, fr):
        segs, order = self.comp(e, st, fr, 'dict')
        return self.make_list(st, segs, e, 'dict')

    def e_Lambda(self, e, st, fr):
        f = Func(fr.func.module, e, None, '<lambda:%d>' % e.lineno, outer=fr.func)
        self.bind_defaults(f, st, fr)
        return fnval(f, fr.fid)

    def e_IfExp(self, e, st, fr):
        g = self.cond(e.test, st, fr)
        box = {}

        def a(s):
            box['a'] = self.eval(e.body, s, fr)

        def b(s):
            box['b'] = self.eval(e.orelse, s, fr)
        ga, gb = g_and(st.live, g), g_and(st.live, g_not(g))
        if gb is FALSE:
            return self.eval(e.body, st, fr)
        if ga is FALSE:
            return self.eval(e.orelse, st, fr)
        s1, s2 = st.fork(ga), st.fork(gb)
        a(s1)
        b(s2)
        live = st.live
        st.assign(self.merge(g, s1, s2))
        st.live = live
        return self.gite(g, box['a'], box['b'])

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st, fr)
        return self.boolop(isand, v, e.values[1:], st, fr)

    def boolop(self, isand, v, rest, st, fr):
        if not rest:
            return v
        g = self.truth(v, st)
        cont = g if isand else g_not(g)       # evaluate the rest under this
        gl = g_and(st.live, cont)
        if gl is FALSE:
            return v
        s2 = st.fork(gl)
        w = self.eval(rest[0], s2, fr)
        w = self.boolop(isand, w, rest[1:], s2, fr)
        live = st.live
        if g_and(live, g_not(cont)) is FALSE:
            st.assign(s2)
            st.live = live
            return w
        s1 = st.fork(g_and(live, g_not(cont)))
        st.assign(self.merge(cont, s2, s1))
        st.live = live
        return self.gite(cont, w, v)

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return g_not(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return apply1(lambda l: psub(ZERO, l) if l.op not in ('unk', 'undef') else l, v)
        if isinstance(e.op, ast.UAdd):
            return v
        return apply1(lambda l: mk('app', 'invert', l, ty='int'), v)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        op = type(e.op).__name__
        return apply2(lambda x, y: self.binop_leaf(op, x, y, st, e), a, b)

    def binop_leaf(self, op, a, b, st, node):
        if op in ('Add', 'Mult') and (a.op == 'ref' or b.op == 'ref'):
            return self.seq_binop(op, a, b, st, node)
        if op in ('Sub', 'BitOr', 'BitAnd') and a.op == 'ref' and b.op == 'ref':
            oa, ob = self.obj(st, a.args[0]), self.obj(st, b.args[0])
            if oa.kind == 'set' and op == 'BitOr':
                return self.make_list(st, list(oa.segs) + list(ob.segs), node, 'set')
            return unk('set operation')
        return ops.binop(op, a, b)

    def seq_binop(self, op, a, b, st, node):
        if op == 'Mult':
            if b.op == 'ref' and a.op != 'ref':
                a, b = b, a
            o = self.obj(st, a.args[0])
            if o._segs is None:
                return unk('repeat')
            if is_num_const(b):
                n = int(num_value(b))
                return self.make_list(st, list(o.segs) * max(0, n), node, o.kind)
            src = mk('range', b)
            segs = []
            for s in o.segs:
                if s.kind == 'item':
                    segs.append(Seg('each', s.val, s.guard, (src,)))
                else:
                    segs.append(Seg('opaque', unk('repeat')))
            return self.make_list(st, segs, node, o.kind)
        sa = self.iter_segs(a, st) if a.op in ('ref', 'tuple') else None
        sb = self.iter_segs(b, st) if b.op in ('ref', 'tuple') else None
        if sa is None or sb is None:
            kind = 'tuple'
            if a.op == 'unk' or b.op == 'unk':
                return unk('concatenation')
            sa = sa if sa is not None else self.iter_segs(a, st)
            sb = sb if sb is not None else self.iter_segs(b, st)
        kind = 'list'
        for x in (a, b):
            if x.op == 'tuple' or (x.op == 'ref' and self.obj(st, x.args[0]).kind == 'tuple'):
                kind = 'tuple'
        return self.make_list(st, list(sa) + list(sb), node, kind)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        g = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, fr)
            r = self.compare(type(op).__name__, left, right, st, e)
            g = g_and(g, self.truth(r, st))
            left = right
        return g

    def compare(self, op, a, b, st, node):
        if op in ('In', 'NotIn'):
            r = self.lift_st(st, b, lambda s, l: self.contains(a, l, s, node))
            return r if op == 'In' else g_not(r)
        return apply2(lambda x, y: self.compare_leaf(op, x, y, st, node), a, b)

    def compare_leaf(self, op, a, b, st, node):
        if op in ('Eq', 'NotEq') and a.op == 'ref':
            o = self.obj(st, a.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                meth = o.cls.lookup('__eq__' if op == 'Eq' else '__ne__')
                if meth and meth[0] == 'method':
                    v = self.call_func(meth[2], [a, b], {}, st, node)
                    return apply1(lambda l: (FALSE if op == 'Eq' else TRUE) if (l.op == 'builtin' or l.op == 'const') else c_truth(l), v)
        if op in ('Eq', 'NotEq') and a.op == 'ref' and b.op == 'ref' and a is not b:
            oa, ob = self.obj(st, a.args[0]), self.obj(st, b.args[0])
            if oa._segs is not None and ob._segs is not None and not oa.segs and not ob.segs:
                return TRUE if op == 'Eq' else FALSE
            for x, y in ((oa, ob), (ob, oa)):
                if x._segs is not None and not x.segs and y._segs is not None and x.kind == y.kind:
                    r = apply1(c_truth, self.length(y))
                    return g_not(r) if op == 'Eq' else r
            from .builtins_ import freeze
            if oa.kind != 'inst' and ob.kind != 'inst' and not self.is_growing(oa) and not self.is_growing(ob):
                return apply2(lambda x, y: c_cmp(op, x, y), *[freeze(self, x, st) if o.lazy is None and o._segs is not None else x for x, o in ((a, oa), (b, ob))])
        return c_cmp(op, a, b)

    def contains(self, a, l, st, node):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class) and o.cls.lookup('__contains__'):
                return self.truth(self.call_func(o.cls.lookup('__contains__')[2], [l, a], {}, st, node), st)
            if o.kind == 'inst' and o._segs is None:
                return var_guard(atom('IN', a if leaf(a) else unk('in'), l))
            if o.kind == 'dict' and o.lazy is not None and leaf(a):
                return var_guard(atom('IN', a, o.lazy))
            if o._segs is not None:
                g = FALSE
                if self.is_growing(o):
                    return var_guard(atom('OPQ', 'in growing', a, l))
                for s in o.segs:
                    x = s.key if o.kind == 'dict' else s.val
                    if s.kind == 'item':
                        g = g_or(g, g_and(s.guard, self.truth(self.compare('Eq', a, x, st, node), st)))
                    elif s.kind == 'each':
                        eq = self.truth(self.compare('Eq', x, a, st, node), st)
                        g = g_or(g, self.exists(s.src, g_and(s.guard, eq)))
                    else:
                        return var_guard(atom('OPQ', 'in unknown', a, l))
                return g
        if l.op == 'tuple':
            g = FALSE
            for x in l.args:
                g = g_or(g, self.truth(self.compare('Eq', a, x, st, node), st))
            return g
        if l.op == 'const' and leaf(a) and a.op == 'const':
            return TRUE if a.args[0] in l.args[0] else FALSE
        if l.op == 'unk':
            return var_guard(atom('OPQ', 'in unknown', a, l))
        if l.op == 'app' and l.args[0] == '.keys':
            return apply1(lambda x: var_guard(atom('IN', x, l.args[1])), a)
        if l.op == 'range' and leaf(a):
            return var_guard(atom('OPQ', 'in range', a, l))
        return apply1(lambda x: var_guard(atom('IN', x, l)), a)

    def eval_index(self, sl, st, fr):
        if isinstance(sl, ast.Slice):
            a = self.eval(sl.lower, st, fr) if sl.lower else NONE
            b = self.eval(sl.upper, st, fr) if sl.upper else NONE
            c = self.eval(sl.step, st, fr) if sl.step else NONE
            return mk('slice', a, b, c)
        return self.eval(sl, st, fr)

    def e_Subscript(self, e, st, fr):
        base = self.eval(e.value, st, fr)
        key = self.eval_index(e.slice, st, fr)
        return self.subscript(base, key, st, e)

    def subscript(self, base, key, st, node):
        def f(s, l):
            return self.lift_st(s, key, lambda s2, k: self.subscript_leaf(l, k, s2, node))
        return self.lift_st(st, base, f)

    def subscript_leaf(self, l, k, st, node):
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if o.kind == 'inst' and isinstance(o.cls, Class):
                r = o.cls.lookup('__getitem__')
                if r and o._segs is None:
                    return self.call_func(r[2], [l, k], {}, st, node)
            if o.kind == 'dict':
                return self.dict_get(o, l, k, st)
            if o._segs is not None:
                if k.op == 'slice':
                    if all(a is NONE for a in k.args):
                        return self.make_list(st, o.segs, node, o.kind)
                    if k.args[0] is NONE and k.args[1] is NONE and leaf(k.args[2]) and is_num_const(k.args[2]) and num_value(k.args[2]) == -1:
                        return self.make_list(st, list(o.segs), node, o.kind, ('reversed',)) if not all(x.kind == 'item' for x in o.segs) else self.make_list(st, list(reversed(o.segs)), node, o.kind)
                    if all(s.kind == 'item' and s.guard is TRUE for s in o.segs) and \
                            all(a is NONE or (leaf(a) and is_num_const(a)) for a in k.args):
                        sl = slice(*[None if a is NONE else int(num_value(a)) for a in k.args])
                        return self.make_list(st, o.segs[sl], node, o.kind)
                    if o.kind == 'list' or o.kind == 'tuple' or o.kind == 'inst':
                        return self.slice_list(o, k, st, node)
                    return self.make_list(st, [Seg('opaque', unk('slice'))], node, o.kind)
                if self.is_growing(o):
                    return unk('item of a growing list')
                if is_num_const(k):
                    n = int(num_value(k))
                    if n >= 0 and len(o.segs) > n and all(s.kind == 'item' and s.guard is TRUE for s in o.segs[:n + 1]):
                        return o.segs[n].val
                    if n < 0 and len(o.segs) >= -n and all(s.kind == 'item' and s.guard is TRUE for s in o.segs[n:]):
                        return o.segs[n].val
                if len(o.segs) == 1 and o.segs[0].kind == 'each' and o.segs[0].guard is TRUE and len(o.segs[0].src) == 1 \
:
                    s = o.segs[0]
                    if k.op == 'app' and k.args[0] == 'idx' and k.args[1] is s.src[0]:
                        return s.val
                if k.op == 'sym' and k.args[0] == 'seqidx':
                    return mk('pick', l, k)
                return self.pick(o, l, k, st)
            return mk('item', l, k)
        if l.op == 'tuple':
            if is_num_const(k):
                n = int(num_value(k))
                if -len(l.args) <= n < len(l.args):
                    return l.args[n]
                return unk('index out of range')
            return mk('item', l, k)
        if l.op == 'const':
            if is_num_const(k) and isinstance(l.args[0], str) and -len(l.args[0]) <= int(num_value(k)) < len(l.args[0]):
                return const(l.args[0][int(num_value(k))])
            return mk('item', l, k)
        if l.op == 'pylist':
            return mk('item', l, k)
        if l.op in ('unk', 'undef'):
            return unk('item of ' + str(l.args[0] if l.args else 'undef'))
        if k.op == 'app' and k.args[0] == 'idx' and k.args[1] is l:
            return self.typed(mk('elem', l), 'any')
        return mk('item', l, k)

    def is_growing(self, o):
        if o._segs is not None and any(s.kind == 'carried' for s in o.segs):
            self.carried_read.add(o.oid)
            return True
        return False

    def slice_list(self, o, k, st, node):
        if self.is_growing(o):
            return unk('slice of a growing list')
        if any(s.kind == 'opaque' for s in o.segs):
            return self.make_list(st, [Seg('opaque', unk('slice'))], node, 'list')
        T = mk('sl', self.content(o), k)
        return self.make_list(st, self.term_segs(T, self.protos_of(o), st), node, 'list' if o.kind == 'inst' else o.kind)

    def pick(self, o, l, k, st):
        """some element of a collection, by an index the analysis cannot place"""
        if not o.segs:
            return UNDEF
        if any(s.kind == 'opaque' for s in o.segs):
            return unk('item of an unknown list')
        return self.elem_value(mk('item', self.content(o), k), self.protos_of(o), st)

    def dict_get(self, o, l, k, st, default=None):
        if o._segs is None:
            return mk('item', l, k)
        if self.is_growing(o):
            return unk('item of a growing dict')
        if len(o.segs) == 1 and o.segs[0].kind == 'each' and o.segs[0].key is k:
            return o.segs[0].val
        if o.lazy is not None and len(o.segs) == 1 and o.segs[0].kind == 'each' and (o.schema or '').startswith('dict '):
            return self.input(mk('item', o.lazy, k), o.schema[5:], o.origin, o.fam)
        if all(s.kind == 'item' for s in o.segs):
            res = default if default is not None else UNDEF
            for s in o.segs:
                eq = self.truth(self.compare('Eq', k, s.key, st, None), st)
                res = self.gite(g_and(s.guard, eq), s.val, res)
            return res
        if any(s.kind == 'opaque' for s in o.segs):
            return unk('item of an unknown dict')
        return self.elem_value(mk('item', self.content(o), k), self.protos_of(o), st)

    def e_Call(self, e, st, fr):
        return self.call_expr(e, st, fr)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                if v.format_spec is not None:
                    parts.append(apply1(lambda l: mk('app', 'format', l, ty='str'), self.eval(v.value, st, fr)))
                else:
                    parts.append(apply1(ops.to_str, self.eval(v.value, st, fr)))
        r = const('')
        for p in parts:
            r = apply2(ops.cat, r, p)
        return r

    def e_Yield(self, e, st, fr):
        return self.do_yield(e, st, fr)

    def e_Starred(self, e, st, fr):
        return unk('starred')

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.store(e.target, v, st, fr)
        return v

    def e_Slice(self, e, st, fr):
        return self.eval_index(e, st, fr)

    # -------------------------------------------------------------------- calls
    def call_expr(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup_env('super', st, fr) is None:
            return self.do_super(e, st, fr)
        fv = self.eval(e.func, st, fr)
        args, kw = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                segs = self.as_segs(v, st)
                if all(s.kind == 'item' and s.guard is TRUE for s in segs):
                    args.extend(s.val for s in segs)
                else:
                    star = v
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                for g, l in cases(v):
                    if l.op == 'ref' and self.obj(st, l.args[0])._segs is not None and \
                            all(s.kind == 'item' and s.key is not None and leaf(s.key) and s.key.op == 'const' for s in self.obj(st, l.args[0]).segs):
                        for s in self.obj(st, l.args[0]).segs:
                            kw[s.key.args[0]] = s.val
                    else:
                        star = v
            else:
                kw[k.arg] = v
        if star is not None:
            return unk('call with unknown arguments')
        return self.call_value(fv, args, kw, st, fr, e)

    def do_super(self, e, st, fr):
        if e.args:
            c = self.eval(e.args[0], st, fr)
            s = self.eval(e.args[1], st, fr)
        else:
            c = mk('class', fr.func.cls) if fr.func.cls else NONE
            first = fr.func.node.args.args[0].arg if fr.func.node.args.args else None
            s = self.load_name(first, st, fr, e) if first else NONE
        if leaf(c) and c.op == 'class' and leaf(s):
            return mk('super', c.args[0], s)
        return unk('super')

    def call_value(self, fv, args, kw, st, fr, node):
        def f(s, l):
            return self.call_leaf(l, args, kw, s, fr, node)
        return self.lift_st(st, fv, f)

    def call_leaf(self, l, args, kw, st, fr, node):
        if l.op == 'fn':
            func, fid, selfv = l.args
            a = ([selfv] if selfv is not None else []) + args
            return self.call_func(func, a, kw, st, node, fid)
        if l.op == 'class':
            return self.instantiate(l.args[0], args, kw, st, node)
        if l.op == 'builtin':
            from .builtins_ import call_builtin
            return call_builtin(self, l.args[0], args, kw, st, fr, node)
        if l.op == 'ext':
            from .builtins_ import call_ext
            return call_ext(self, l.args[0], args, kw, st, fr, node)
        if l.op == 'bmeth':
            from .builtins_ import call_bmeth
            return call_bmeth(self, l.args[0], l.args[1], args, kw, st, fr, node)
        if l.op == 'attr':
            self.effect(st, 'call', None, l.args[1], mk('tuple', l.args[0], *args), node)
            from .builtins_ import call_term_method
            return call_term_method(self, l.args[0], l.args[1], args, kw, st, fr, node)
        if l.op == 'unk':
            self.effect(st, 'unknown-call', None, None, l, node)
            return unk('call of ' + l.args[0])
        if l.op == 'partial':
            return self.call_leaf(l.args[0], list(l.args[1]) + args, kw, st, fr, node)
        if l.op == 'ref':
            o = self.obj(st, l.args[0])
            if isinstance(o.cls, Class):
                r = o.cls.lookup('__call__')
                if r:
                    return self.call_func(r[2], [l] + args, kw, st, node)
        self.effect(st, 'call', None, show(l), mk('tuple', *args), node)
        return applyn(lambda *xs: mk('app', 'call', l, *xs), args) if args else mk('app', 'call', l)

    def instantiate(self, cls, args, kw, st, node):
        if not isinstance(cls, Class):
            return unk('instance of ' + str(cls))
        q = cls.qual
        if q in self.intercept:
            r = self.intercept[q](self, st, args, kw, node)
            if r is not NotImplemented:
                return r
        o = self.new(st, 'inst', node, cls)
        if any(b in ('list', 'set', 'dict', 'tuple') for b in cls.mro() if isinstance(b, str)):
            o.segs = []
            st.heap[o.oid] = o
        r = cls.lookup('__init__')
        rv = ref(o.oid)
        if cls.has_external_base('tuple') and args:
            o = self.mut(st, o.oid)
            o.segs = self.as_segs(args[0], st)
        if r and r[0] == 'method':
            self.call_func(r[2], [rv] + args, kw, st, node)
        elif o._segs is not None and args and not cls.has_external_base('tuple'):
            self.mut(st, o.oid).segs = self.as_segs(args[0], st)
        return rv


    def call_func(self, func, args, kw, st, node, parent=None):
        q = func.qual
        if q in self.intercept:
            r = self.intercept[q](self, st, args, kw, node)
            if r is not NotImplemented:
                return r
        active = [f for f in self.stack if f.func.node is func.node]
        if active and procedure(func.node):
            # followed to some depth; models that go deeper are left open
            if len(active) >= self.MAXREC:
                self.effect(st, 'stuck', None, q, None, node)
                self.raises.append((st.live, STUCK, func))
                st.live = FALSE
                return UNDEF
        elif len(self.stack) >= self.MAXDEPTH or active:
            self.effect(st, 'rec-call', None, q, mk('tuple', *args), node)
            if func.node in (f.func.node for f in active):
                self.rec_calls.append((func, list(args), dict(kw), st.live, node))
            return applyn(lambda *xs: mk('app', 'rec:' + q, *xs), list(args) + [kw[k] for k in sorted(kw)])
        self.visited.add((func.module.rel, getattr(func.node, 'lineno', 0), q))
        Frame.n += 1
        k = self.counter.get('fid', 0)
        self.counter['fid'] = k + 1
        fr = Frame(func, 'f%d:%s' % (k, func.name), parent, func.cls)
        self.frames_by_id[fr.fid] = fr
        env = self.bind_args(func, args, kw, st, node)
        if env is None:
            self.effect(st, 'bad-call', None, q, None, node)
            return unk('call with wrong arguments')
        st.envs[fr.fid] = env
        if isinstance(func.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.eval(func.node.body, st, fr)
            finally:
                self.stack.pop()
        body = normalise(func.node)
        isgen = _is_generator(func.node)
        self.stack.append(fr)
        live0 = st.live
        try:
            if isgen:
                o = self.new(st, 'list', func.node)
                fr.yields = o.oid
            saved_rel = getattr(self, 'gen_live', TRUE)
            self.gen_live = live0
            self.exec_block(body, st, fr)
            self.gen_live = saved_rel
        finally:
            self.stack.pop()
        # leave a closure's frame alive: its environment stays in the state
        val = None
        if st.live is not FALSE:
            fr.returns.append([st.live, NONE, st.fork(), None])
        if not fr.returns:
            st.live = FALSE
            return UNDEF
        acc_s, acc_v = None, None
        for g, v, s, n in fr.returns:
            s.live = g
            if acc_s is None:
                acc_s, acc_v = s, v
            else:
                rg = under(live0, g)
                acc_v = self.gite(rg, v, acc_v)
                acc_s = self.merge(rg, s, acc_s)
        st.assign(acc_s)
        if isgen:
            return ref(fr.yields)
        self.last_returns = fr.returns
        return acc_v


    def bind_args(self, func, args, kw, st, node):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if extra:
            if a.vararg is None:
                return None
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', *extra)
        konly = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if n in names or n in konly:
                if n in env:
                    return None
                env[n] = kw.pop(n)
        if kw:
            if a.kwarg is None:
                return None
        if a.kwarg is not None:
            o = self.new(st, 'dict', func.node)
            o.segs = [Seg('item', v, TRUE, None, const(k)) for k, v in kw.items()]
            env[a.kwarg.arg] = ref(o.oid)
        defaults = getattr(func, 'defaults', None)
        dn = names[len(names) - len(a.defaults):]
        for n, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                if defaults is not None and n in defaults:
                    env[n] = defaults[n]
                else:
                    env[n] = self.default_value(func, n, d)
        for n in names + konly:
            if n not in env:
                return None
        return env

    def default_value(self, func, n, d):
        v = self.global_value('%s(%s)' % (func.qual, n), func.module, d, cls=func.cls)
        for l in leaves(v):
            if l.op == 'ref' and l.args[0] in self.base and self.base[l.args[0]].origin.startswith('global:%s(' % func.qual):
                self.base[l.args[0]].origin = 'default:%s(%s)' % (func.qual, n)
        return v

    def rel(self, st):
        return under(getattr(self, 'gen_live', TRUE), st.live)

    # ------------------------------------------------------------------- clones
    def clone(self, l, st, deep=True, memo=None, path=''):
        """deepcopy / copy of a leaf value"""
        if memo is None:
            memo = {}
        if l.op == 'tuple':
            return mk('tuple', *[apply1(lambda x: self.clone(x, st, deep, memo), a) for a in l.args]) if deep else l
        if l.op != 'ref':
            return l
        oid = l.args[0]
        if oid in memo:
            return ref(memo[oid])
        o = self.obj(st, oid)
        if o.kind == 'tuple' and not deep:
            return l
        base = 'copy(%s)' % oid
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        nid = base + ('' if not k else '#%d' % k)
        memo[oid] = nid
        c = o.copy()
        c.oid, c.origin = nid, 'fresh'
        c.fam = tuple(o.fam) + tuple(s for s in self.loopsrc if s not in o.fam)
        c.info = {'copyof': oid, 'deep': deep}
        st.heap[nid] = c
        if o.lazy is not None and not deep:
            for n, ty in self.schemas.get(o.schema, {}).items():
                if not n.startswith('.') and n not in c.fields:
                    c.fields[n] = self.lazy_field(o, n)
        if deep:
            c.fields = {n: apply1(lambda x: self.clone(x, st, True, memo), v) for n, v in c.fields.items()}
            if c._segs is not None:
                c.segs = [s.but(val=None if s.val is None else apply1(lambda x: self.clone(x, st, True, memo), s.val)) for s in c.segs]
        return ref(nid)


def subst_src(v, m):
    """replace loop sources in elem/key/idx terms"""
    if not m or not isinstance(v, (Term, Node)):
        return v
    return subst(v, dict(m))


STUCK = 'deeper recursion'


def procedure(node):
    """a function that is called for what it does: it answers nothing"""
    r = getattr(node, '_procedure', None)
    if r is None:
        r = node._procedure = not isinstance(node, ast.Lambda) and not _is_generator(node) and not any(
            isinstance(x, ast.Return) and x.value is not None for x in ast.walk(node))
    return r


def _is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


# ------------------------------------------------------- source normalisation

def normalise(fnode):
    """rewrite counting while-loops into for-loops over a range"""
    if not hasattr(fnode, '_norm'):
        body = fnode.body
        if any(isinstance(n, ast.While) for n in ast.walk(fnode)):
            body = _norm_block(body)
        fnode._norm = body
    return fnode._norm


def _norm_block(body):
    out = list(body)
    i = 0
    while i < len(out):
        s = out[i]
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and isinstance(getattr(s, f), list):
                s2 = ast.copy_location(type(s)(**{k: getattr(s, k) for k in s._fields}), s)
                setattr(s2, f, _norm_block(getattr(s, f)))
                out[i] = s = s2
        if isinstance(s, ast.While) and not s.orelse:
            r = _counting(out[:i], s)
            if r is not None:
                init_at, new = r
                out[i] = new
                del out[init_at]
                continue
        i += 1
    return out


def _counting(before, w):
    """i = a; while i < n: ...; i += 1  ->  for i in range(a, n): ..."""
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
        return None
    var = t.left.id
    if not w.body:
        return None
    last = w.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
            and last.target.id == var and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    rest = w.body[:-1]
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store):
                return None
            if isinstance(n, ast.Continue):
                return None
    bound = t.comparators[0]
    names = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)}
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                return None
            # the bounded sequence must not change size in the loop
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'pop', 'remove', 'insert', 'extend') \
                    and isinstance(bound, ast.Call) and bound.args and ast.dump(n.func.value) == ast.dump(bound.args[0]):
                return None
    for j in range(len(before) - 1, -1, -1):
        s = before[j]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var:
            for k in before[j + 1:]:
                for n in ast.walk(k):
                    if isinstance(n, ast.Name) and n.id == var:
                        return None
            args = [bound] if isinstance(s.value, ast.Constant) and s.value.value == 0 else [s.value, bound]
            new = ast.For(target=ast.Name(id=var, ctx=ast.Store()),
                          iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=args, keywords=[]),
                          body=rest or [ast.Pass()], orelse=[])
            ast.copy_location(new, w)
            ast.fix_missing_locations(new)
            return j, new
        if any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(s)):
            return None
    return None
