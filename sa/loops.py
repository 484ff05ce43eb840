"""Loops.

A loop is analysed on one representative iteration.  What an iteration leaves
for the next one is a loop-carried variable (phi); its value after the loop is
recognised as a sum, a maximum, "there is an element such that", and otherwise
described by the recurrence itself: a mu term naming the initial value and the
step.  Lists that only grow become segments ("one item per element for which
..."); lists that are rewritten in place become list-valued recurrences.
"""
import ast

from .terms import *
from .terms import _mkpoly
from . import ops
from .prog import Class


class LoopDef(object):
    def __init__(self, lid):
        self.lid = lid
        self.srcs = ()
        self.guard = TRUE
        self.test = None
        self.leave = FALSE
        self.vars = {}          # phi term -> [init, step]
        self.node = self.func = None


def base_src(s):
    while isinstance(s, Term) and s.op == 'ord':
        s = s.args[0]
    return s


def bases(srcs):
    return tuple(base_src(s) for s in srcs)


def ordered(src, how):
    if how[0] == 'reversed' and src.op == 'ord' and src.args[1][0] == 'reversed':
        return src.args[0]
    return mk('ord', src, how)


class Carried(Exception):
    pass


class LoopMixin(object):

    def Seg(self, *a, **k):
        from .interp import Seg
        return Seg(*a, **k)

    # -------------------------------------------------- collections as terms
    def content(self, o):
        """a term for the content of a collection"""
        segs = o.segs or []
        if o.kind != 'set' and len(segs) == 1 and segs[0].kind == 'each' and segs[0].guard is TRUE and len(segs[0].src) == 1:
            s = segs[0]
            b = base_src(s.src[0])
            if o.kind == 'dict':
                if s.key is not None and leaf(s.key) and s.key.op == 'key' and s.key.args[0] is b and self.is_elem(s.val, b):
                    return s.src[0]
            elif s.key is None and self.is_elem(s.val, b):
                return s.src[0]
        return mk('lstv', 'dict' if o.kind == 'dict' else ('set' if o.kind == 'set' else 'list'),
                  tuple((s.kind, s.src or (), s.guard, s.val if s.val is not None else NONE, s.key if s.key is not None else NONE) for s in segs))

    def is_elem(self, v, b):
        if not leaf(v):
            return False
        if v.op == 'elem' and v.args[0] is b:
            return True
        if v.op == 'ref':
            o = self.base.get(v.args[0]) or self.elobjs.get(v.args[0])
            return o is not None and o.lazy is not None and o.lazy.op == 'elem' and o.lazy.args[0] is b
        if v.op == 'tuple' and v.args:
            return all(leaf(a) and a.op == 'item' and a.args[0].op == 'elem' and a.args[0].args[0] is b
                       and a.args[1] is pconst(i) for i, a in enumerate(v.args))
        if v.op == 'app' and v.args[0] == 'idx' and v.args[1] is b and b.op == 'range':
            return True
        return False

    def protos_of(self, o):
        out = []
        for s in o._segs or []:
            if s.val is not None:
                out.extend(leaves(s.val))
        return out

    def term_segs(self, T, protos, st, kind='list'):
        b = base_src(T)
        v = self.elem_value(mk('elem', b), protos, st)
        key = None
        if kind == 'dict':
            key = self.typed(mk('key', b), 'any')
        return [self.Seg('each', v, TRUE, (T,), key)]

    def elem_value(self, path, protos, st, depth=0):
        """a value of the same shape as the prototypes, found at path"""
        ls, seen = [], set()
        for p in protos:
            for l in leaves(p):
                if id(l) not in seen and l is not UNDEF:
                    seen.add(id(l))
                    ls.append(l)
        if not ls:
            return path
        if any(l.op == 'unk' for l in ls):
            return path
        nones = [l for l in ls if l is NONE]
        rest = [l for l in ls if l is not NONE]
        if not rest:
            return path
        if nones:
            v = self.elem_value(path, rest, st, depth)
            return ite(var_guard(atom('NONE', path)), NONE, v)
        if all(l.op == 'ref' for l in rest):
            objs = [self.obj(st, l.args[0]) for l in rest]
            c0 = objs[0].cls
            if all(o.kind == 'inst' and o.cls is c0 for o in objs):
                return self.alias_obj(path, [o.oid for o in objs], st)
            if all(o.kind == 'inst' and o._segs is None and isinstance(o.cls, Class) for o in objs):
                # objects of several classes: one case per class
                groups = {}
                for o in objs:
                    groups.setdefault(o.cls.qual, []).append(o.oid)
                names = sorted(groups)
                v = self.alias_obj(path, groups[names[-1]], st, names[-1])
                for q in reversed(names[:-1]):
                    v = ite(var_guard(atom('ISA', path, '=' + q)), self.alias_obj(path, groups[q], st, q), v)
                return v
            k0 = objs[0].kind
            if all(o.kind == k0 and o._segs is not None for o in objs) and depth < 3:
                oid = 'sub(%s)' % path.sk
                from .interp import Obj
                c = Obj(oid, k0, None, objs[0].origin)
                flat = []
                for o in objs:
                    for x in (o.info.get('alias') or (o.oid,)):
                        if x not in flat:
                            flat.append(x)
                c.info['alias'] = tuple(flat)
                c.info['path'] = path
                c.info['prior'] = True
                c.fam = tuple(self.loopsrc)
                pr = [p for o in objs for p in self.protos_of(o)]
                c.segs = self.elsewhere(path, flat, pr, st, k0)
                st.heap[oid] = c
                self.elobjs[oid] = c
                return ref(oid)
            return unk('mixed elements')
        if any(l.op == 'ref' for l in rest):
            return unk('mixed elements')
        if all(l.op == 'tuple' for l in rest) and len(set(len(l.args) for l in rest)) == 1 and depth < 3:
            n = len(rest[0].args)
            return mk('tuple', *[self.elem_value(mk('item', path, pconst(i)), [l.args[i] for l in rest], st, depth + 1) for i in range(n)])
        if all(l in (TRUE, FALSE) for l in rest):
            return var_guard(atom('TRUTH', path))
        if all(is_numeric(l) for l in rest):
            ty = 'int' if all(l.ty == 'int' for l in rest) else 'num'
            if path.op == 'sym':
                return mk('sym', path.args[0], ty=ty)
            return self.typed(path, ty)
        tys = set(l.ty for l in rest)
        if len(tys) == 1 and tys <= {'str', 'tag'}:
            if path.op == 'sym':
                return mk('sym', path.args[0], ty=tys.pop())
            return self.typed(path, tys.pop())
        return path

    def elsewhere(self, path, flat, pr, st, kind):
        """the content of a collection known only as 'the one found at path'"""
        counts = self.set_counts()
        if not any(counts.get((x, None)) for x in flat):
            return self.term_segs(path, pr, st, kind)
        pairs = []
        for x in flat:
            F = self.obj(st, x)
            if F.info.get('alias') or F._segs is None or self.awaits(x) or self.is_growing(F) \
                    or any(b in self.loopsrc for b in F.fam) or any(q.kind not in ('item', 'each') for q in F._segs):
                return [self.Seg('opaque', unk('content of a changing collection'))]
            for L in self.loopstack:
                if L['heap'].get(x) is not F and (L['heap'].get(x) or self.base.get(x)) is not F:
                    return [self.Seg('opaque', unk('content of a changing collection'))]
            pairs.append((x, self.content(F)))
        return self.term_segs(mk('deref', path, '[]', tuple(pairs)), pr, st, kind)

    def awaits(self, oid):
        """additions to it have been put off to the end of a loop"""
        return any(w.get('kind') == 'ext' and oid in w['oids'] for L in self.loopstack for w in L['writes'])

    def grow_elsewhere(self, st, path, oids, segs, node):
        from .interp import Obj
        tmp = Obj('tmp', 'list')
        tmp.segs = segs
        w = dict(kind='ext', path=path, oids=oids, val=self.content(tmp), protos=self.protos_of(tmp), guard=st.live, node=node, name=None,
                 had=tuple((x, self.seg_idents(self.obj(st, x))) for x in oids))
        bad = any(q.kind not in ('item', 'each') for q in segs)
        for x in oids:
            F = self.obj(st, x)
            if F.kind != 'list' or F.info.get('alias') or not F.fam or bad:
                bad = True
            for L in self.loopstack[:-1]:
                if any(y.get('kind') == 'ext' and x in y['oids'] for y in L['writes']):
                    bad = True
        if bad:
            w['val'] = None
        self.forget_handles(st, oids)
        if not self.loopstack:
            self.apply_growth(st, [w], (), TRUE, ())
        else:
            self.loopstack[-1]['writes'].append(w)

    def seg_idents(self, o):
        return [s.ident() for s in o._segs or []]

    def apply_growth(self, st, ws, srcs, live0, seen):
        """additions made to collections found by position, in the order they were made"""
        oids = []
        for w in ws:
            for x in w['oids']:
                if x not in oids:
                    oids.append(x)
        for x in oids:
            F = self.mut(st, x)
            mine = [w for w in ws if x in w['oids']]
            now = self.seg_idents(F)
            if any(w['val'] is None or dict(w['had'])[x] != now for w in mine) or x in seen \
                    or any(h in seen for h, ho in self.elobjs.items() if x in (ho.info.get('alias') or ())):
                F.segs = [self.Seg('opaque', unk('grown through a container'))]
                continue
            T = mk('cupd', self.content(F), ref(x), srcs, tuple((under(live0, w['guard']), w['path'], w['val']) for w in mine))
            F.segs = self.term_segs(T, self.protos_of(F) + [l for w in mine for l in w['protos']], st)
        self.forget_handles(st, oids)

    def alias_obj(self, path, oids, st, split=''):
        from .interp import Obj
        flat = []
        for oid in oids:
            o = self.obj(st, oid)
            for x in (o.info.get('alias') or (oid,)):
                if x not in flat:
                    flat.append(x)
        nid = 'el(%s)%s' % (path.sk, split and '#' + split)
        if nid in st.heap:
            return ref(nid)
        p = self.obj(st, flat[0])
        c = Obj(nid, 'inst', p.cls, p.origin, path, self.schema_of_cls(p.cls) or p.schema)
        c.fam = tuple(self.loopsrc)
        c.info['alias'] = tuple(flat)
        c.info['path'] = path
        c.info['prior'] = True
        st.heap[nid] = c
        self.elobjs[nid] = c
        return ref(nid)

    def alias_read(self, o, name, st):
        """field of an object known only as 'the element found at path'"""
        path = o.info['path']
        pairs, plain = [], True
        for oid in o.info['alias']:
            F = self.obj(st, oid)
            active = None
            for L in self.loopstack:
                if any(s in F.fam for s in bases(L['srcs'])):
                    active = L
                    break
            if active is not None or self.loopstack:
                for i, L in enumerate(self.loopstack):
                    inner = ()
                    for L2 in self.loopstack[i + 1:]:
                        inner += tuple(L2['srcs'])
                    r = (oid, name, path, inner)
                    if r not in L['reads']:
                        L['reads'].append(r)
            src = F
            if active is not None:
                src = active['heap'].get(oid) or self.base.get(oid) or F
            if name in src.fields:
                v = src.fields[name]
                init = self.lazy_field(src, name) if src.lazy is not None else None
                if v is not init:
                    plain = False
            elif src.lazy is not None:
                v = self.lazy_field(src, name)
                if v is UNDEF:
                    v = self.typed(mk('attr', src.lazy, name), 'any')
            else:
                return None
            pairs.append((oid, v))
        if plain:
            if o.schema and name in self.schemas.get(o.schema, {}):
                return self.input(mk('attr', path, name), self.schemas[o.schema][name], o.origin, o.fam)
            return self.typed(mk('attr', path, name), 'any')
        d = mk('deref', path, name, tuple(pairs))
        return self.elem_value(d, [v for _, v in pairs], st)

    def alias_write(self, st, o, name, val, node):
        w = dict(path=o.info['path'], oids=o.info['alias'], name=name, val=val, guard=st.live, node=node)
        if not self.loopstack:
            self.apply_alias_write(st, w, (), TRUE, ())
        else:
            self.loopstack[-1]['writes'].append(w)

    def apply_alias_write(self, st, w, srcs, live0, reads):
        for oid in w['oids']:
            F = self.mut(st, oid)
            old = F.fields.get(w['name'])
            if old is None:
                old = self.lazy_field(F, w['name'])
            ty = 'num' if all(is_numeric(l) for l in leaves(old) + leaves(w['val'])) else 'any'
            F.fields[w['name']] = mk('upd', old, ref(oid), srcs, under(live0, w['guard']), w['path'], w['val'], w['name'], reads, ty=ty)

    # ----------------------------------------------------------------- driving
    def iterate(self, it, node, st, fr, bind, body, orelse=()):
        def f(s, l):
            self.iterate_leaf(l, node, s, fr, bind, body, orelse)
            return NONE
        self.lift_st(st, it, f)

    def iterate_leaf(self, l, node, st, fr, bind, body, orelse):
        segs = self.iter_segs(l, st)
        allbreaks = []
        for seg in segs:
            if st.live is FALSE:
                break
            if seg.kind == 'item':
                rec = {'continues': [], 'breaks': [], 'node': node}
                fr.loops.append(rec)

                def one(b):
                    bind(seg.val, b)
                    body(b)
                    for c in rec['continues']:
                        b.assign(self.join_dead(b, c))
                self.branch(seg.guard, st, one, lambda b: None)
                fr.loops.pop()
                allbreaks.extend(rec['breaks'])
            else:
                self.loop_seg(seg, node, st, fr, bind, body, allbreaks, bool(orelse))
        if orelse and st.live is not FALSE:
            self.exec_block(orelse, st, fr)
        for b in allbreaks:
            st.assign(self.join_dead(st, b))

    def join_dead(self, a, b):
        """a and b live under disjoint guards: their union"""
        if a.live is FALSE:
            return b
        if b.live is FALSE:
            return a
        return self.merge(b.live, b, a)

    def active(self, src):
        return base_src(src) in self.loopsrc

    def fresh_elem(self, seg, st):
        """the segment seen through a representative element of its own"""
        srcs = seg.src
        m = {}
        for s in srcs:
            b = base_src(s)
            if b in self.loopsrc:
                n = len(self.loopsrc)
                m[b] = mk('again', b, n)
        if not m:
            return seg
        return seg.but(val=self.rename(seg.val, m, st), guard=self.rename(seg.guard, m, st),
                       src=tuple(self.rename(s, m, st) for s in srcs),
                       key=None if seg.key is None else self.rename(seg.key, m, st))

    def rename(self, v, m, st):
        def obj_of(l):
            if l.op == 'ref':
                o = self.obj(st, l.args[0])
                if any(s in o.fam for s in m):
                    p = o.info.get('path') or o.lazy
                    if p is not None and o.kind == 'inst':
                        return self.alias_obj(subst(p, m), [l.args[0]], st)
                    return self.alias_obj(mk('renamed', l, tuple(sorted(m.items(), key=lambda kv: kv[0].sk))), [l.args[0]], st) \
                        if o.kind == 'inst' else unk('renamed collection')
            if l.op == 'tuple':
                return mk('tuple', *[apply1(obj_of, subst(a, m)) for a in l.args])
            return l
        return apply1(obj_of, subst(v, m))

    def loop_seg(self, seg, node, st, fr, bind, body, allbreaks, hasorelse=False):
        if seg.kind != 'each':
            src = unk('elements of an unknown collection')
            seg = self.Seg('each', mk('elem', src), TRUE, (src,))
        seg = self.fresh_elem(seg, st)
        self.run_loop(tuple(seg.src), lambda b: bind(seg.val, b), node, st, fr, body, seg.guard, None, allbreaks, hasorelse)

    def x_While(self, s, st, fr):
        g0 = self.cond(s.test, st.fork(), fr)
        if g_and(st.live, g0) is FALSE:
            self.exec_block(s.orelse, st, fr)
            return
        self.unrolled_while(s, st, fr) or self.run_loop(None, lambda b: None, s, st, fr, lambda b: self.exec_block(s.body, b, fr), TRUE, s.test, None)
        self.exec_block(s.orelse, st, fr)

    def unrolled_while(self, s, st, fr):
        return False

    def assigned_names(self, node):
        out = set()
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) or not hasattr(node, 'body'):
            return out
        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
        return out

    def phi_value(self, p, protos, st):
        v = self.elem_value(p, protos, st)
        return v

    def run_loop(self, srcs, bind, node, st, fr, body, guard=TRUE, test=None, allbreaks=None, hasorelse=False):
        from .interp import Obj
        key = 'loop:%s:%s' % (fr.fid, getattr(node, 'lineno', 0))
        n = self.counter.get(key, 0)
        self.counter[key] = n + 1
        lid = '%s:%d#%d' % (fr.fid, getattr(node, 'lineno', 0), n)
        if srcs is None:
            srcs = (mk('while', lid),)
        bsrcs = bases(srcs)
        assigned = self.assigned_names(node)
        target = set()
        if isinstance(node, ast.For):
            target = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        env0 = st.envs[fr.fid]
        visible = {x: env0[x] for x in sorted(assigned - target) if x in env0}
        pre = st
        live0 = st.live
        envkinds = {x: 'val' for x in visible}   # val: plain value carried; same: expected to stay; ref: carried reference
        for x, v in visible.items():
            if any(l.op in ('ref', 'fn', 'class', 'module') for l in leaves(v)):
                envkinds[x] = 'same'
        refprotos = {}
        phis_h = {}
        hprotos = {}
        grow, terml = set(), {}
        outer_env = {}
        for attempt in range(9):
            b = pre.fork()
            counters = dict(self.counter)
            marks = (len(self.effects), len(self.raises), len(self.recs), len(self.breaks), len(self.dumps), len(self.rec_calls))
            oret = {f.fid: len(f.returns) for f in self.stack}
            ylen = {f.fid: None for f in self.stack}
            phis = {}
            for x, v in visible.items():
                if envkinds[x] == 'same':
                    continue
                p = mk('sym', 'phi(%s)@%s' % (x, lid))
                protos = list(leaves(v)) + refprotos.get(x, [])
                pv = self.phi_value(p, protos, b)
                phis[x] = (p, pv)
                b.envs[fr.fid][x] = pv
            hp = {}
            for (oid, fld) in phis_h:
                p = mk('sym', 'phi(%s.%s)@%s' % (oid, fld, lid))
                pv = self.phi_value(p, hprotos[(oid, fld)], b)
                hp[(oid, fld)] = (p, pv)
                self.mut(b, oid).fields[fld] = pv
            ep = {}
            for (fid, x) in outer_env:
                p = mk('sym', 'phi(%s/%s)@%s' % (fid.split(':', 1)[-1], x, lid))
                pv = self.phi_value(p, outer_env[(fid, x)], b)
                ep[(fid, x)] = (p, pv)
                b.envs[fid][x] = pv
            for oid in grow:
                self.mut(b, oid).segs = [self.Seg('carried', None, src=(mk('carried', oid),))]
            tp = {}
            for oid in terml:
                p = mk('sym', 'phi(%s[])@%s' % (oid, lid))
                tp[oid] = p
                o = self.mut(b, oid)
                # nothing is known to be in it yet: taken to be empty until an iteration adds something
                o.segs = self.term_segs(p, terml[oid], b, o.kind) if terml[oid] else []
            rec = {'continues': [], 'breaks': [], 'node': node, 'src': srcs}
            L = {'srcs': srcs, 'heap': dict(b.heap), 'reads': [], 'writes': [], 'lid': lid}
            outer_trace, Obj.trace = Obj.trace, set()
            outer_carried = getattr(self, 'carried_read', None)
            fr.loops.append(rec)
            self.loopsrc.extend(bsrcs)
            self.loopstack.append(L)
            self.carried_read = set()
            tguard = None
            try:
                b.live = g_and(live0, guard)
                if test is not None:
                    tguard = self.truth(self.eval(test, b, fr), b)
                    b.live = g_and(b.live, tguard)
                if b.live is not FALSE:
                    bind(b)
                    body(b)
                for c in rec['continues']:
                    b.assign(self.join_dead(b, c))
            finally:
                fr.loops.pop()
                self.loopstack.pop()
                del self.loopsrc[-len(bsrcs):]
                L['seen'], Obj.trace = Obj.trace, outer_trace
                if outer_trace is not None:
                    outer_trace |= L['seen']
                mine, self.carried_read = self.carried_read, outer_carried
                if outer_carried is not None:
                    outer_carried |= mine
            ends = [b] + rec['breaks']
            changed = False
            for e in ends:
                if e.live is FALSE:
                    continue
                for oid, o in e.heap.items():
                    o0 = pre.heap.get(oid) or self.base.get(oid)
                    if o0 is None:
                        self.registry[oid] = o
                    if o0 is None or o is o0 or o0.info.get('prior'):
                        continue
                    own = any(s in o.fam for s in bsrcs)
                    if own:
                        continue
                    for fname, v in o.fields.items():
                        v0 = o0.fields.get(fname)
                        if v0 is None:
                            v0 = self.lazy_field(o0, fname)
                        k = (oid, fname)
                        if k in hp:
                            if v is not hp[k][1]:
                                new = [l for l in leaves(v) if l not in hprotos[k] and l.op in ('ref', 'none', 'tuple')]
                                new = [l for l in new if not (l.op == 'ref' and self.obj(e, l.args[0]).info.get('prior'))]
                                if new and len(hprotos[k]) < 8:
                                    hprotos[k].extend(new)
                                    changed = True
                        elif v is not v0:
                            phis_h[k] = True
                            hprotos[k] = [l for l in leaves(v0) + leaves(v) if l is not UNDEF]
                            changed = True
                    if o._segs is not None:
                        same = [s.ident() for s in o._segs] == [s.ident() for s in (o0._segs or [])]
                        if oid in terml and not terml[oid]:
                            if o._segs:
                                terml[oid].extend(self.protos_of(o) or [mk('elem', tp[oid])])
                                changed = True
                        elif oid in terml:
                            new = [l for l in self.protos_of(o) if l not in terml[oid] and not self.mentions(l, tp[oid])]
                            if new and len(terml[oid]) < 8:
                                terml[oid].extend(new)
                                changed = True
                        elif oid in grow:
                            ok = o._segs and o._segs[0].kind == 'carried' and all(s.kind in ('item', 'each') for s in o._segs[1:])
                            if not ok or oid in mine:
                                grow.discard(oid)
                                terml[oid] = self.protos_of(o0)
                                changed = True
                        elif not same:
                            grow.add(oid)
                            changed = True
                for x, v in visible.items():
                    if envkinds[x] == 'same':
                        w = e.envs[fr.fid].get(x)
                        if w is not v:
                            envkinds[x] = 'ref'
                            refprotos[x] = [l for l in leaves(w if w is not None else UNDEF) if l is not UNDEF]
                            changed = True
                    elif x in phis:
                        w = e.envs[fr.fid].get(x, UNDEF)
                        if w is not phis[x][1]:
                            have = list(leaves(visible[x])) + refprotos.get(x, [])
                            new = [l for l in leaves(w) if l.op in ('ref', 'none', 'tuple') and l not in have]
                            new = [l for l in new if not (l.op == 'ref' and self.obj(e, l.args[0]).info.get('prior'))
                                   and not (l.op == 'tuple' and self.mentions(l, phis[x][0]))]
                            if any(l.ty == 'num' for l in leaves(w)) and all(l.ty == 'int' for l in have):
                                new = new + [l for l in leaves(w) if l.ty == 'num'][:1]
                            if new and len(have) < 10:
                                refprotos.setdefault(x, []).extend(new)
                                changed = True
                for fid, e2 in e.envs.items():
                    if fid == fr.fid or fid not in pre.envs:
                        continue
                    for x, w in e2.items():
                        v0 = pre.envs[fid].get(x)
                        if v0 is None or (fid, x) in ep:
                            continue
                        if w is not v0:
                            outer_env[(fid, x)] = [l for l in leaves(v0) + leaves(w) if l is not UNDEF]
                            changed = True
            if mine & grow:
                for oid in list(mine & grow):
                    grow.discard(oid)
                    o0 = pre.heap.get(oid) or self.base.get(oid)
                    pr = self.protos_of(o0)
                    for e in ends:
                        if oid in e.heap:
                            pr += [l for s in e.heap[oid]._segs[1:] if s.val is not None for l in leaves(s.val)]
                    terml[oid] = pr
                changed = True
            if not changed or attempt == 8:
                break
            self.counter = counters
            del self.effects[marks[0]:], self.raises[marks[1]:], self.recs[marks[2]:], self.breaks[marks[3]:], self.dumps[marks[4]:], self.rec_calls[marks[5]:]
            for f in self.stack:
                del f.returns[oret.get(f.fid, 0):]
        self.finish_loop(lid, srcs, bsrcs, st, fr, b, rec, L, phis, hp, ep, tp, grow, visible, envkinds, target, assigned, guard,
                         live0, node, oret, allbreaks, tguard, hasorelse, marks[1])

    def mentions(self, v, t):
        return any(x is t for x in subterms(v))

    def finish_loop(self, lid, srcs, bsrcs, st, fr, b, rec, L, phis, hp, ep, tp, grow, visible, envkinds, target, assigned, guard,
                    live0, node, oret, allbreaks, tguard, hasorelse, nraise):
        pre = st.fork()
        ends = [e for e in [b] + rec['breaks'] if e.live is not FALSE]
        breakg = g_or(*[e.live for e in rec['breaks']]) if rec['breaks'] else FALSE
        if breakg is not FALSE:
            breakg = under(live0, breakg)
        retg = FALSE
        for f in self.stack:
            for r in f.returns[oret.get(f.fid, 0):]:
                retg = g_or(retg, r[0])
        retg = under(live0, retg) if retg is not FALSE else FALSE
        leaving = g_or(breakg, retg)
        if leaving is not FALSE:
            self.breaks.append((srcs, leaving, node, fr.func))
        raiseg = FALSE
        for i in range(nraise, len(self.raises)):
            raiseg = g_or(raiseg, under(live0, self.raises[i][0]))
        D = LoopDef(lid)
        D.srcs, D.guard, D.test, D.leave, D.node, D.func = srcs, under(live0, guard), tguard, g_or(leaving, raiseg), node, fr.func
        for i in range(nraise, len(self.raises)):
            g, n, f = self.raises[i]
            self.raises[i] = (g_and(live0, var_guard(atom('LEAVES', lid, under(live0, g)))), n, f)
        if D.test is not None:
            D.test = under(live0, D.test)
        self.loops[lid] = D
        endst = None
        for e in ends:
            endst = e if endst is None else self.join_dead(endst, e)
        out = pre.fork()
        self.cur_out = out
        cover = TRUE
        if leaving is not FALSE:
            cover = var_guard(atom('COVER', lid))
        rb = FALSE if endst is None else under(live0, endst.live)
        exact = tguard is None

        def final(p, pv, init, val):
            """value after the loop of a carried variable"""
            val = self.gite(rb, val, pv)
            D.vars[p] = [init, val]
            if val is pv:
                return init
            r = self.classify(p, pv, init, val, srcs, exact, leaving) if D.ok(p) else None
            if r is None:
                ty = pv.ty if leaf(pv) else 'any'
                r = self.mu(lid, p, pv, [init, val], st)
            return r
        if endst is not None:
            env = out.envs[fr.fid]
            for x in sorted(assigned | target):
                v = endst.envs[fr.fid].get(x, UNDEF)
                if x in phis:
                    env[x] = final(phis[x][0], phis[x][1], visible[x], v)
                elif x in visible and envkinds.get(x) == 'same':
                    env[x] = visible[x]
                elif v is UNDEF:
                    pass
                elif any(l.op in ('fn', 'class', 'module') for l in leaves(v)):
                    env[x] = v
                else:
                    init = env.get(x, UNDEF)
                    p = mk('sym', 'phi(%s)@%s' % (x, lid))
                    D.vars[p] = [init, self.gite(rb, v, p)]
                    env[x] = self.mu(lid, p, None, [init, v], st)
            for (fid, x), (p, pv) in ep.items():
                out.envs[fid][x] = final(p, pv, pre.envs[fid][x], endst.envs[fid].get(x, UNDEF))
            for fid, e2 in endst.envs.items():
                if fid not in out.envs and fid != fr.fid:
                    out.envs[fid] = dict(e2)
            selfwrites = set()
            for oid, o in endst.heap.items():
                o0 = pre.heap.get(oid) or self.base.get(oid)
                if o is o0:
                    continue
                if o0 is None:
                    if not (o.info.get('alias') and o.kind == 'inst'):
                        out.heap[oid] = o
                    continue
                if o0.info.get('prior') and not any(s in o.fam for s in bsrcs):
                    out.heap[oid] = o0
                    continue
                if any(s in o.fam for s in bsrcs):
                    for n, v in o.fields.items():
                        v0 = o0.fields.get(n)
                        if v0 is None:
                            v0 = self.lazy_field(o0, n)
                        if v is not v0:
                            selfwrites.add((oid, n))
                    g = g_and(rb, cover, D.guard if D.guard is not TRUE else TRUE)
                    out.heap[oid] = o if g is TRUE else self.merge_obj(g, o, o0, endst, pre)
                    continue
                no = o0.copy()
                for n, v in o.fields.items():
                    v0 = o0.fields.get(n)
                    if v0 is None:
                        v0 = self.lazy_field(o0, n)
                    if (oid, n) in hp:
                        p, pv = hp[(oid, n)]
                        no.fields[n] = final(p, pv, v0, v)
                    else:
                        no.fields[n] = v if v is v0 else unk('changed in loop %s' % n)
                if o._segs is not None:
                    if oid in tp:
                        T = self.content(o)
                        p = tp[oid]
                        T0 = self.content(o0)
                        T = ite(rb, T, p) if isinstance(T, (Term, Node)) else T
                        if T is p:
                            no.segs = o0._segs
                        else:
                            D.vars[p] = [T0, T]
                            pr = self.protos_of(o0) + [l for l in self.protos_of(o) if not self.mentions(l, p)]
                            no.segs = self.term_segs(mk('mu', lid, p), pr, out, o.kind)
                    elif oid in grow:
                        no.segs = self.grown(o0, o, srcs, rb, cover)
                    else:
                        no.segs = o._segs
                out.heap[oid] = no
            # writes made to elements found by position
            reads = tuple(L['reads'])
            for oid, n, path, inner in L['reads']:
                if (oid, n) in selfwrites and oid in out.heap:
                    out.heap[oid] = out.heap[oid].copy()
                    out.heap[oid].fields[n] = unk('read and written through different elements')
            exts = [w for w in L['writes'] if w.get('kind') == 'ext']
            if exts:
                self.apply_growth(out, exts, (srcs, lid, cover), live0, L['seen'])
            for w in L['writes']:
                if w.get('kind') == 'ext':
                    continue
                self.apply_alias_write(out, w, (srcs, lid, cover), live0, tuple(r for r in reads if r[0] in w['oids'] and r[1] == w['name']))
        # returns inside the loop
        anyret = FALSE
        for f in self.stack:
            for r in f.returns[oret.get(f.fid, 0):]:
                g, v = under(live0, r[0]), r[1]
                ex = self.exists(srcs, g)
                r[1] = self.first_value(lid, srcs, g, v, st)
                r[0] = g_and(live0, ex) if self.one_return(f, oret) else g_and(live0, var_guard(atom('LEAVES', lid, g)))
                r[2] = out.fork(r[0])
                anyret = g_or(anyret, under(live0, r[0]))
        out.live = g_and(live0, g_not(anyret))
        if breakg is not FALSE and allbreaks is not None and hasorelse:
            ex = self.exists(srcs, breakg)
            bs = out.fork(g_and(out.live, ex))
            allbreaks.append(bs)
            out.live = g_and(out.live, g_not(ex))
        st.assign(out)

    def one_return(self, f, oret):
        return len(f.returns) - oret.get(f.fid, 0) == 1

    def mu(self, lid, p, pv, protos, st):
        ls = [l for v in protos for l in leaves(v) if not self.mentions(l, p)]
        return self.elem_value(mk('mu', lid, p), ls, st)

    def first_value(self, lid, srcs, g, v, st):
        if not self.varies(v, srcs, lid):
            return v

        def f(l):
            if l.op == 'ref':
                o = self.obj(st, l.args[0]) if (l.args[0] in st.heap or l.args[0] in self.base) else None
                if o is None:
                    return unk('object made in the loop')
                if o.kind == 'inst':
                    return self.alias_obj(mk('first', lid, g, l), [l.args[0]], st)
                return unk('collection returned from a loop')
            return self.elem_value(mk('first', lid, g, l), [l], st)
        return apply1(f, v)

    def varies(self, v, srcs, lid):
        ids = set(bases(srcs))
        for t in subterms(v):
            if t.op in ('elem', 'key') and t.args[0] in ids:
                return True
            if t.op == 'app' and t.args[0] == 'idx' and base_src(t.args[1]) in ids:
                return True
            if t.op == 'ref':
                o = self.base.get(t.args[0])
                if o is None or any(s in o.fam for s in ids):
                    return True
            if t.op == 'sym' and str(t.args[0]).startswith('phi(') and str(t.args[0]).endswith('@' + lid):
                return True
        return False

    def grown(self, o0, o, srcs, rb, cover):
        segs = list(o0.segs or [])
        for s in o.segs[1:]:
            g = g_and(rb, s.guard, cover)
            if s.kind == 'item':
                segs.append(self.Seg('each', s.val, g, tuple(srcs), s.key))
            else:
                segs.append(self.Seg('each', s.val, g, tuple(srcs) + tuple(s.src), s.key))
        if len(o.segs) > 2 and o.kind in ('list', 'inst'):
            # several items per iteration keep their interleaving
            inner = mk('lstv', 'list', tuple((s.kind, s.src or (), g_and(rb, s.guard), s.val, NONE) for s in o.segs[1:]))
            v = self.elem_value(mk('elem', inner), [l for s in o.segs[1:] for l in leaves(s.val)], self.cur_out)
            return list(o0.segs or []) + [self.Seg('each', v, cover, tuple(srcs) + (inner,))]
        return segs

    # ---------------------------------------------------------- recurrences
    def has_phi(self, x):
        return any(t.op == 'sym' and str(t.args[0]).startswith('phi(') for t in subterms(x))

    def classify(self, p, pv, init, val, srcs, exact, leaving):
        """the closed form of a simple recurrence, or None"""
        isb = isinstance(pv, Node)

        def has_this(x):
            return any(t is pt for t in subterms(x))
        pt = pv.var.args[0] if isb and pv.var.kind == 'TRUTH' else pv
        if not exact or leaving is not FALSE:
            return None
        if isb:
            if pv.var.kind != 'TRUTH':
                return None
            hi, lo = under(pv, val), under(g_not(pv), val)
            if any(l not in (TRUE, FALSE) for l in leaves(val)):
                return None
            if not self.has_phi(hi) and not self.has_phi(lo):
                if hi is TRUE:
                    return g_or(init, self.exists(srcs, lo))
                if lo is FALSE:
                    return g_and(init, g_not(self.exists(srcs, g_not(hi))))
            return None
        if not leaf(pv):
            return None
        if is_numeric(pv) and all(is_numeric(l) for l in leaves(val)):
            try:
                inc = apply2(psub, val, pv)
            except TooBig:
                return None
            if not self.has_phi(inc):
                return apply2(padd, init, self.sum_over(srcs, inc))
            return self.fold(pv, val, init, srcs)
        cs = cases(val)
        others = [(g, l) for g, l in cs if l is not pv]
        if len(others) == 1 and not self.has_phi(others[0][0]) and not self.has_phi(others[0][1]) \
                and not self.varies(others[0][1], srcs, '?'):
            g, l = others[0]
            return ite(self.exists(srcs, g), l, init)
        return None

    def fold(self, phi, val, init, srcs):
        kinds = set()
        res_t = None
        for g, l in cases(val):
            if l is phi:
                continue
            if self.has_phi(g):
                return None
            cands = []
            for t in subterms(l):
                if t.op == 'pos':
                    d = pd(t.args[0])
                    c = d.get(((phi, 1),))
                    if c in (1, -1):
                        rest = dict(d)
                        del rest[((phi, 1),)]
                        cands.append(_mkpoly({m: (-k if c == 1 else k) for m, k in rest.items()}))
            ok = False
            for t in cands:
                if self.has_phi(t):
                    continue
                if tmax(phi, t) is l:
                    kinds.add('max')
                    ok = True
                elif tmin(phi, t) is l:
                    kinds.add('min')
                    ok = True
                if ok:
                    res_t = ite(g, t, res_t if res_t is not None else (NEGINF if 'max' in kinds else POSINF))
                    break
            if not ok:
                return None
        if len(kinds) != 1 or res_t is None:
            return None
        k = kinds.pop()
        f = mk('fold', k, bases(srcs), res_t, ty='num')
        return apply1(lambda i: (tmax if k == 'max' else tmin)(i, f), init)


def ref(oid):
    return mk('ref', oid)


def _ok(self, p):
    return True


LoopDef.ok = _ok
