"""What a term's value depends on: the loop elements and the loop-carried
variables that occur free in it.  Used to share evaluations: two moments that
agree on those give the term the same value.  Over-approximates."""
from .terms import Term, Node
from .loops import base_src

UNKNOWN = 1


class Depends(object):
    """of(term): a bit set of loop elements and loop-carried variables"""

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.bits = {}
        self.names = [None]
        self.loopdeps = {lid: 0 for lid in I.loops}
        for k in range(12):
            self.memo, self.oiddeps, self.atoms = {}, {}, {}
            new = {}
            for lid, D in I.loops.items():
                r = self.srcs(D.srcs) | self.of(D.guard) | self.of(D.leave)
                if D.test is not None:
                    r |= self.of(D.test)
                own = 0
                for p, (init, step) in D.vars.items():
                    r |= self.of(init) | self.of(step)
                    own |= self.bit(p.args[0])
                new[lid] = r & ~own & ~self.basebits(D.srcs)
            if new == self.loopdeps:
                break
            self.loopdeps = new
        else:
            self.loopdeps = {lid: UNKNOWN for lid in I.loops}
            self.memo, self.oiddeps, self.atoms = {}, {}, {}
        self.sets = {}

    def bit(self, x):
        b = self.bits.get(x)
        if b is None:
            b = self.bits[x] = 1 << len(self.names)
            self.names.append(x)
        return b

    def basebits(self, srcs):
        r = 0
        for s in srcs:
            r |= self.bit(base_src(s))
        return r

    def split(self, mask):
        """(bases, variables) of a bit set, or None when it is not known"""
        if mask in self.sets:
            return self.sets[mask]
        if mask & UNKNOWN:
            r = None
        else:
            b, p, i, m = [], [], 0, mask
            while m:
                if m & 1:
                    (p if isinstance(self.names[i], str) else b).append(self.names[i])
                m >>= 1
                i += 1
            r = (tuple(b), tuple(p))
        self.sets[mask] = r
        return r

    def srcs(self, srcs):
        r = 0
        for s in srcs:
            r |= self.of(s)
        return r

    def loop(self, lid):
        return self.loopdeps.get(lid, UNKNOWN)

    def of(self, t):
        k = id(t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.of1(t)
        return r

    def any(self, a):
        if isinstance(a, (Term, Node)):
            return self.of(a)
        if isinstance(a, tuple):
            r = 0
            for x in a:
                r |= self.any(x)
            return r
        return 0

    def of1(self, t):
        if isinstance(t, Node):
            return self.atom(t.var) | self.of(t.hi) | self.of(t.lo)
        op, a = t.op, t.args
        if op in ('const', 'none', 'true', 'false', 'undef', 'unk', 'neginf', 'posinf'):
            return 0
        if op == 'sym':
            n = a[0]
            if isinstance(n, str) and n.startswith('phi('):
                lid = n.rsplit('@', 1)[1]
                D = self.I.loops.get(lid)
                if D is None:
                    return UNKNOWN
                return self.loop(lid) | self.basebits(D.srcs) | self.bit(n)
            return 0
        if op == 'poly':
            r = 0
            for m, c in a:
                for x, e in m:
                    r |= self.of(x)
            return r
        if op in ('elem', 'key'):
            return self.bit(a[0]) | self.of(a[0])
        if op == 'app' and a[0] == 'idx':
            return self.bit(base_src(a[1])) | self.of(a[1])
        if op in ('sum', 'fold', 'argm'):
            i = 0 if op == 'sum' else 1
            return self.srcs(a[i]) | (self.any(a[i + 1:]) & ~self.basebits(a[i]))
        if op in ('lstv', 'frozen'):
            out = 0
            for sg in a[1]:
                k, src, g, v, key = sg.args if isinstance(sg, Term) else sg
                src = src or ()
                out |= self.srcs(src) | (self.any((g, v, key)) & ~self.basebits(src))
            return out
        if op in ('while', 'mu'):
            return self.loop(a[0])
        if op == 'first':
            return self.loop(a[0]) | self.any(a[1:])
        if op == 'ref':
            return self.oid(a[0])
        if op == 'upd':
            srcs = a[2]
            r = 0
            for i, x in enumerate(a):
                if i not in (2, 6):
                    r |= self.any(x)
            if srcs:
                r |= self.srcs(srcs[0]) | self.loop(srcs[1]) | self.any(srcs[2])
            return r
        if op == 'cupd':
            r = self.any(a[0]) | self.any(a[1])
            for g, path, val in a[3]:
                r |= self.any((g, path, val))
            if a[2]:
                r |= self.srcs(a[2][0]) | self.loop(a[2][1]) | self.any(a[2][2])
            return r
        return self.any(a)

    def oid(self, oid):
        if oid in self.oiddeps:
            return self.oiddeps[oid]
        self.oiddeps[oid] = 0
        try:
            o = self.I.obj(self.st, oid)
        except Exception:
            return UNKNOWN
        p = o.info.get('path')
        if p is not None:
            r = self.of(p)
        elif o.lazy is not None and not o.origin.startswith('fresh'):
            r = self.of(o.lazy)
        else:
            r = 0
            for b in o.fam:
                r |= self.bit(b)
        self.oiddeps[oid] = r
        return r

    def atom(self, at):
        r = self.atoms.get(at.idx)
        if r is not None:
            return r
        if at.kind == 'COVER':
            D = self.I.loops.get(at.args[0])
            r = UNKNOWN if D is None else self.loop(at.args[0]) | self.basebits(D.srcs)
        elif at.kind == 'LEAVES':
            r = self.loop(at.args[0]) | self.any(at.args[1])
        else:
            r = self.any(at.args)
        self.atoms[at.idx] = r
        return r
