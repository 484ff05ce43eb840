"""Passes over the syntax trees and the resolved program.

Each pass decides its rule on the current source alone; where a rule has
documented exceptions they are read off the reference package (the same rule
run there), so that what is exempt is a named construct and never a form."""
import ast
import os

from .flow import Flow, loc
from .names import (Types, bad_calls, bad_formats, locals_of, missing_attributes, own_nodes, param_names, stores, text, unbound, undefined)
from .prog import AnalysisError, Class, Func, Module, Program, REPO
from . import seeds, tables
from .runner import SPEC

_cache = {}


def programs():
    if not _cache:
        _cache['spec'], _cache['code'] = Program(SPEC), Program(REPO)
        _cache['quals'] = {f.qual for f in _cache['spec'].functions()}
    return _cache['spec'], _cache['code'], _cache['quals']


def types(prog):
    k = id(prog)
    if k not in _cache:
        _cache[k] = Types(prog, _cache['quals'])
    return _cache[k]


def run(rep, prop, tier):
    for f in PASSES.get(prop, []):
        f(rep)


def by_qual(prog):
    out = {}
    for f in prog.functions():
        out[f.qual] = f
    return out


# ------------------------------------------------------------------- C21
def c21(rep):
    spec, code, quals = programs()
    T = types(code)
    S = types(spec)
    exempt = {(m.name, n.id) for m, f, n in undefined(spec)[0]}
    r, c1 = undefined(code)
    for m, f, n in r:
        if (m.name, n.id) not in exempt:
            rep.violation('undefined-name', '%s:%s' % (m.name, n.id), '%s:%d' % (m.rel, n.lineno), 'the name %s is bound nowhere' % n.id)
    exempt = {(f.qual, n.id) for f, n in unbound(spec)[0]}
    r, c2 = unbound(code)
    for f, n in r:
        if (f.qual, n.id) not in exempt:
            rep.violation('unbound-local', '%s:%s' % (f.qual, n.id), loc(n, f), 'a path through %s reads %s before it is bound' % (f.qual, n.id))
    counts = [c1, c2]
    for rule, fn in (('missing-attribute', missing_attributes), ('bad-call', bad_calls), ('bad-format', bad_formats)):
        exempt = {(f.qual, text(n)) for f, n, w in fn(spec, S)[0]}
        r, c = fn(code, T)
        counts.append(c)
        for f, n, w in r:
            if (f.qual, text(n)) not in exempt:
                rep.violation(rule, '%s:%s' % (f.qual, text(n)[:60]), loc(n, f), '%s: %s' % (text(n)[:80], w))
    if counts[0] < 3000 or counts[1] < 2000 or counts[3] < 150:
        raise AnalysisError('too little was analysed: %s' % counts)
    rep.coverage['names'] = dict(rule='every name, local on each feasible path, attribute of a known type, argument list of a resolved call and format exists and fits',
                                 names_resolved=counts[0], local_reads_on_paths=counts[1], attributes=counts[2], calls=counts[3], formats=counts[4],
                                 functions=len(code.functions()))


# ------------------------------------------------------------------- C19
def c19(rep):
    spec, code, quals = programs()
    A = seeds.Analysis(code, quals)
    es = A.run()
    want = {f.qual for f in seeds.Analysis(spec, quals).entries()}
    have = {f.qual for f in es}
    fs = by_qual(code)
    for q in sorted(want - have):
        if q not in fs:
            raise AnalysisError('%s is gone' % q)
        if 'seed' not in param_names(fs[q]):
            raise AnalysisError('%s has no seed any more' % q)
    for d in A.found.values():
        rep.violation('unseeded-draw', '%s:%s' % (d.func.qual, text(d.node)[:60]), loc(d.node, d.func), '%s %s' % (text(d.node), d.why))
    roots = [f for f in A.funcs if f.cls is not None and any(e.cls.qual == f.cls.qual for e in es) and not f.name.startswith('_')
             and (f.name.startswith(('generate', 'build')) or f.name == 'formatPattern')]
    mods = {e.module.name for e in es}
    R = [f for f in A.reachable(roots) if f.module.name in mods or f.name.startswith('_')]
    count = 0
    exempt = set()
    B = seeds.Analysis(spec, quals)
    for f in B.funcs:
        for n, w in seeds.unordered_uses(f, B.T, B)[0]:
            exempt.add((f.qual, text(n)))
    for f in R:
        u, c = seeds.unordered_uses(f, A.T, A)
        count += c
        for n, w in u:
            if (f.qual, text(n)) not in exempt:
                rep.violation('set-order', '%s:%s' % (f.qual, text(n)[:60]), loc(n, f), 'the set %s is %s in generating or training code' % (text(n)[:60], w))
    if not A.count and not want - have:
        raise AnalysisError('no random choice found')
    rep.coverage['seeded_draws'] = dict(rule='on every path from a function taking a seed, each random draw comes after its generator was seeded with a value made from that seed '
                                        '(paths with seed None excepted); no order of a set becomes the order of something a choice depends on',
                                        entries=len(es), draw_sites=len(A.sites), draws_on_paths=A.count, functions_for_set_order=len(R), sets=count,
                                        entry_points=sorted(have))


# ------------------------------------------------------------------- C22
class Ends(Flow):
    def __init__(self):
        Flow.__init__(self)
        self.eqs = True

    def fall(self, st, ss):
        return ss

    def assume(self, test, truth, s):
        from .names import fact_of, consistent
        fk = fact_of(test)
        if fk is None:
            return s
        key, v = fk[0], fk[1] == truth
        if not consistent(s, key, v):
            return None
        return s | {(key, v)}

    def store(self, t, v, s):
        from .names import words
        n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
        return frozenset(k for k in s if n is None or n not in words(k[0][1]))

    def limit(self, ss):
        return [frozenset()]


def answers(f):
    """(ends with a value on some path, ends without one on some path)"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node.body)):
        return True, None
    w = Ends()
    w.run(f.node.body, [frozenset()])
    some = none = None
    for s, r in w.returns:
        if r is not None and r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None):
            some = r
        else:
            none = r or f.node
    return some is not None, none


PURE_METHODS = ('copy copyWithoutEvents getPatternWithTags getPatternWithPitch getPatternWithoutTags getFilledWithSilences patternFromTimeSlice activeEventsAtTime '
                'getStartingEventsAtTime endTime lastNoteOff getAllTags getAllPitches splitInEqualLengthPatterns toJSONDict hasOneOfTags hasCommonTagWith '
                'allTagsAreEqualWith isTag containsTime cutInSteps getIdenticalEvents getInternalState isBuilt getLastEvents getAllPossibleStates '
                'getMarkovConfig getFeatureSpace getDescriptorForPattern').split()
PURE_STR = 'strip lstrip rstrip replace split lower upper join format startswith endswith encode decode index count'.split()
PURE_BUILTIN = 'sorted reversed len list tuple dict set str int float min max sum abs round zip enumerate range isinstance bool repr'.split()


def c22(rep):
    spec, code, quals = programs()
    a, b = by_qual(spec), by_qual(code)
    n = 0
    for q, f in sorted(b.items()):
        if q not in a:
            continue
        s0, n0 = answers(a[q])
        s1, n1 = answers(f)
        n += 1
        if s0 and not n0 and n1 is not None and n1 is not False and s1:
            rep.violation('silent-path', q, loc(n1, f), '%s ends without an answer on a path through here and answers on others' % q)
        elif s0 and not n0 and not s1 and n1 is not None:
            rep.violation('silent-path', q, f.where, '%s never answers' % q)
    if n < 200:
        raise AnalysisError('only %d functions are there' % n)
    discarded = 0
    T = types(code)
    for f in code.functions():
        for st in own_nodes(f.node.body):
            if not isinstance(st, ast.Expr):
                continue
            e = st.value
            if isinstance(e, (ast.Compare, ast.BinOp)) or isinstance(e, ast.ListComp) and pure_expr(e):
                rep.violation('discarded-answer', '%s:%s' % (f.qual, text(e)[:60]), loc(st, f), 'the value of %s is thrown away' % text(e)[:80]) if worth(e) else None
            if not isinstance(e, ast.Call):
                continue
            discarded += 1
            what = None
            if isinstance(e.func, ast.Name) and e.func.id in PURE_BUILTIN and e.func.id not in locals_of(f) and T.name(f, e.func.id) is None:
                what = e.func.id
                if not all(pure_expr(x) for x in e.args) or not e.args:
                    what = None
            elif isinstance(e.func, ast.Attribute):
                t = T.expr(f, e.func.value)
                if t and t[0] == 'inst' and e.func.attr in PURE_METHODS and t[1].lookup(e.func.attr):
                    what = e.func.attr
                elif t and t[0] == 'bt' and t[1] == 'str' and e.func.attr in PURE_STR:
                    what = e.func.attr
                elif t is None and e.func.attr in ('getFilledWithSilences', 'getPatternWithTags', 'getPatternWithoutTags', 'copyWithoutEvents', 'patternFromTimeSlice', 'lastNoteOff'):
                    what = e.func.attr
            if what:
                rep.violation('discarded-answer', '%s:%s' % (f.qual, text(e)[:60]), loc(st, f), 'the answer of %s is thrown away' % text(e)[:80])
    rep.coverage['answers'] = dict(rule='a function that answers on every path (as in the reference package) has no path that ends without an answer; '
                                   'no answer of a function without effect is dropped', functions_with_all_paths_followed=n, call_statements=discarded)


def pure_expr(e):
    return not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in PURE_BUILTIN) for x in ast.walk(e))


def worth(e):
    return pure_expr(e) and any(isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(e))


# ------------------------------------------------------------------- C23
def mode_of(prog, f, call):
    m = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'mode'), None)
    if m is None:
        return 'r'
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return m.value
    if isinstance(m, ast.Name):
        vs = [n.value for n in own_nodes(f.node.body) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == m.id for t in n.targets)]
        if len(vs) == 1 and isinstance(vs[0], ast.Constant):
            return vs[0].value
        try:
            return tables.glob(prog, f.module, m.id) if not vs and m.id not in locals_of(f) else None
        except tables.NotConstant:
            return None
    return None


def opens(prog, f, T, wrappers=()):
    for n in own_nodes(f.node.body):
        if isinstance(n, ast.Call):
            t = text(n.func)
            if t in ('open', 'io.open', 'codecs.open', 'file') and not (t in ('open', 'file') and T.name(f, t) is not None):
                yield n
            elif wrappers:
                x = T.expr(f, n.func)
                if x and x[0] in ('func', 'method') and x[1] is not None and x[1].qual in wrappers:
                    yield n


def c23(rep):
    spec, code, quals = programs()
    T = types(code)
    fs = code.functions()
    wrappers = {}
    for f in fs:      # functions that hand over an open file
        for n in opens(code, f, T):
            for st in own_nodes(f.node.body):
                if isinstance(st, ast.Return) and st.value is n:
                    wrappers[f.qual] = (f, n)
                if isinstance(st, ast.Assign) and st.value is n and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    nm = st.targets[0].id
                    if any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == nm for r in own_nodes(f.node.body)):
                        wrappers[f.qual] = (f, n)
    count = 0
    for f in fs:
        nodes = list(own_nodes(f.node.body))
        parent = {id(c): n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
        for call in opens(code, f, T, set(wrappers)):
            if f.qual in wrappers and wrappers[f.qual][1] is call:
                continue
            count += 1
            p = parent.get(id(call))
            if isinstance(p, ast.Call) and text(p.func) in ('closing', 'contextlib.closing'):
                call_, p = p, parent.get(id(p))
            else:
                call_ = call
            var, ok = None, False
            if isinstance(p, ast.withitem):
                ok = True
                if isinstance(p.optional_vars, ast.Name):
                    var = p.optional_vars.id
            elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                var = p.targets[0].id
                for t in nodes:
                    if isinstance(t, ast.Try) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'close' and text(x.func.value) == var
                                                      for s in t.finalbody for x in ast.walk(s)):
                        ok = True
                    if isinstance(t, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == var or
                                                       isinstance(i.context_expr, ast.Call) and any(isinstance(a, ast.Name) and a.id == var for a in i.context_expr.args)
                                                       for i in t.items):
                        ok = True
            elif isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'enter_context':
                ok = True
            if not ok:
                rep.violation('file-not-closed', '%s:%s' % (f.qual, text(call)[:60]), loc(call, f), 'the file opened by %s is not closed when an exception ends %s' % (text(call)[:60], f.qual))
            mode = mode_of(code, f, call) if text(call.func) in ('open', 'io.open', 'codecs.open', 'file') else mode_of(code, *wrappers[next(
                q for q in wrappers if T.expr(f, call.func)[1].qual == q)])
            if mode is None or var is None:
                continue
            use, binary = uses(f, var, T)
            if f.module.name == 'midiio':
                binary = True
            if 'w' in use and not mode.startswith('w'):
                rep.violation('file-mode', '%s:%s' % (f.qual, text(call)[:60]), loc(call, f), 'what is written needs mode w, it is opened with %r' % mode)
            if use == {'r'} and not mode.startswith('r') or use == {'r'} and '+' in mode:
                rep.violation('file-mode', '%s:%s' % (f.qual, text(call)[:60]), loc(call, f), 'the file is only read but opened with %r' % mode)
            if use and binary and 'b' not in mode:
                rep.violation('file-mode', '%s:%s' % (f.qual, text(call)[:60]), loc(call, f), 'binary content is handled in mode %r' % mode)
    if count < 8:
        raise AnalysisError('only %d places open a file' % count)
    # the folder is made before the file
    good = {q for q, (n, bad) in folders(spec).items() if n and not bad and makes(by_qual(spec)[q])}
    r = folders(code)
    have = by_qual(code)
    k = 0
    for q in sorted(good):
        if q not in have:
            if q.split('.')[-1].startswith('_'):
                continue
            raise AnalysisError('%s is gone' % q)
        k += 1
        n, bad = r[q]
        for g, node in bad:
            rep.violation('folder-first', '%s:%s' % (q, text(node)[:60]), loc(node, g), '%s opens a file for writing on a path on which the folder was neither found nor made' % q)
    rep.coverage['files'] = dict(rule='each opened file is a with item or closed in a finally, its mode fits what is done with it, and saving functions have made or found the folder before they open the file',
                                 open_sites=count, saving_functions=k)


def makes(f):
    return True


def uses(f, var, T):
    out, binary = set(), False
    for n in own_nodes(f.node.body):
        if not isinstance(n, ast.Call):
            continue
        argnames = [a.id for a in n.args if isinstance(a, ast.Name)] + [k.value.id for k in n.keywords if isinstance(k.value, ast.Name)]
        fn = text(n.func)
        last = fn.split('.')[-1]
        if isinstance(n.func, ast.Attribute) and text(n.func.value) == var:
            if last in ('write', 'writelines'):
                out.add('w')
            elif last in ('read', 'readline', 'readlines'):
                out.add('r')
        elif var in argnames:
            if last in ('dump', 'save', 'write', 'write_midifile'):
                out.add('w')
            elif last in ('load', 'read', 'read_midifile'):
                out.add('r')
            x = T.expr(f, n.func)
            if 'pickle' in fn.lower() or x and x[0] == 'ext' and 'ickle' in x[1]:
                binary = True
    return out, binary


class Folder(Flow):
    """state: 'unknown'; 'asked' once its existence was asked for, the answer not being followed (in a name, in a helper); 'there'"""

    def __init__(self, prog, T, f, stack, bad, seen):
        Flow.__init__(self)
        self.prog, self.T, self.f, self.stack, self.bad, self.seen = prog, T, f, stack, bad, seen

    def expr(self, e, s):
        ss = {s}
        for c in seeds.calls(e):
            ss = {y for x in ss for y in self.called(c, x)}
        return ss

    def called(self, c, s):
        n = text(c.func).split('.')[-1]
        if n in ('makedirs', 'mkdir', 'mkpath'):
            return ['there']
        if n in ('exists', 'isdir', 'access', 'lexists'):
            return ['asked' if s == 'unknown' else s]
        if n in ('open', 'file') and not (isinstance(c.func, ast.Name) and self.T.name(self.f, c.func.id)):
            m = mode_of(self.prog, self.f, c)
            if m and m[0] in 'wax':
                self.seen.append(c)
                if s == 'unknown':
                    self.bad.append((self.f, c))
            return [s]
        t = self.T.expr(self.f, c.func)
        g = t[1] if t and t[0] in ('func', 'method') else None
        if g is not None and not isinstance(g.node, ast.Lambda) and g.qual not in self.stack and relevant(self.prog, self.T, g):
            w = Folder(self.prog, self.T, self.T.func_of_node.get(id(g.node), g), self.stack + (g.qual,), self.bad, self.seen)
            w.run(g.node.body, [s])
            return {x for x, _ in w.returns} or {s}
        return [s]

    def assume(self, test, truth, s):
        if isinstance(test, ast.Call) and text(test.func).split('.')[-1] in ('exists', 'isdir'):
            return 'there' if truth else 'unknown' if s == 'asked' else s
        return s

    def attempt(self, st, ss):
        if any(isinstance(x, ast.Call) and text(x.func).split('.')[-1] in ('makedirs', 'mkdir') for b in st.body for x in ast.walk(b)) and st.handlers:
            ss = {'there'}
        return Flow.attempt(self, st, ss)


def relevant(prog, T, g, depth=0, busy=()):
    k = ('rel', id(prog), id(g.node))
    if k in _cache:
        return _cache[k]
    r = False
    for n in own_nodes(g.node.body):
        if isinstance(n, ast.Call):
            if text(n.func).split('.')[-1] in ('makedirs', 'mkdir', 'mkpath', 'open', 'exists', 'isdir', 'access', 'lexists'):
                r = True
                break
            t = T.expr(g, n.func)
            h = t[1] if t and t[0] in ('func', 'method') else None
            if h is not None and not isinstance(h.node, ast.Lambda) and h.qual not in busy and depth < 6 and relevant(prog, T, h, depth + 1, busy + (h.qual,)):
                r = True
                break
    _cache[k] = r
    return r


def folders(prog):
    T = types(prog)
    out = {}
    for f in prog.functions():
        if f.outer is not None or not any(p in ('folderPath', 'path') for p in param_names(f)) or not relevant(prog, T, f):
            out[f.qual] = (0, [])
            continue
        bad, seen = [], []
        w = Folder(prog, T, f, (f.qual,), bad, seen)
        w.run(f.node.body, ['unknown'])
        out[f.qual] = (len(seen), bad)
    return out


# ------------------------------------------------------------------- C24
class Reads(Flow):
    """states: the parameters that still hold what was passed"""

    def __init__(self, f):
        Flow.__init__(self)
        self.read = set()

    def expr(self, e, s):
        from .names import loads
        self.read |= {n.id for n in loads(e)} & s
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                self.read |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} & s
        return [s]

    def store(self, t, v, s):
        if isinstance(v, ast.FunctionDef):
            self.read |= {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & s
        if isinstance(v, ast.ClassDef):
            self.read |= {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & s
        return s - {t.id} if isinstance(t, ast.Name) else s


def unread(f):
    ps = set(param_names(f)) - {'self', 'cls'}
    w = Reads(f)
    w.run(f.node.body, [frozenset(ps)])
    return ps - w.read


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def c24(rep):
    spec, code, quals = programs()
    a, b = by_qual(spec), by_qual(code)
    n = 0
    for q, f in sorted(b.items()):
        if stub(f) or q not in a:
            continue
        un = unread(f)
        un0 = unread(a[q])
        for p in param_names(f):
            if p in ('self', 'cls'):
                continue
            n += 1
            if p in un and p not in un0 and p in param_names(a[q]):
                rep.violation('option-unused', '%s(%s)' % (q, p), f.where, 'what is passed as %s to %s is never looked at' % (p, q))
        if not f.name.startswith('_') or f.name == '__init__':
            for p in param_names(a[q]):
                if p not in param_names(f) and p not in un0:
                    rep.violation('option-gone', '%s(%s)' % (q, p), f.where, '%s does not accept %s any more' % (q, p))
    if n < 250:
        raise AnalysisError('only %d parameters found' % n)
    rep.coverage['options'] = dict(rule='each parameter of a function is read on some path before it is overwritten', parameters=n)


# ------------------------------------------------------------------- C18
def c18(rep):
    spec, code, quals = programs()
    m = code.modules.get('gsstyles')
    base = m.globals.get('BaseStyle') if m else None
    if not isinstance(base, Class):
        raise AnalysisError('gsstyles.BaseStyle is gone')
    n = 0
    for c in types(code).classes:
        if base not in c.mro() or c is base:
            continue
        for name, g in c.methods.items():
            h = base.methods.get(name)
            if h is None or name == '__init__' or name.startswith('<'):
                continue
            n += 1
            pb, pc = param_names(h), param_names(g)
            rb = len(pb) - len(h.node.args.defaults)
            rc = len(pc) - len(g.node.args.defaults)
            where = '%s:%d' % (g.module.rel, g.node.lineno)
            if rc > rb:
                rep.violation('style-interface', '%s.%s' % (c.qual, name), where, 'asks for more than %s(%s)' % (name, ', '.join(pb)))
            elif not g.node.args.vararg and len(pc) < len(pb):
                rep.violation('style-interface', '%s.%s' % (c.qual, name), where, 'takes fewer parameters than %s(%s)' % (name, ', '.join(pb)))
            else:
                for i, p in enumerate(pb[rb:], rb):
                    if p not in pc and not g.node.args.kwarg:
                        rep.violation('style-interface', '%s.%s' % (c.qual, name), where, 'has no parameter %s' % p)
        missing = [x for x in ('generateStyle', 'generatePattern', 'getInternalState', 'setInternalState', 'isBuilt') if (c.lookup(x) or (0, base))[1] is base]
        n += 5
        spec_c = next((x for x in types(spec).classes if x.qual == c.qual), None)
        if spec_c is not None:
            sb = spec.modules['gsstyles'].globals['BaseStyle']
            for x in missing:
                if (spec_c.lookup(x) or (0, sb))[1] is not sb:
                    rep.violation('style-interface', '%s.%s' % (c.qual, x), '%s:%d' % (m.rel, c.node.lineno), '%s has no %s of its own' % (c.qual, x))
    if n < 15:
        raise AnalysisError('only %d operations of styles found' % n)
    rep.coverage['style_interface'] = dict(rule='operations of the common style interface have the same required number of parameters and the same options in every style', operations=n)


# ------------------------------------------------------------------- C09
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem', '__setitem__', '__delitem__'}


def container(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and text(e.func) in ('list', 'dict', 'set', 'collections.OrderedDict', 'OrderedDict', 'collections.defaultdict', 'defaultdict', 'bytearray')


def mutations(f, is_it):
    """statements of a function that change (in place) an expression"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and is_it(t.value):
                    yield n
                elif isinstance(n, ast.AugAssign) and is_it(t):
                    yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_it(n.func.value):
            yield n


def shared_state(prog):
    """[(construct, where, message)] places that modify state shared by all objects or calls"""
    out, count = [], 0
    for f in prog.functions():
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not container(d):
                continue
            count += 1
            if p in stores(f.node.body) and not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p for n in own_nodes(f.node.body)):
                continue
            for n in mutations(f, lambda e: isinstance(e, ast.Name) and e.id == p):
                out.append(('%s(%s)' % (f.qual, p), loc(n, f), 'the default value of %s is modified' % p))
            for n in own_nodes(f.node.body):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p and any(isinstance(t, ast.Attribute) for t in n.targets):
                    out.append(('%s(%s)' % (f.qual, p), loc(n, f), 'the default value of %s becomes part of every object' % p))
    T = types(prog)
    for c in T.classes:
        for name, v in c.attrs.items():
            if not (isinstance(v, tuple) and v[0] == 'expr' and container(v[1])):
                continue
            count += 1
            group = [c] + T.subs.get(c.qual, [])
            own = {g.qual for g in group}
            rebound = False
            muts = []
            for f in prog.functions():
                if f.cls is None:
                    continue
                if f.cls.qual in own:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name and text(t.value) == 'self' for t in n.targets) and f.name == '__init__':
                            rebound = True
                    muts += [(f, n) for n in mutations(f, lambda e: isinstance(e, ast.Attribute) and e.attr == name and text(e.value) in ('self', 'cls', c.name, 'self.__class__'))]
                else:
                    muts += [(f, n) for n in mutations(f, lambda e: isinstance(e, ast.Attribute) and e.attr == name and text(e.value) in (c.name,))]
            if rebound:
                muts = [(f, n) for f, n in muts if 'self.%s' % name not in text(n)]
            for f, n in muts:
                out.append(('%s.%s' % (c.qual, name), loc(n, f), 'the container %s of the class %s is modified' % (name, c.name)))
    for m in prog.modules.values():
        for name, b in m.globals.items():
            if not (isinstance(b, tuple) and b[0] == 'expr' and container(b[1])):
                continue
            count += 1
            for f in prog.functions():
                def is_it(e):
                    if isinstance(e, ast.Name) and e.id == name and name not in locals_of(f):
                        r = prog.resolve_name(f.module, name)
                        return isinstance(r, tuple) and len(r) > 2 and r[0] == 'global' and r[1] is m
                    return isinstance(e, ast.Attribute) and e.attr == name and prog.resolve_expr(f.module, e.value) is m
                for n in mutations(f, is_it):
                    g = f.outer
                    shadow = False
                    while g is not None:
                        shadow = shadow or name in locals_of(g)
                        g = g.outer
                    if not shadow:
                        out.append(('%s.%s' % (m.name, name), loc(n, f), 'the table %s of module %s is modified' % (name, m.name)))
    return out, count


def c09(rep):
    spec, code, quals = programs()
    exempt = {k for k, _, _ in shared_state(spec)[0]}
    r, n = shared_state(code)
    for k, w, msg in r:
        if k not in exempt:
            rep.violation('shared-state', k, w, msg)
    if n < 10:
        raise AnalysisError('only %d shared containers found' % n)
    rep.coverage['shared_state'] = dict(rule='no default value, class container or module table is modified or adopted by code (registries named in the reference excepted)', containers=n,
                                        exempt=sorted(exempt))


def c05(rep):
    spec, code, quals = programs()
    tables.midi_classes(rep, code, spec)


def c16(rep):
    spec, code, quals = programs()
    tables.music_tables(rep, code, spec)


PASSES = {'C05': [c05], 'C09': [c09], 'C16': [c16], 'C18': [c18], 'C19': [c19], 'C21': [c21], 'C22': [c22], 'C23': [c23], 'C24': [c24]}
TECHNIQUE = {
    'C05': 'constant folding of the message class tables against the MIDI standard',
    'C09': 'escape and mutation rules for default values, class containers and module tables',
    'C16': 'constant folding of the music tables with consistency rules between them',
    'C18': 'signature conformance of the style classes',
    'C19': 'interprocedural path analysis of seeding before random draws, and set-order rules',
    'C21': 'name resolution, definite assignment on feasible paths, attribute and call checking on inferred types',
    'C22': 'path analysis of returns, and discarded results of calls without effect',
    'C23': 'typestate rules for files (with/finally, mode against use) and path analysis of folder creation before opening',
    'C24': 'liveness of parameters',
}
