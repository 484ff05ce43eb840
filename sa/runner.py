"""Runs the obligations of one property, in parallel."""
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time

from .prog import Program, AnalysisError, REPO
from .summary import summarise, sig_cases
from .compare import compare, describe, always
from . import terms
from .terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')

_state = {}
SIZE = terms.LIMIT


MEMORY = 3 << 30
BUDGET = 700       # seconds for all functions of one property


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def programs():
    if 'spec' not in _state:
        sys.setrecursionlimit(20000)
        signal.signal(signal.SIGALRM, _alarm)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        _state['spec'], _state['code'] = Program(SPEC), Program(REPO)
        _state['sf'] = index(_state['spec'])
        _state['cf'] = index(_state['code'])
    return _state


def index(p):
    out = {}
    for f in p.functions():
        out[f.qual] = f        # the later of two definitions is the one in force
    return out


def one(job):
    """one obligation -> a plain dictionary"""
    ob, n, base, limit = job
    S = programs()
    terms.LIMIT = ob.terms or SIZE
    r = dict(qual=ob.name, function=ob.qual, cases=[], aspects=list(ob.aspects))
    t0 = time.time()
    if ob.law:
        return law(ob, n, base, limit, S, r, t0)
    if ob.text:
        fa, fb = probe(S['spec'], ob.text), probe(S['code'], ob.text)
    else:
        fa = S['sf'].get(ob.qual)
        fb = S['cf'].get(ob.qual)
    if fa is None:
        r['verdict'] = 'error'
        r['note'] = 'the reference has no %s' % ob.qual
        return r
    if fb is None:
        if ob.optional:
            r['verdict'] = 'absent'
            r['note'] = 'private helper not found; judged through its callers'
            return r
        r['verdict'] = 'missing'
        r['note'] = '%s is gone' % ob.qual
        return r
    r['where'] = subject(fb, S['cf']) if ob.text else fb.where
    cases = ob.cases or sig_cases(S['spec'], fa)
    if ob.optional and params(fa) != params(fb):
        r['verdict'] = 'absent'
        r['note'] = 'private helper with another signature; judged through its callers'
        return r
    for c in cases:
        k = dict(case={x: str(y) for x, y in c.items()})
        r['cases'].append(k)
        signal.alarm(limit)
        try:
            sa = summarise(S['spec'], fa, c, intercept=ob.intercept)
            sb = summarise(S['code'], fb, c, intercept=ob.intercept)
            k['atoms'] = size(sb)
            k['loops'] = len(sb.I.loops)
            res = compare(sa, sb, n, domains=ob.domains, ignore=ob.ignore, effects='effects' in ob.aspects, aspects=ob.aspects,
                          norm=ob.norm, sizes=ob.sizes, base=base)
            k.update(agree=res.agree, partial=res.partial, unknown=res.unknown, bottom=res.bottom,
                     why=dict(sorted(res.why.items(), key=lambda kv: -kv[1])[:3]))
            if res.diff:
                d = res.diff
                k['diff'] = dict(aspect=d.aspect, where=d.where, want=short(d.want), got=short(d.got), seed=d.seed, inputs=d.inputs(),
                                 constructs=constructs(sb, fb, d))
                k['verdict'] = 'refuted'
            elif res.agree + res.partial == 0:
                k['verdict'] = 'undetermined'
            else:
                k['verdict'] = 'agrees'
        except Timeout:
            k['verdict'] = 'undetermined'
            k['note'] = 'time limit'
        except RecursionError:
            k['verdict'] = 'undetermined'
            k['note'] = 'terms too deep'
        except MemoryError:
            k['verdict'] = 'undetermined'
            k['note'] = 'terms too large'
        except AnalysisError as x:
            k['verdict'] = 'undetermined'
            k['note'] = 'not analysable: %s' % x
        except Exception as x:
            k['verdict'] = 'undetermined'
            k['note'] = 'analysis stopped: %s %s' % (type(x).__name__, str(x)[:120])
        finally:
            signal.alarm(0)
        if k['verdict'] == 'refuted':
            break
    vs = [k['verdict'] for k in r['cases']]
    r['verdict'] = 'refuted' if 'refuted' in vs else ('undetermined' if 'undetermined' in vs else 'agrees')
    r['seconds'] = round(time.time() - t0, 2)
    return r


def probe(prog, text):
    """a function over the public interface, seen inside the given program"""
    import ast
    from .prog import Module, Func
    tree = ast.parse(text)
    m = Module('probe', os.path.join(prog.repo, 'gsapi', 'probe'), tree, text)
    m.rel = 'probe'
    for k in prog.modules:
        m.globals[k] = ('mod', k)
    return Func(m, tree.body[0])


def subject(f, funcs):
    """the function of the library a scenario is mainly about: the first it calls"""
    import ast
    names = [x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)]
    for n in names:
        for q, g in sorted(funcs.items()):
            if q.split('.')[-1] == n or q.endswith('.%s.__init__' % n):
                return g.where
    return f.where


def law(ob, n, base, limit, S, r, t0):
    """a statement over the public interface that is true for all inputs:
    the summary of the whole statement must be true in every model"""
    k = dict(case={x: str(y) for x, y in (ob.cases or [{}])[0].items()})
    r['cases'].append(k)
    r['where'] = ''
    for q in ob.anchors:
        f = S['cf'].get(q)
        if f is None:
            r['verdict'] = 'missing'
            r['note'] = '%s is gone' % q
            return r
        r['where'] = r['where'] or f.where
    signal.alarm(limit)
    try:
        f = probe(S['code'], ob.text)
        s = summarise(S['code'], f, ob.cases[0], intercept=ob.intercept)
        k['atoms'], k['loops'] = size(s), len(s.I.loops)
        res = always(s, n, ob.domains, ob.sizes, base)
        k.update(agree=res.agree, partial=0, unknown=res.unknown, bottom=res.bottom, why=dict(sorted(res.why.items(), key=lambda kv: -kv[1])[:3]))
        k['verdict'] = 'refuted' if res.diff else ('agrees' if res.agree else 'undetermined')
        if res.diff:
            d = res.diff
            k['diff'] = dict(aspect=ob.name, where=ob.name, want='the law holds', got=short(d.got), seed=d.seed, inputs=d.inputs(),
                             constructs=[S['cf'][q].where for q in ob.anchors])
    except Timeout:
        k['verdict'], k['note'] = 'undetermined', 'time limit'
    except RecursionError:
        k['verdict'], k['note'] = 'undetermined', 'terms too deep'
    except MemoryError:
        k['verdict'], k['note'] = 'undetermined', 'terms too large'
    except AnalysisError as x:
        k['verdict'], k['note'] = 'undetermined', 'not analysable: %s' % x
    except Exception as x:
        k['verdict'], k['note'] = 'undetermined', 'analysis stopped: %s %s' % (type(x).__name__, str(x)[:120])
    finally:
        signal.alarm(0)
    r['verdict'] = k['verdict']
    r['seconds'] = round(time.time() - t0, 2)
    return r


def params(f):
    return [a.arg for a in f.node.args.args]


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def size(s):
    try:
        return len(list(subterms(s.value)))
    except Exception:
        return 0


def constructs(s, f, d):
    """the statements of the code that produce the differing part"""
    out = []
    if d.aspect == 'changes':
        name = d.where.split('.')[-1].split('[')[0].split('{')[0]
        for e in s.I.effects:
            if e.name == name and e.where not in out:
                out.append(e.where)
    if not out:
        import ast
        if d.aspect == 'outcome':
            kinds = (ast.Raise, ast.Assert)
        else:
            kinds = (ast.Return, ast.Yield)
        for x in ast.walk(f.node):
            if isinstance(x, kinds):
                out.append('%s:%d' % (f.module.rel, x.lineno))
    return out[:6] or [f.where]


def run_all(obs, n, base, limit, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 2)
    work = [(o, o.n or n, base, limit) for o in obs]
    _state['work'] = work
    programs()
    if jobs == 1:
        return [one(w) for w in work]
    ctx = multiprocessing.get_context('fork')
    out = [None] * len(work)
    t0 = time.time()
    todo, running = list(range(len(work))), {}
    while todo or running:
        while todo and len(running) < jobs and time.time() - t0 < BUDGET:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(work[i], b))
            p.start()
            b.close()
            running[a] = (i, p, time.time())
        if not running:
            break
        late = []
        for a in multiprocessing.connection.wait(list(running), 1):
            i, p, _ = running.pop(a)
            try:
                out[i] = a.recv()
            except (EOFError, OSError):
                out[i] = unanswered(work[i][0], 'the analysis ended early')
            a.close()
            p.join()
        for a, (i, p, t) in list(running.items()):
            cases = len(work[i][0].cases or ()) or 4
            if time.time() - t > limit * cases + 30 or time.time() - t0 > BUDGET + 20:
                p.kill()
                p.join()
                out[i] = unanswered(work[i][0], 'time limit')
                del running[a]
    return [r or unanswered(work[i][0], 'no time left') for i, r in enumerate(out)]


def unanswered(o, note):
    return dict(qual=o.name, function=o.qual, verdict='undetermined', aspects=list(o.aspects),
                cases=[dict(case={}, verdict='undetermined', note=note)])


def _child(job, conn):
    try:
        r = one(job)
    except BaseException as x:
        r = unanswered(job[0], 'analysis stopped: %s' % type(x).__name__)
    conn.send(r)
    conn.close()
    os._exit(0)
