"""Command line of the checks:  python3 -m sa.check C01 [--thorough]"""
import json
import os
import sys
import time

from .prog import AnalysisError, Program, REPO
from . import runner
from .obligations import OBLIGATIONS

HERE = runner.HERE
TITLE = {}


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                d = dict(x.split('=', 1) for x in line[9:].split(' ') if '=' in x and x.split('=')[0] in ('property', 'rule', 'construct'))
                d['text'] = line[9:]
                out.append(d)
    return out


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # dict(rule, construct, where, message, ...)
        self.errors = []
        self.coverage = {}

    def violation(self, rule, construct, where, message, **kw):
        d = dict(rule=rule, construct=construct, where=where, message=message)
        d.update(kw)
        self.violations.append(d)


def reference(rep, prop, tier):
    obs = OBLIGATIONS.get(prop)
    if not obs:
        return
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = 60 if tier == 'quick' else 600
    limit = 90 if tier == 'quick' else 600
    res = runner.run_all(obs, n, 0 if tier == 'quick' else 1000 * (seed - 1), limit)
    ver = {}
    models = 0
    weak = []
    for r in res:
        ver[r['verdict']] = ver.get(r['verdict'], 0) + 1
        for k in r['cases']:
            models += k.get('agree', 0) + k.get('partial', 0)
            if 'agree' in k and k['agree'] + k['partial'] < n or 'note' in k:
                weak.append(dict(function=r['function'], case=k['case'], agree=k.get('agree'), partial=k.get('partial'), why=k.get('why'), note=k.get('note')))
            if k.get('verdict') == 'refuted':
                d = k['diff']
                rep.violation('reference-semantics', r['qual'] + ':' + d['aspect'], r['where'],
                              '%s: %s differs from the reference meaning: expected %s, the code gives %s' % (r['function'], d['where'], d['want'], d['got']),
                              inputs=d['inputs'], constructs=d['constructs'], case=k['case'], model=d['seed'])
        if r['verdict'] == 'missing':
            rep.errors.append(r['note'])
        if r['verdict'] == 'error':
            rep.errors.append(r['note'])
    rep.coverage['reference_semantics'] = dict(
        functions=len(res), verdicts=ver, parameter_cases=sum(len(r['cases']) for r in res),
        term_models_compared=models, loops_summarised=sum(k.get('loops', 0) for r in res for k in r['cases']),
        summary_terms=sum(k.get('atoms', 0) for r in res for k in r['cases']),
        weak=weak[:40], analysed=[r['function'] for r in res])


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    rep = Report(prop)
    try:
        from . import passes
        passes.run(rep, prop, tier)
        reference(rep, prop, tier)
    except AnalysisError as x:
        rep.errors.append(str(x))
    known = [k for k in known_findings() if k.get('property') == prop]
    new = []
    for v in rep.violations:
        hit = [k for k in known if k.get('rule') == v['rule'] and k.get('construct') == v['construct']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['text']))
        else:
            new.append(v)
    write_evidence(rep, prop, tier, time.time() - t0, new)
    for v in new:
        print('%s [%s] %s: %s' % (v['where'], v['rule'], v['construct'], v['message']))
        if v.get('inputs'):
            print('    shown by inputs: %s' % json.dumps(v['inputs'], default=str)[:1500])
        if v.get('constructs'):
            print('    statements: %s' % ', '.join(v['constructs']))
    if new:
        p = os.path.join(HERE, 'replay', '%s.json' % prop)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            json.dump(dict(property=prop, violations=new, command='python3 -m sa.check %s' % prop), fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if rep.errors:
        for e in rep.errors:
            print('ERROR: ' + e)
        return 2
    print('%s: held (%s)' % (prop, json.dumps({k: (v if not isinstance(v, dict) else {a: b for a, b in v.items() if not isinstance(b, list)})
                                             for k, v in rep.coverage.items() if k != 'explanation'}, default=str)[:1000]))
    return 0


def write_evidence(rep, prop, tier, wall, new):
    cov = dict(rep.coverage)
    cov['explanation'] = explanation(rep)
    cov['source'] = REPO
    d = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov, wall_s=round(wall, 2),
             assumptions=['numbers are exact (no rounding of floats)', 'parameters and fields have the kinds listed in sa/sigs.py'],
             violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as fh:
        json.dump(d, fh, indent=1, default=str)


def explanation(rep):
    out = []
    r = rep.coverage.get('reference_semantics')
    if r:
        out.append('%d functions of the current source were summarised by value-flow analysis (%d parameter cases, %d loops) and their summaries '
                   'compared with those of the reference package on %d finite term models; verdicts %s.' %
                   (r['functions'], r['parameter_cases'], r['loops_summarised'], r['term_models_compared'], r['verdicts']))
    for k, v in rep.coverage.items():
        if isinstance(v, dict) and 'rule' in v:
            out.append('%s: %s (%s)' % (k, v['rule'], ', '.join('%s %s' % (a, b) for a, b in v.items() if isinstance(b, int))))
    return ' '.join(out) or 'nothing analysed'


if __name__ == '__main__':
    sys.exit(main())
