"""Writes MANIFEST.json from the table below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.obligations import OBLIGATIONS
from sa.passes import PASSES, TECHNIQUE

NA = {
    'C26': 'a statement about frequencies over unboundedly many random draws; no static argument in reach bounds a distribution, and sampling it would be a runtime test',
    'C27': 'perceptual and numerical: which root a scoring of real-valued densities prefers is not decidable from the shape of the code; the parts that are (profiles, scoring rule, tables) are under C15 and C16',
    'C28': 'statistical, and the module depends on an array library that is absent here, so neither its values nor its types can be resolved; its name and call errors are under C21',
}
REF = 'value-flow summaries of the current source (abstract interpretation to guarded terms, loops as recurrences) compared with reference semantics'
NOTE = ('Static: the source is never executed. A violation is reported only on positive evidence, i.e. a finite model of the derived terms in which the '
        'summary of the code and that of the reference (or the law) differ; parts the summary leaves undetermined are counted in the evidence and not '
        'reported. Trusted: the analyser in /verif/sa, the reference package /verif/spec, exact numbers instead of floats, input kinds of sa/sigs.py.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    t = [TECHNIQUE[i]] if i in TECHNIQUE else []
    if i in OBLIGATIONS:
        t.append(REF)
    if not t:
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 -m sa.check %s' % i, 'thorough_cmd': 'python3 -m sa.check %s --thorough' % i,
                   'technique': '; '.join(t), 'level': 'other', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 -m sa.selfcheck', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
