"""How much of each function is determined:  python3 tools/strength.py [PROP...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import runner
from sa.obligations import OBLIGATIONS
props = [a for a in sys.argv[1:]] or [p for p in OBLIGATIONS if p not in ('C08', 'C09', 'C22', 'C24')]
seen, jobs = set(), []
for p in props:
    for o in OBLIGATIONS[p]:
        if (o.name, o.aspects) not in seen:
            seen.add((o.name, o.aspects)); jobs.append((p, o))
res = runner.run_all([o for _, o in jobs], 40, 0, 90)
rows = []
for (p, o), r in zip(jobs, res):
    for k in r['cases']:
        t = max(1, sum(k.get(x, 0) for x in ("agree","partial","unknown","bottom"))); a, q = 40.*k.get("agree", 0)/t, 40.*k.get("partial", 0)/t
        rows.append((a / 40., q / 40., p, r['function'] if not o.text else o.name, k.get('case'), k.get('why'), k.get('note'), r['seconds'] if 'seconds' in r else 0, k['verdict']))
rows.sort(key=lambda r: (r[0], r[1]))
full = 0
for r in rows:
    if r[0] > .95:
        full += 1
        continue
    print('%.2f +%.2f %s %s %s | %s %s %.1fs%s' % (r[0], r[1], r[2], r[3], r[4], r[5], r[6] or '', r[7], ' REFUTED' if r[8] == 'refuted' else ''))
print(full, 'of', len(rows), 'fully determined')
