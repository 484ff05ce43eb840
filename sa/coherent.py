"""Well-formed inputs: objects whose fields depend on one another.

A Markov table has one entry for each step and its states are states of some
training material; the lists of the density transformer name steps at which
its current pattern has (or has not) an event.  Models of such objects are
built as a whole."""
from fractions import Fraction
F = Fraction

EVENTS = [('a',), ('b',), ('silence',), ('a', 'b')]


def attr(p, name, schema):
    return ('attr', p, name, schema)


def seq(m, kind, ty, path, depth, items):
    from .models import Ent
    e = Ent(m, kind, ty, path, depth)
    e.items = items
    return e


def inst(m, schema, path, depth, **fields):
    from .models import Ent
    e = Ent(m, 'inst', schema, path, depth)
    e.memo.update(fields)
    return e


def markov(m, e):
    p, S = e.path, e.schema
    d = e.depth
    steps = int(m.choose(attr(p, 'numSteps', S), [2, 3, 4]))
    order = int(m.choose(attr(p, 'order', S), [1, 1, 2]))
    e.memo['numSteps'], e.memo['order'] = F(steps), F(order)
    e.memo['loopDuration'] = m.choose(attr(p, 'loopDuration', S), [F(4), F(2), F(3), F(1)])
    runs = [[EVENTS[m.choose(attr(p, 'run', (r, i)), [0, 1, 2, 3])] for i in range(steps)] for r in range(m.choose(attr(p, 'runs', S), [1, 2, 2, 3]))]
    tp = attr(p, 'transitionTable', S)
    rows = []
    for i in range(steps):
        table = {}
        for r in runs:
            past = tuple(r[(i - k) % steps] for k in range(order, 0, -1))
            t = table.setdefault(past, {})
            t[r[i]] = t.get(r[i], 0) + 1
        rp = ('elem', tp, i)
        row = []
        for j, (past, t) in enumerate(table.items()):
            n = sum(t.values())
            row.append((past, seq(m, 'dict', 'dict num', ('elem', rp, j), d + 3, [(k, F(v, n)) for k, v in t.items()])))
        rows.append((None, seq(m, 'dict', 'dict dict num', rp, d + 2, row)))
    e.memo['transitionTable'] = seq(m, 'list', 'list dict dict num', tp, d + 1, rows)


def density(m, e):
    p, S, d = e.path, e.schema, e.depth
    tags = m.choose(attr(p, 'tags', S), [['a'], ['a', 'b'], ['b', 'a']])
    n = m.choose(attr(p, 'numSteps', S), [3, 4, 6])
    e.memo['numSteps'] = F(n)
    e.memo['mode'] = m.choose(attr(p, 'mode', S), ['random', 'hysteresis'])
    e.memo['originDuration'] = m.choose(attr(p, 'originDuration', S), [F(4), F(2), F(8)])
    cur, orig, now = [], [], []

    def table(name, vals):
        e.memo[name] = seq(m, 'dict', 'dict num', attr(p, name, S), d + 1, [(t, vals(t)) for t in tags])

    sp = attr(p, 'currentState', S)
    count = {}
    for j, t in enumerate(tags):
        lists = {'notes': [], 'silences': [], 'addedNotes': [], 'removedNotes': []}
        level = m.choose(attr(p, 'level', t), ['less', 'more', 'same'])
        for i in range(n):
            note = m.choose(attr(p, 'note', (t, i)), [True, False]) if i else True
            moved = i > 0 and m.choose(attr(p, 'moved', (t, i)), [True, False])
            if note and level == 'less' and moved:
                lists['silences'].append(i)
                lists['removedNotes'].append(i)
            elif not note and level == 'more' and moved:
                lists['notes'].append(i)
                lists['addedNotes'].append(i)
            else:
                lists['notes' if note else 'silences'].append(i)
            if note:
                orig.append((t, i))
        if level == 'less' and not lists['removedNotes'] and False:
            pass
        count[t] = sum(1 for x, _ in orig if x == t)
        tp = ('elem', sp, j)
        its = []
        for q, (name, l) in enumerate(sorted(lists.items())):
            if m.choose(attr(p, 'turned', (t, name)), [True, False]):
                l = list(reversed(l))
            its.append((name, seq(m, 'list', 'list int', ('elem', tp, q), d + 3, [(None, F(i)) for i in l])))
        cur.append((t, seq(m, 'dict', 'dict list int', tp, d + 2, its)))
        now += [(t, i) for i in lists['notes']]
    e.memo['currentState'] = seq(m, 'dict', 'dict dict list int', sp, d + 1, cur)

    def pattern(name, where):
        pp = attr(p, name, S)
        ep = attr(pp, 'events', 'Pattern')
        evs = []
        if m.choose(attr(p, 'turned', name), [True, False]):
            where = sorted(where, key=lambda x: x[1])
        for k, (t, i) in enumerate(where):
            evs.append((None, inst(m, 'Event', ('elem', ep, k), d + 3, startTime=F(i), duration=F(1), tag=t)))
        return inst(m, 'Pattern', pp, d + 1, events=seq(m, 'list', 'list Event', ep, d + 2, evs), duration=F(n))
    e.memo['currentPattern'] = pattern('currentPattern', now)
    e.memo['originPattern'] = pattern('originPattern', orig)
    table('originDensities', lambda t: F(count[t]))
    table('targetDensities', lambda t: F(count[t]))
    table('normalizedDensities', lambda t: m.choose(attr(p, 'normal', t), [F(1), F(1, 2), F(3, 2), F(1, 4), F(7, 4)]))


def database(m, e):
    p, S = e.path, e.schema
    e.memo['generatePatternOrdering'] = m.choose(attr(p, 'generatePatternOrdering', S), ['indexed', 'increasing', 'random', 'increasing'])
    e.memo['patternList'] = l = m.make('list Pattern', attr(p, 'patternList', S), e.depth + 1)
    n = len(m.items(l))
    e.memo['currentIdx'] = F(m.choose(attr(p, 'currentIdx', S), list(range(n)) or [0]))


def track(m, e):
    """notes that are switched on and off again, among other events"""
    p, d = e.path, e.depth
    if m.choose(p + ('wild',), [0, 1, 2, 3]) == 0:
        return None
    rel = m.field(e, 'tick_relative')
    notes = m.choose(p + ('notes',), [[(0, 60), (1, 60)], [(0, 60), (9, 36)], [(0, 60)], [(0, 60), (0, 64)], [(1, 48), (2, 48)], [(9, 36), (9, 38)]])
    n = m.choose(p + ('n',), [2, 4, 5, 6, 0, 1, 3])
    out, now = [], F(0)

    def data(i, ep, sch, xs):
        dp = ('attr', ep, 'data', sch)
        return seq(m, 'list', 'nlist %d byte' % len(xs) if xs else 'nlist 0 byte', dp, d + 2, [(None, F(x)) for x in xs])
    for i in range(n):
        ep = ('elem', p, i)
        what = m.choose(ep + ('what',), ['on', 'off', 'on', 'off0', 'on', 'off', 'other'])
        dt = m.choose(ep + ('dt',), [F(0), F(96), F(24), F(48), F(120), F(200)])
        now += dt
        tick = dt if rel else now
        c, q = notes[m.choose(ep + ('note',), range(len(notes)))]
        if what in ('on', 'off0'):
            vel = 0 if what == 'off0' else m.choose(ep + ('vel',), [100, 64, 1, 127])
            x = inst(m, 'MNoteOn', ep, d + 1, tick=tick, channel=F(c), data=data(i, ep, 'MNoteOn', [q, vel]))
        elif what == 'off':
            x = inst(m, 'MNoteOff', ep, d + 1, tick=tick, channel=F(c), data=data(i, ep, 'MNoteOff', [q, m.choose(ep + ('vel',), [0, 64])]))
        else:
            k = m.choose(ep + ('kind',), ['MTempo', 'MTimeSig', 'MTrackName', 'MEot', 'MControl'])
            if k == 'MTempo':
                b = m.choose(ep + ('bytes',), [[7, 161, 32], [9, 39, 192], [4, 147, 224]])
            elif k == 'MTimeSig':
                b = m.choose(ep + ('bytes',), [[3, 2, 24, 8], [6, 3, 24, 8], [5, 2, 24, 8]])
            elif k == 'MControl':
                b = [7, 100]
            elif k == 'MTrackName':
                b = None
            else:
                b = []
            x = inst(m, k, ep, d + 1, tick=tick)
            if k == 'MControl':
                x.memo['channel'] = F(c)
            if b is not None:
                x.memo['data'] = data(i, ep, k, b)
        out.append((None, x))
    return out


def track1(m, e):
    """two notes on, one off: on the same pitch more often than not"""
    p, d = e.path, e.depth
    if m.choose(p + ('wild',), [0, 1, 2, 3]) == 0:
        return None
    rel = m.field(e, 'tick_relative')
    out, now = [], F(0)
    for i, k in enumerate(['MTrackName', 'MNoteOn', 'MNoteOn', 'MNoteOff', 'MEot']):
        ep = ('elem', p, i)
        dt = m.choose(ep + ('dt',), [F(96), F(24), F(48), F(0)]) if i else F(0)
        now += dt
        x = inst(m, k, ep, d + 1, tick=dt if rel else now)
        if k[:5] == 'MNote':
            x.memo['channel'] = F(m.choose(ep + ('channel',), [0, 1, 0, 9]))
            b = [m.choose(ep + ('pitch',), [60, 60, 36, 38, 60]), m.choose(ep + ('vel',), [100, 64, 127]) if k == 'MNoteOn' else 0]
            x.memo['data'] = seq(m, 'list', 'nlist 2 byte', ('attr', ep, 'data', k), d + 2, [(None, F(v)) for v in b])
        out.append((None, x))
    return out


COHERENT_ITEMS = {'MTrack': track, 'MTrack1': track1}
def file1(m, e):
    e.memo['resolution'] = m.choose(attr(e.path, 'resolution', e.schema), [F(96), F(48), F(24)])


COHERENT = {'MFile1': file1, 'PatternMarkov': markov, 'AgnosticDensity': density, 'DatabaseStyle': database}
