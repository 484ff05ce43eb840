"""Constant tables, folded from their source expressions (C05, C16)."""
import ast

from .prog import AnalysisError, Class, Func


class NotConstant(Exception):
    pass


def fold(prog, m, e, env=None, depth=0):
    """the value of a constant expression"""
    env = env or {}
    if depth > 60:
        raise NotConstant(ast.unparse(e))

    def ev(x, en=None):
        return fold(prog, m, x, env if en is None else en, depth + 1)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        return glob(prog, m, e.id, depth)
    if isinstance(e, ast.Attribute):
        b = prog.resolve_expr(m, e.value)
        from .prog import Module
        if isinstance(b, Module):
            return glob(prog, b, e.attr, depth)
        raise NotConstant(ast.unparse(e))
    if isinstance(e, ast.List):
        return [ev(x) for x in e.elts]
    if isinstance(e, ast.Tuple):
        return tuple(ev(x) for x in e.elts)
    if isinstance(e, ast.Set):
        return {ev(x) for x in e.elts}
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(ev(v))
            else:
                out[ev(k)] = ev(v)
        return out
    if isinstance(e, ast.UnaryOp):
        v = ev(e.operand)
        return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Not: lambda: not v, ast.Invert: lambda: ~v}[type(e.op)]()
    if isinstance(e, ast.BinOp):
        a, b = ev(e.left), ev(e.right)
        ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b, ast.FloorDiv: lambda: a // b,
               ast.Div: lambda: a / b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b,
               ast.BitXor: lambda: a ^ b, ast.Pow: lambda: a ** b}
        return ops[type(e.op)]()
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = ev(e.left), ev(e.comparators[0])
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                ast.GtE: lambda: a >= b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}[type(e.ops[0])]()
    if isinstance(e, ast.IfExp):
        return ev(e.body) if ev(e.test) else ev(e.orelse)
    if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
        return ev(e.value)[ev(e.slice)]
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        out = []

        def go(i, en):
            if i == len(e.generators):
                out.append((ev(e.key, en), ev(e.value, en)) if isinstance(e, ast.DictComp) else ev(e.elt, en))
                return
            g = e.generators[i]
            for x in ev(g.iter, en):
                n = dict(en)
                bind(g.target, x, n)
                if all(ev(c, n) for c in g.ifs):
                    go(i + 1, n)
        go(0, dict(env))
        return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func)
        args = [ev(x) for x in e.args]
        if n == 'dict':
            d = dict(*args)
            for k in e.keywords:
                if k.arg is None:
                    d.update(ev(k.value))
                else:
                    d[k.arg] = ev(k.value)
            return d
        if not e.keywords and n in ('list', 'tuple', 'set', 'frozenset', 'range', 'len', 'str', 'int', 'sorted', 'zip', 'enumerate', 'min', 'max', 'sum', 'xrange', 'float', 'abs'):
            r = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'range': range, 'xrange': range, 'len': len, 'str': str, 'int': int, 'sorted': sorted,
                 'zip': zip, 'enumerate': enumerate, 'min': min, 'max': max, 'sum': sum, 'float': float, 'abs': abs}[n](*args)
            return list(r) if n in ('zip', 'enumerate', 'range', 'xrange') else r
        if isinstance(e.func, ast.Attribute) and not e.keywords and e.func.attr in ('items', 'keys', 'values', 'lower', 'upper', 'split', 'strip', 'join', 'replace', 'copy'):
            r = getattr(ev(e.func.value), e.func.attr)(*args)
            return list(r) if e.func.attr in ('items', 'keys', 'values') else r
    raise NotConstant(ast.unparse(e)[:80])


def bind(t, x, env):
    if isinstance(t, ast.Name):
        env[t.id] = x
    else:
        for a, b in zip(t.elts, x):
            bind(a, b, env)


def glob(prog, m, name, depth=0):
    r = prog.resolve_name(m, name)
    if isinstance(r, tuple) and r[0] == 'global' and r[3][0] == 'expr':
        return fold(prog, r[1], r[3][1], None, depth + 1)
    if isinstance(r, tuple) and r[0] == 'global' and r[3][0] == 'unpack':
        return fold(prog, r[1], r[3][1], None, depth + 1)[r[3][2]]
    raise NotConstant(name)


def where(m, name):
    for n in m.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in ts):
                return '%s:%d' % (m.rel, n.lineno), n
    return m.rel, None


def touched(m, name):
    """is the table changed by other statements of its module?"""
    k = 0
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                    return True
                if isinstance(t, ast.Name) and t.id == name:
                    k += 1
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                and n.func.attr in ('update', 'append', 'extend', 'pop', 'setdefault', 'insert', 'remove', 'clear'):
            return True
    return k > 1


# ------------------------------------------------------------------ C05
#        class                       status  meta   data bytes ('*' any number)
STANDARD = {
    'NoteOffEvent':              (0x80, None, 2),
    'NoteOnEvent':               (0x90, None, 2),
    'AfterTouchEvent':           (0xA0, None, 2),
    'ControlChangeEvent':        (0xB0, None, 2),
    'ProgramChangeEvent':        (0xC0, None, 1),
    'ChannelAfterTouchEvent':    (0xD0, None, 1),
    'PitchWheelEvent':           (0xE0, None, 2),
    'SysexEvent':                (0xF0, None, '*'),
    'SequenceNumberMetaEvent':   (0xFF, 0x00, 2),
    'TextMetaEvent':             (0xFF, 0x01, '*'),
    'CopyrightMetaEvent':        (0xFF, 0x02, '*'),
    'TrackNameEvent':            (0xFF, 0x03, '*'),
    'InstrumentNameEvent':       (0xFF, 0x04, '*'),
    'LyricsEvent':               (0xFF, 0x05, '*'),
    'MarkerEvent':               (0xFF, 0x06, '*'),
    'CuePointEvent':             (0xFF, 0x07, '*'),
    'ProgramNameEvent':          (0xFF, 0x08, '*'),
    'ChannelPrefixEvent':        (0xFF, 0x20, 1),
    'PortEvent':                 (0xFF, 0x21, 1),
    'EndOfTrackEvent':           (0xFF, 0x2F, 0),
    'SetTempoEvent':             (0xFF, 0x51, 3),
    'SmpteOffsetEvent':          (0xFF, 0x54, 5),
    'TimeSignatureEvent':        (0xFF, 0x58, 4),
    'KeySignatureEvent':         (0xFF, 0x59, 2),
    'SequencerSpecificEvent':    (0xFF, 0x7F, '*'),
    'UnknownMetaEvent':          (0xFF, None, '*'),
}


def midi_classes(rep, prog, spec):
    m = prog.modules.get('midiio')
    if m is None:
        raise AnalysisError('module midiio is gone')
    n = facts = 0
    statuses, metas = {}, {}
    base = spec.modules['midiio'].globals
    for name, (st, meta, length) in sorted(STANDARD.items()):
        c = m.globals.get(name)
        if not isinstance(c, Class):
            if isinstance(base.get(name), Class):
                raise AnalysisError('midiio.%s is gone' % name)
            continue
        n += 1

        def value(attr, default=None):
            r = c.lookup(attr)
            if r is None or r[0] != 'attr' or r[2][0] != 'expr':
                return default
            try:
                return fold(prog, r[1].module, r[2][1])
            except NotConstant:
                return NotConstant
        got = value('statusmsg')
        where_ = '%s:%d' % (m.rel, c.node.lineno)
        facts += 1
        if got is not NotConstant and got != st:
            rep.violation('midi-standard', 'midiio.%s.statusmsg' % name, where_, 'the status byte is %s, the standard has 0x%02X' % (got, st))
        if st == 0xFF and name != 'UnknownMetaEvent':
            facts += 1
            got = value('metacommand')
            if got is not NotConstant and got != meta and not (meta == 0 and got is None):
                rep.violation('midi-standard', 'midiio.%s.metacommand' % name, where_, 'the meta number is %s, the standard has 0x%02X' % (got, meta))
            metas.setdefault(got, []).append(name)
        elif st != 0xFF:
            statuses.setdefault(got, []).append(name)
        facts += 1
        got = value('length')
        if got is not NotConstant:
            if length == '*':
                ok = not isinstance(got, int) or got == 0
            else:
                ok = got == length
            if not ok:
                rep.violation('midi-standard', 'midiio.%s.length' % name, where_, 'the number of data bytes is %r, the standard has %s' % (got, length))
    for kind, d in (('status byte', statuses), ('meta number', metas)):
        for k, names in d.items():
            facts += 1
            if len(names) > 1 and k is not NotConstant and k is not None:
                rep.violation('midi-standard', 'midiio.' + '+'.join(sorted(names)), m.rel, 'the same %s %s' % (kind, k))
    if n < 20:
        raise AnalysisError('only %d of the MIDI message classes are there' % n)
    rep.coverage['midi_standard'] = dict(rule='status bytes, meta numbers and data lengths of the message classes, folded from the class bodies, are those of the MIDI standard', classes=n, facts=facts)


# ------------------------------------------------------------------ C16
NATURAL = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
LINE = {'C': 0, 'D': 6, 'E': 12, 'F': 17, 'G': 23, 'A': 29, 'B': 35}


def pc(name):
    """the pitch class a note name spells, or None"""
    if not name or name[0].upper() not in NATURAL or set(name[1:]) - {'#', 'b'} or len(set(name[1:])) > 1:
        return None
    return (NATURAL[name[0].upper()] + name.count('#') - name[1:].count('b')) % 12


def semitones(b):
    """semitones of a distance in the base-40 system"""
    octave, r = divmod(b, 40)
    for l, at in LINE.items():
        if abs(r - at) <= 2:
            return 12 * octave + NATURAL[l] + (r - at)
    if r >= 38:
        return 12 * (octave + 1) + (r - 40)
    return None


def music_tables(rep, prog, spec):
    m = prog.modules.get('gsdefs')
    if m is None:
        raise AnalysisError('module gsdefs is gone')
    n = [0]

    def table(name):
        try:
            v = glob(prog, m, name)
        except NotConstant:
            if m.globals.get(name) is None:
                raise AnalysisError('gsdefs.%s is gone' % name)
            rep.coverage.setdefault('not_folded', []).append(name)
            return None
        if touched(m, name):
            rep.coverage.setdefault('not_folded', []).append(name)
            return None
        w, node = where(m, name)
        if node is not None and isinstance(node.value, ast.Dict):
            seen = {}
            for k in node.value.keys:
                if isinstance(k, ast.Constant):
                    n[0] += 1
                    if k.value in seen:
                        bad(name, k.value, 'is listed twice', k)
                    seen[k.value] = k
        return v

    def bad(name, key, msg, node=None):
        w, _ = where(m, name)
        if node is not None:
            w = '%s:%d' % (m.rel, node.lineno)
        rep.violation('music-tables', 'gsdefs.%s[%r]' % (name, key), w, '%s[%r] %s' % (name, key, msg))

    types, ints = table('chordTypes'), table('chordIntervals')
    if types is not None:
        for k, v in sorted(types.items()):
            n[0] += 2
            if not v or v[0] != 0 or list(v) != sorted(set(v)):
                bad('chordTypes', k, 'is %s, not an ascending list of distinct semitones from 0' % (v,))
        by = {}
        for k, v in sorted(types.items()):
            by.setdefault(tuple(v), []).append(k)
        for v, ks in by.items():
            n[0] += 1
            if len(ks) > 1:
                bad('chordTypes', ks[1], 'has the same semitones as %r' % ks[0])
    if types is not None and ints is not None:
        for k in sorted(set(types) & set(ints)):
            n[0] += 1
            acc, got = 0, [0]
            for x in ints[k]:
                acc += x
                got.append(semitones(acc))
            if got != list(types[k]):
                bad('chordIntervals', k, 'spells the semitones %s, chordTypes has %s' % (got, types[k]))
    if ints is not None:
        by = {}
        for k, v in sorted(ints.items()):
            by.setdefault(tuple(v), []).append(k)
        for v, ks in by.items():
            n[0] += 1
            if len(ks) > 1:
                bad('chordIntervals', ks[1], 'has the same intervals as %r' % ks[0])
    keys = table('midiKey')
    if keys is not None:
        names = {}
        for k, v in sorted(keys.items()):
            n[0] += 2
            if v in names:
                bad('midiKey', k, 'has the name of %r' % names[v])
            names[v] = k
            if pc(v) != (7 * k) % 12:
                bad('midiKey', k, 'is %r, which is not %d fifths from C' % (v, k))
        n[0] += 1
        if sorted(keys) != list(range(-7, 8)):
            bad('midiKey', 'keys', 'does not name all numbers of accidentals from -7 to 7')
    notes = table('noteMap')
    if notes is not None:
        for k, v in sorted(notes.items()):
            n[0] += 1
            i = len(k.rstrip('-0123456789'))
            try:
                want = 12 * (int(k[i:]) + 1) + NATURAL[k[0].upper()] + k[1:i].count('#') - k[1:i].count('b')
            except (ValueError, KeyError, IndexError):
                continue
            if want != v:
                bad('noteMap', k, 'is %s, the note has number %d' % (v, want))
        n[0] += 1
        if sorted(notes.values()) != list(range(128)):
            bad('noteMap', 'values', 'does not name each of the 128 MIDI notes once')
    pitch = table('defaultPitchNames')
    if pitch is not None:
        n[0] += 1
        if len(pitch) != 12:
            bad('defaultPitchNames', 'length', 'has %d names' % len(pitch))
        for i, v in enumerate(pitch):
            n[0] += 1
            if pc(v) != i % 12:
                bad('defaultPitchNames', i, 'is %r' % v)
    p40 = table('pitch40')
    if p40 is not None:
        seen = {}
        n[0] += 1
        if len(p40) != 40:
            bad('pitch40', 'length', 'has %d entries' % len(p40))
        for i, v in enumerate(p40):
            if v == '':
                continue
            n[0] += 2
            if v in seen:
                bad('pitch40', i, 'repeats %r' % v)
            seen[v] = i
            p = pc(v)
            if p is not None:
                want = LINE[v[0]] + 2 + v.count('#') - v[1:].count('b')
                if want % 40 != i:
                    bad('pitch40', i, 'is %r, whose place is %d' % (v, want % 40))
        for v in pitch or []:
            n[0] += 1
            if v not in seen:
                bad('pitch40', v, 'a default pitch name is not in the table of spelled pitches')
    for t in ('generalMidiDrums', 'simpleDrumMap', 'verySimpleDrumMap'):
        d = table(t)
        if d is None:
            continue
        seen = {}
        for k, v in sorted(d.items()):
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                n[0] += 1
                if isinstance(x, (list, tuple)):
                    x = x[0]
                if not isinstance(x, int) or isinstance(x, bool) or not 0 <= x <= 127:
                    bad(t, k, 'is %r, not a MIDI note' % (x,))
            if not isinstance(v, (list, tuple)):
                if v in seen:
                    bad(t, k, 'has the note of %r' % seen[v])
                seen[v] = k
    gm, simple, very = [d for d in (table('generalMidiDrums'), table('simpleDrumMap'), table('verySimpleDrumMap'))]
    if simple and very:
        for k, v in very.items():
            n[0] += 1
            if simple.get(k, v) != v:
                bad('verySimpleDrumMap', k, 'is %s, simpleDrumMap has %s' % (v, simple[k]))
    if n[0] < 300:
        raise AnalysisError('only %d facts about the tables of gsdefs could be stated' % n[0])
    rep.coverage['music_tables'] = dict(rule='tables folded from their literals: chords (semitones against spelled intervals), keys (circle of fifths), note numbers, pitch names, drum maps', facts=n[0])
