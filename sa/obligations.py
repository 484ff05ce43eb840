"""Which functions decide which property, and what of them is compared.

An obligation names a function of the library and the aspects of it the
property talks about:
  value    what it returns
  changes  what it leaves in its arguments (and in everything reachable)
  globals  what it leaves in classes, modules and default arguments
  effects  what it writes to files (kind of file, object, options), in order
Private helpers (leading underscore) are optional: a helper that is renamed
or inlined is judged through the public functions that use it.
"""


from .models import Wild


# functions whose distinctions stay manageable only as a whole: the size up to
# which terms are kept distinct
LARGE = {'gsio.fromMidiFile': 40000, 'midiio.FileWriter.write': 40000, 'midiio.FileWriter.write_track': 40000,
         'gsdescriptors.Chord.getDescriptorForPattern': 40000}


class Ob(object):
    def __init__(self, qual, aspects=('value', 'changes'), norm=None, cases=None, optional=None, domains=None, sizes=None,
                 ignore=(), n=None, text=None, name=None, intercept=None, law=False, anchors=(), terms=None):
        self.qual, self.aspects, self.norm, self.cases = qual, aspects, norm, cases
        self.terms = terms or LARGE.get(qual)
        last = qual.split('.')[-1]
        self.optional = optional if optional is not None else (last.startswith('_') and not last.endswith('__'))
        self.domains, self.sizes, self.ignore, self.n = domains, sizes, ignore, n
        self.text, self.name, self.intercept, self.law, self.anchors = text, name or qual, intercept, law, anchors
        if text:
            self.optional = False


V, CH, G, E = 'value', 'changes', 'globals', 'effects'


def obs(names, prefix='', **kw):
    return [Ob(prefix + n, **kw) for n in names.split()]


def laws(text):
    """several laws, each a function named after itself whose docstring tells
    the kinds of its parameters and, after a bar, the functions concerned"""
    import ast
    out = []
    for f in ast.parse(text).body:
        doc = ast.get_docstring(f)
        kinds, _, anchors = doc.partition('|')
        kinds = dict(x.strip().split(': ', 1) for x in kinds.split(';') if x.strip())
        kinds = {k: (ast.literal_eval(v) if v.startswith('[') else v) for k, v in kinds.items()}
        out.append(Ob(f.name, text=ast.unparse(f), cases=[kinds], law=True, anchors=tuple(anchors.split())))
    return out


def probes(text, **kw):
    import ast
    out = []
    for f in ast.parse(text).body:
        doc = ast.get_docstring(f)
        kinds = dict(x.strip().split(': ', 1) for x in doc.split(';') if x.strip())
        kinds = {k: (ast.literal_eval(v) if v.startswith('[') else v) for k, v in kinds.items()}
        out.append(Ob(f.name, text=ast.unparse(f), cases=[kinds], **kw))
    return out


# ------------------------------------------------------------ intercepted calls
def _midi_write(I, st, args, kw, node):
    '''writing a MIDI file: what is written is compared as an object (the bytes are the business of C04)'''
    a = list(args[1:]) + [kw[k] for k in ('midifile', 'pattern') if k in kw]
    from .terms import mk, NONE
    I.effect(st, 'dump', None, 'midi', mk('tuple', *a), node)
    I.dump('midi', a, {}, st, node)
    return NONE


def _midi_read(I, st, args, kw, node):
    from .terms import mk
    I.effect(st, 'load', None, 'midi', mk('tuple', *args[1:]), node)
    I.roots['content of the MIDI file'] = 'MPattern'
    return I.input('content of the MIDI file', 'MPattern')


MIDI = {'midiio.FileWriter.write': _midi_write, 'midiio.FileReader.read': _midi_read}

def _midi_read_small(I, st, args, kw, node):
    '''a file of one named track with two notes on, one off: each reading gives an object of its own'''
    name = 'content of every MIDI file'
    I.dump('midi file read', args[1:], {}, st, node)
    I.roots[name] = 'MFile1'
    return I.clone(I.input(name, 'MFile1'), st, True)



def _folder(I, st, args, kw, node):
    '''the files a pattern stands for: a list of names; which pattern was asked for is compared'''
    I.dump('glob', args, kw, st, node)
    I.roots['files of the folder'] = 'list str'
    return I.clone(I.input('files of the folder', 'list str'), st, True)


SMALL_FILES = {'midiio.FileReader.read': _midi_read_small, 'glob.glob': _folder, 'glob.iglob': _folder}

PAT = 'gspattern.Pattern.'
EV = 'gspattern.Event.'


# ------------------------------------------------------- unordered answers
def bag(asp, x):
    """answers whose order means nothing"""
    if asp == 'value' and isinstance(x, tuple) and x and x[0] == 'list':
        return ('list',) + tuple(sorted(x[1:], key=repr))
    return x


# -------------------------------------------------------------------- tables
OBLIGATIONS = {}
def answers(asp, x):
    """only whether there is an answer"""
    if isinstance(x, Wild):
        return x
    return ('nothing' if x is None else 'an answer') if asp == 'value' else x


def sharing(asp, x):
    """only which parts are shared with something that existed before"""
    if isinstance(x, Wild):
        return x
    out = []

    def walk(v, at):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] in ('shared', 'input', 'same'):
            out.append((at, v))
            return
        if v[0] == 'new':
            for kv in v[2:]:
                if isinstance(kv, tuple) and len(kv) == 2:
                    walk(kv[1], at + '.' + str(kv[0]))
            return
        if v[0] == 'dict':
            for kv in v[1:]:
                if isinstance(kv, tuple) and len(kv) == 2:
                    walk(kv[1], '%s{%s}' % (at, kv[0]))
            return
        for i, y in enumerate(v[1:]):
            walk(y, '%s[%d]' % (at, i))
    if asp == 'value':
        walk(x, 'result')
        return tuple(out)
    if asp == 'changes':
        for k, v in x:
            walk(v, k)
        return tuple(out)
    return x


O = OBLIGATIONS

O['C01'] = (obs('toJSONDict fromJSONDict', PAT, aspects=(V, CH, G)) +
            obs('toJSONFile fromJSONFile', 'gsio.', aspects=(V, CH, E)) +
            obs('toPickleFile fromPickleFile', 'gsio.', aspects=(V, CH, E)))

O['C02'] = obs('toMidiFile', 'gsio.', aspects=(V, CH, E), intercept=MIDI)

O['C03'] = obs('fromMidiFile', 'gsio.', aspects=(V, CH, G), intercept=MIDI)

O['C04'] = (obs('write_varlen read_varlen', 'midiio.', aspects=(V,)) +
            obs('FileWriter.write FileWriter.write_file_header FileWriter.write_track FileWriter.encode_track_header FileWriter.encode_midi_event',
                'midiio.', aspects=(V, CH, E)) +
            obs('FileReader.read FileReader.parse_file_header FileReader.parse_track_header FileReader.parse_track FileReader.parse_midi_event',
                'midiio.', aspects=(V, CH)) +
            obs('Pattern.make_ticks_abs Pattern.make_ticks_rel Track.make_ticks_abs Track.make_ticks_rel', 'midiio.', aspects=(V, CH)) +
            obs('Pattern.__init__ Track.__init__', 'midiio.'))

O['C06'] = (obs('patternFromTimeSlice splitInEqualLengthPatterns generateViewpoint', PAT) +
            obs('gsdataset.Dataset.getAllSliceOfDuration') + obs('copy', EV))

O['C07'] = (obs('getPatternWithTags getPatternWithPitch getPatternWithoutTags copyWithoutEvents copy', PAT) +
            obs('getAllTags getAllPitches', PAT, norm=bag) + obs('__getitem__ __len__', PAT) + obs('patternToList', 'gspattern.'))

QUESTIONS = (
    obs('__eq__ __ne__ __repr__ hasCommonTagWith hasOneOfTags isTag allTagsAreEqualWith endTime copy cutInSteps containsTime', EV) +
    obs('__eq__ __ne__ __getitem__ __len__ __repr__ copy copyWithoutEvents generateViewpoint activeEventsAtTime getIdenticalEvents '
        'getFilledWithSilences lastNoteOff patternFromTimeSlice getStartingEventsAtTime getAllTags getAllPitches getPatternWithTags '
        'getPatternWithPitch getPatternWithoutTags toJSONDict splitInEqualLengthPatterns printASCIIGrid', PAT) +
    obs('patternToList', 'gspattern.') +
    obs('toMidiFile toJSONFile toPickleFile fromMidiFile', 'gsio.', intercept=MIDI) + obs('fromMidiCollection', 'gsio.', intercept=SMALL_FILES) +
    obs('intervalListToProfile findBestScoreForProfiles getNumNonZero convolveWithPitchProfile findMaxAndIdx Density.getDescriptorForPattern '
        'NumberOfTags.getDescriptorForPattern Syncopation.getDescriptorForPattern Chord.getDescriptorForPattern', 'gsdescriptors.') +
    obs('DensityDrumSpace.getFeatureSpace', 'gsextractors.') +
    obs('getConsecutiveIntervalList hasCommonRotation', 'gsdefs.') +
    obs('DatabaseStyle.generateStyle DatabaseStyle.generatePattern DatabaseStyle.getInternalState DatabaseStyle.isBuilt '
        'MarkovStyle.generateStyle MarkovStyle.buildStyle MarkovStyle.generatePattern MarkovStyle.formatPattern MarkovStyle.getLastEvents '
        'MarkovStyle.getInternalState MarkovStyle.isBuilt '
        'PatternMarkov.generateTransitionTableFromPatternList PatternMarkov.getMarkovConfig PatternMarkov.buildTransitionTable '
        'PatternMarkov.getStringTransitionTable PatternMarkov.__repr__ PatternMarkov.generatePattern PatternMarkov.formatPattern '
        'PatternMarkov.getLastEvents PatternMarkov.getInternalState PatternMarkov.isBuilt PatternMarkov.getAllPossibleStates '
        'PatternMarkov.getAllPossibleStatesAtStep PatternMarkov.getPossibleOutStatesAtStep PatternMarkov.getPossibleInStatesAtStep '
        'PatternMarkov.getMatrixAtStep', 'gsstyles.') +
    obs('AgnosticDensity.transformPattern AgnosticDensity.buildDensityMap Chordify.transformPattern', 'gstransformers.') +
    obs('strip_suffix match_files pitch2name makeChord pc2note pc2base40', 'gsutil.') +
    obs('Dataset.getAllSliceOfDuration Dataset.__getitem__ Dataset.generateViewpoint', 'gsdataset.') +
    obs('write_varlen FileWriter.write FileWriter.write_track FileWriter.encode_midi_event Event.copy UnknownMetaEvent.copy '
        'AbstractEvent.__cmp__ Event.__cmp__', 'midiio.'))

for q in QUESTIONS:
    q.aspects = (CH,)
O['C08'] = QUESTIONS

O['C10'] = (obs('__eq__ __ne__ hasCommonTagWith hasOneOfTags isTag allTagsAreEqualWith', EV, aspects=(V,)) +
            obs('__eq__ __ne__ getIdenticalEvents', PAT, aspects=(V,)))

O['C11'] = (obs('endTime containsTime', EV, aspects=(V,)) +
            obs('activeEventsAtTime getStartingEventsAtTime lastNoteOff', PAT, aspects=(V,)))

O['C12'] = (obs('cutInSteps copy', EV) +
            obs('addEvent removeEvent removeByTags timeStretch transpose reorderEvents durationToLastEvent durationToBar __setitem__', PAT) +
            obs('pitch2name pc2note', 'gsutil.', aspects=(V,)))

O['C13'] = obs('fillWithSilences getFilledWithSilences fillWithPreviousEvent applyLegato', PAT)

O['C14'] = obs('alignOnGrid quantize removeOverlapped', PAT)

O['C15'] = (obs('intervalListToProfile findBestScoreForProfiles getNumNonZero convolveWithPitchProfile findMaxAndIdx', 'gsdescriptors.', aspects=(V,)) +
            obs('Density.__init__ Density.configure Density.getDescriptorForPattern NumberOfTags.__init__ NumberOfTags.configure '
                'NumberOfTags.getDescriptorForPattern Syncopation.__init__ Syncopation.configure Syncopation.getDescriptorForPattern '
                'Syncopation.__buildSyncopationWeight Syncopation.__buildBinarizedGrid '
                'Chord.__init__ Chord.configure Chord.getDescriptorForPattern ChordTag.__repr__', 'gsdescriptors.') +
            obs('DensityDrumSpace.__init__ DensityDrumSpace.getFeatureSpace', 'gsextractors.'))

O['C16'] = (obs('pitch2name makeChord pc2note pc2base40', 'gsutil.', aspects=(V,)) +
            obs('getConsecutiveIntervalList hasCommonRotation', 'gsdefs.', aspects=(V,)))

O['C17'] = (obs('generateTransitionTableFromPatternList buildTransitionTable generatePattern formatPattern getLastEvents '
                '_buildTupleForEvents checkSilences checkSilenceInList getPossibleOutStatesAtStep '
                'getPossibleInStatesAtStep getMatrixAtStep getMarkovConfig __init__ isBuilt', 'gsstyles.PatternMarkov.') +
            obs('getAllPossibleStates getAllPossibleStatesAtStep', 'gsstyles.PatternMarkov.', norm=bag) +
            obs('generateStyle buildStyle generatePattern formatPattern getLastEvents __init__', 'gsstyles.MarkovStyle.'))

O['C18'] = (obs('__init__ generateStyle generatePattern getInternalState setInternalState isBuilt', 'gsstyles.DatabaseStyle.') +
            obs('__init__ getInternalState setInternalState isBuilt', 'gsstyles.MarkovStyle.') +
            obs('__init__ getInternalState setInternalState isBuilt', 'gsstyles.PatternMarkov.') +
            obs('saveToJSON loadFromJSON saveToPickle loadFromPickle', 'gsstyles.BaseStyle.', aspects=(V, CH, E)))

O['C20'] = (obs('__init__ configure transformPattern updateNormalizedDensities addEventForTag removeEventForTag createCurrentState '
                'resetDensities buildDensityMap', 'gstransformers.AgnosticDensity.'))

O['C25'] = (obs('fromMidiCollection', 'gsio.', aspects=(V, CH, E), intercept=SMALL_FILES) +
            obs('__init__ setMidiGlob getAllSliceOfDuration generateViewpoint importMidi __getitem__', 'gsdataset.Dataset.', aspects=(V, CH, E), intercept=SMALL_FILES) +
            obs('match_files strip_suffix', 'gsutil.', aspects=(V,)))

MIDI_ACCESSORS = ('NoteEvent.get_pitch NoteEvent.set_pitch NoteEvent.get_velocity NoteEvent.set_velocity AfterTouchEvent.get_pitch '
                  'AfterTouchEvent.set_pitch AfterTouchEvent.get_value AfterTouchEvent.set_value ControlChangeEvent.set_control '
                  'ControlChangeEvent.get_control ControlChangeEvent.set_value ControlChangeEvent.get_value ProgramChangeEvent.set_value '
                  'ProgramChangeEvent.get_value ChannelAfterTouchEvent.set_value ChannelAfterTouchEvent.get_value PitchWheelEvent.get_pitch '
                  'PitchWheelEvent.set_pitch SetTempoEvent.set_bpm SetTempoEvent.get_bpm SetTempoEvent.get_mpqn SetTempoEvent.set_mpqn '
                  'TimeSignatureEvent.get_numerator TimeSignatureEvent.set_numerator TimeSignatureEvent.get_denominator '
                  'TimeSignatureEvent.set_denominator TimeSignatureEvent.get_metronome TimeSignatureEvent.set_metronome '
                  'TimeSignatureEvent.get_thirtyseconds TimeSignatureEvent.set_thirtyseconds KeySignatureEvent.get_alternatives '
                  'KeySignatureEvent.set_alternatives KeySignatureEvent.get_minor KeySignatureEvent.set_minor')
O['C05'] = (obs(MIDI_ACCESSORS, 'midiio.') +
            obs('AbstractEvent.__init__ Event.__init__ Event.copy UnknownMetaEvent.__init__ UnknownMetaEvent.copy MetaEventWithText.__init__ '
                'Event.is_event MetaEvent.is_event SysexEvent.is_event AbstractEvent.__cmp__ Event.__cmp__', 'midiio.'))


def again(names, **kw):
    """the obligations of other properties seen under another aspect"""
    out, seen = [], set()
    for c in names:
        for o in O[c]:
            if o.name in seen or o.law:
                continue
            seen.add(o.name)
            k = dict(cases=o.cases, optional=o.optional, domains=o.domains, sizes=o.sizes, ignore=o.ignore, n=o.n, text=o.text,
                     name=o.name, intercept=o.intercept, terms=o.terms)
            k.update(kw)
            out.append(Ob(o.qual, **k))
    return out


from .laws import LAWS
for _c in LAWS:
    O[_c] = O.get(_c, []) + laws(LAWS[_c])

from .scenarios import SCENARIOS
ASPECTS = {'C01': (V, CH), 'C02': (V, CH, E), 'C25': (V, CH, E)}
for _c in SCENARIOS:
    for _kw, _text in SCENARIOS[_c]:
        _kw = dict(_kw)
        if 'intercept' in _kw:
            _kw['intercept'] = {'MIDI': MIDI, 'SMALL_FILES': SMALL_FILES}[_kw['intercept']]
        _kw.setdefault('aspects', ASPECTS.get(_c, (V, CH)))
        O[_c] = O.get(_c, []) + probes(_text, **_kw)

EVERY = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20', 'C25']
O['C09'] = again(EVERY, aspects=(V, CH, G), norm=sharing) + O['C09']
O['C22'] = again(EVERY, aspects=(V,), norm=answers)
O['C24'] = again(EVERY, aspects=(V, CH, E))
