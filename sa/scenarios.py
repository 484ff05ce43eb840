"""Scenarios: short sequences of calls over the public interface, for
parameters and histories that a single function does not reach with inputs of
its documented kinds (nested options, a saved state restored somewhere else, a
whole folder).  Like the obligations they are summarised with the current
source and with the reference inlined, and the summaries are compared; nothing
is executed."""

SCENARIOS = {}

SCENARIOS['C01'] = [(dict(), '''
def reloaded(p, u):
    """p: Pattern; u: bool"""
    return gspattern.Pattern().fromJSONDict(p.toJSONDict(u))

def reloaded_over(p, q):
    """p: Pattern; q: Pattern"""
    return q.fromJSONDict(p.toJSONDict())

def reloaded_with_parent(p, q):
    """p: Pattern; q: Pattern"""
    return gspattern.Pattern().fromJSONDict(p.toJSONDict(), q)
''')]

SCENARIOS['C03'] = [(dict(intercept='MIDI'), '''
def read_two_channels(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'one': [(60, 0)], 'two': [(60, 1)]})

def read_tracks_by_name(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'kick': 36, 'all': [(60, '*')]}, tracksToGet=['a'])

def read_tracks_by_number(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'kick': 36, 'all': [(60, '*')]}, tracksToGet=[1])

def read_tags_of_tracks(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'a': [], 'b': [], 'x': []}, tagFromTrackName=True)

def read_mapped(midiFile, f):
    """midiFile: str; f: bool"""
    return gsio.fromMidiFile(midiFile, {'one': [(60, 0), 38], 'two': [('*', 9), (60, '*')]}, filterOutNotMapped=f)

def read_pitch_names(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'pitchName': ['c', 'c#', 'd', 'd#', 'e', 'f', 'f#', 'g', 'g#', 'a', 'a#', 'b']})
'''), (dict(intercept='SMALL_FILES'), '''
def read_same_pitch_on_channels(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, {'one': [(60, 0)], 'two': [(60, 1)], 'three': 36})

def read_without_overlaps(midiFile):
    """midiFile: str"""
    return gsio.fromMidiFile(midiFile, 'pitchName', checkForOverlapped=True)
''')]

SCENARIOS['C18'] = [(dict(), '''
def restored_style(s, t):
    """s: DatabaseStyle; t: DatabaseStyle"""
    s.setInternalState(t.getInternalState())
    return len(s.patternList), s.patternList

def restored_style_then_state(s, t):
    """s: DatabaseStyle; t: DatabaseStyle"""
    s.setInternalState(t.getInternalState())
    return s.getInternalState()

def restored_chain(s, t):
    """s: PatternMarkov; t: PatternMarkov"""
    s.setInternalState(t.getInternalState())
    return s

def restored_markov(s, t):
    """s: MarkovStyle; t: MarkovStyle"""
    s.setInternalState(t.getInternalState())
    return s
''')]

SCENARIOS['C25'] = [(dict(intercept='SMALL_FILES', terms=40000), '''
def folder_loaded(d):
    """d: Dataset"""
    d.midiMap = {'one': [(60, '*')], 'two': [('*', 9)], 'three': 36}
    return d.importMidi()

def collection_options(g, t, f):
    """g: str; t: bool; f: bool"""
    return gsio.fromMidiCollection(g, {'one': [(60, '*')], 'two': [('*', 9)], 'three': 36}, tracksToGet=['a', 1], tagFromTrackName=t, filterOutNotMapped=f)

def collection_cut(g):
    """g: str"""
    return gsio.fromMidiCollection(g, {'one': 60}, desiredLength=4)

def dataset_made(f, o):
    """f: str; o: bool"""
    return gsdataset.Dataset(f, '*.mid', {'one': [(60, '*')], 'two': 36}, o)

def dataset_slices(d):
    """d: Dataset"""
    d.midiMap = {'one': 60}
    d.importMidi()
    return d.getAllSliceOfDuration(4)
''')]

SCENARIOS['C17'] = [(dict(), '''
def trained(a, b):
    """a: Event; b: Event"""
    p = gspattern.Pattern(events=[a, b], duration=2)
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([p])
    return m.transitionTable

def trained_pair(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a], duration=2), gspattern.Pattern(events=[b], duration=2)])
    return m.transitionTable

def trained_stretched(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=4)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=4)])
    return m.transitionTable

def trained_order_two(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=2, numSteps=3, loopDuration=3)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=3)])
    return m.transitionTable

def trained_style(a, b):
    """a: Event; b: Event"""
    m = gsstyles.MarkovStyle(order=1, numSteps=2, loopDuration=2)
    m.generateStyle([gspattern.Pattern(events=[a, b], duration=2)])
    return m.markovChain.transitionTable, m.isBuilt()

def trained_twice(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a], duration=2)])
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[b], duration=2)])
    return m.transitionTable

def trained_restored(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=2)])
    n = gsstyles.PatternMarkov()
    n.setInternalState(m.getInternalState())
    return n.transitionTable

def trained_out_states(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=2)])
    return set(m.getPossibleOutStatesAtStep(-1))

def trained_in_states(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=2)])
    return set(m.getPossibleInStatesAtStep(3))

def described(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=2)])
    return m.getStringTransitionTable()

def state_of_trained(a, b):
    """a: Event; b: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a, b], duration=2)])
    return m.getInternalState()

def checked(a):
    """a: Event"""
    m = gsstyles.PatternMarkov(order=1, numSteps=2, loopDuration=2)
    return m.isBuilt(), m.generateTransitionTableFromPatternList([gspattern.Pattern(events=[a], duration=2)]), m.isBuilt()
''')]

SCENARIOS['C06'] = [(dict(), '''
def sliced_then_changed(p, s, d):
    """p: Pattern; s: num; d: step"""
    q = p.patternFromTimeSlice(s, d)
    q.timeStretch(2)
    q.addEvent(gspattern.Event(0, 9))
    return q

def split_then_changed(p, d):
    """p: Pattern; d: step"""
    for q in p.splitInEqualLengthPatterns(d):
        q.transpose(1)
    return p
''')]

SCENARIOS['C07'] = [(dict(), '''
def selected_by_function(p, x):
    """p: Pattern; x: str"""
    return p.getPatternWithTags(lambda t: t == x), p.getPatternWithoutTags(lambda t: t == x)

def selected_by_tuple(p, x, y, e):
    """p: Pattern; x: str; y: str; e: bool"""
    return p.getPatternWithTags((x, y), e), p.getPatternWithoutTags((x, y), e)

def selected_by_list(p, x, y, c):
    """p: Pattern; x: tag; y: tag; c: bool"""
    return p.getPatternWithTags([x, y], False, c), p.getPatternWithoutTags([x, y], makeCopy=c)

def selected_apart(p, x):
    """p: Pattern; x: tag"""
    q = p.getPatternWithTags(x)
    q.timeStretch(2)
    q.transpose(1)
    return q

def selected_together(p, n):
    """p: Pattern; n: int"""
    q = p.getPatternWithPitch(n, makeCopy=False)
    q.timeStretch(2)
    return q
''')]

SCENARIOS['C08'] = [(dict(), '''
def copied_then_changed(p):
    """p: Pattern"""
    q = p.copy()
    q.events.append(gspattern.Event())
    q.timeStretch(3)
    q.viewpoints['new'] = 1
    return p.viewpoints, p.duration
''')]

SCENARIOS['C09'] = [(dict(), '''
def options_kept_apart(t):
    """t: tag"""
    a = gsdescriptors.Density(ignoredTags=[t])
    b = gsdescriptors.Density()
    a.ignoredTags.append('more')
    c = gsdescriptors.Density()
    b.ignoredTags.append('less')
    return a.ignoredTags, b.ignoredTags, c.ignoredTags, gsdescriptors.NumberOfTags().ignoredTags

def new_patterns_apart(x):
    """x: str"""
    a = gspattern.Pattern()
    b = gspattern.Pattern()
    a.addEvent(gspattern.Event(tag=x))
    a.viewpoints[x] = b
    return a, b, gspattern.Pattern()

def copied_then_changed(p):
    """p: Pattern"""
    q = p.copy()
    q.events.append(gspattern.Event())
    q.timeStretch(3)
    q.viewpoints['new'] = 1
    return p.viewpoints, p.duration
''')]

SCENARIOS['C12'] = [(dict(), '''
def bars(p, d):
    """p: Pattern; d: num"""
    p.addEvent(gspattern.Event(d, 2))
    p.durationToBar()
    return p.duration, p.lastNoteOff()
''')]

SCENARIOS['C13'] = [(dict(), '''
def filled_options(p, m):
    """p: Pattern; m: step"""
    q = p.getFilledWithSilences(maxSilenceTime=m, perTag=True, silenceTag='rest')
    return q

def legato_then_overlap(p, u):
    """p: Pattern; u: bool"""
    p.applyLegato(u)
    p.removeOverlapped(u)
    return p
''')]

SCENARIOS['C14'] = [(dict(), '''
def grid_then_silence(p):
    """p: Pattern"""
    p.alignOnGrid(1)
    p.fillWithSilences(maxSilenceTime=1)
    return p
''')]

SCENARIOS['C15'] = [(dict(), '''
def density_options(p, t, u):
    """p: Pattern; t: tag; u: tag"""
    return gsdescriptors.Density(ignoredTags=[t], includedTags=u).getDescriptorForPattern(p), gsdescriptors.Density().getDescriptorForPattern(p)

def density_included_list(p, t, u):
    """p: Pattern; t: tag; u: tag"""
    return gsdescriptors.Density(includedTags=[t, u]).getDescriptorForPattern(p)

def tags_options(p, t, u):
    """p: Pattern; t: tag; u: tag"""
    return gsdescriptors.NumberOfTags(ignoredTags=[t, u]).getDescriptorForPattern(p), gsdescriptors.NumberOfTags(includedTags=u).getDescriptorForPattern(p)

def chord_of_two(x, y):
    """x: num; y: num"""
    p = gspattern.Pattern(events=[gspattern.Event(0, x, 60), gspattern.Event(0, y, 67)], duration=4)
    return gsdescriptors.Chord(forceMajMin=True, allowDuplicates=True).getDescriptorForPattern(p)

def chord_of_one(x):
    """x: num"""
    p = gspattern.Pattern(events=[gspattern.Event(0, x, 60)], duration=4)
    return gsdescriptors.Chord(forceMajMin=True).getDescriptorForPattern(p)

def chord_of_pitch(n):
    """n: int"""
    p = gspattern.Pattern(events=[gspattern.Event(0, 4, n), gspattern.Event(0, 4, n + 7), gspattern.Event(0, 4, n + 4)], duration=4)
    return gsdescriptors.Chord(forceMajMin=True).getDescriptorForPattern(p)
''')]

SCENARIOS['C09'] += [(dict(intercept='SMALL_FILES'), '''
def map_of_import(midiFile):
    """midiFile: str"""
    notes = {'one': [60, (61, 0)], 'two': 36}
    gsio.fromMidiFile(midiFile, notes)
    return notes

def map_of_collection(g):
    """g: str"""
    notes = {'one': [60, (61, 0)], 'two': 36}
    gsio.fromMidiCollection(g, notes)
    return notes
''')]

SCENARIOS['C20'] = [(dict(), '''
def density_state(x, y):
    """x: small; y: small"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    t.buildDensityMap(gspattern.Pattern(events=[gspattern.Event(x, 1, 60, 80, 'a')], duration=4))
    return t.currentState, t.originDensities, t.normalizedDensities

def density_state_two(x, y):
    """x: small; y: small"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    t.buildDensityMap(gspattern.Pattern(events=[gspattern.Event(x, 1, 60, 80, 'a'), gspattern.Event(y, 2, 60, 80, 'b')], duration=4))
    return t.currentState

def density_add(v):
    """v: rel"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    t.buildDensityMap(gspattern.Pattern(events=[gspattern.Event(1, 1, 60, 80, 'a')], duration=4))
    t.addEventForTag('a', 1)
    return t.currentState, t.currentPattern

def density_remove(v):
    """v: rel"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    t.buildDensityMap(gspattern.Pattern(events=[gspattern.Event(1, 1, 60, 80, 'a'), gspattern.Event(2, 1, 60, 80, 'a')], duration=4))
    t.removeEventForTag('a', 1)
    return t.currentState, t.currentPattern

def density_state_given(t, s, n, v):
    """t: AgnosticDensity; s: int; n: int; v: rel"""
    t.currentState = {'a': {'notes': [0, 1], 'silences': [2, 3], 'addedNotes': [1], 'removedNotes': []}}
    t.currentPattern = gspattern.Pattern(events=[gspattern.Event(0, 1, 60, 80, 'a'), gspattern.Event(1, 1, 60, 80, 'a')], duration=4)
    t.addEventForTag('a', v)
    return t.currentState, t.currentPattern

def density_state_given_remove(t, s, n, v):
    """t: AgnosticDensity; s: int; n: int; v: rel"""
    t.currentState = {'a': {'notes': [0, 1], 'silences': [2, 3], 'addedNotes': [1], 'removedNotes': [3]}}
    t.currentPattern = gspattern.Pattern(events=[gspattern.Event(0, 1, 60, 80, 'a'), gspattern.Event(1, 1, 60, 80, 'a')], duration=4)
    t.removeEventForTag('a', v)
    return t.currentState, t.currentPattern

def density_changed(v):
    """v: rel"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    t.buildDensityMap(gspattern.Pattern(events=[gspattern.Event(1, 1, 60, 80, 'a')], duration=4))
    t.updateNormalizedDensities({'a': v})
    return t.currentState, t.currentPattern, t.normalizedDensities

def density_transformed(v):
    """v: rel"""
    t = gstransformers.AgnosticDensity(numSteps=4)
    return t.transformPattern(gspattern.Pattern(events=[gspattern.Event(1, 1, 60, 80, 'a')], duration=2), {'normalizedDensities': {'a': v}})
''')]
