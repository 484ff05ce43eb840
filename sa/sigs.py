"""What the public functions take: kinds of the parameters and of the fields
of the objects they work on.  Only the names of parameters, classes and fields
of the documented interface are used here."""

from fractions import Fraction

EVENT = {'.class': 'gspattern.Event', 'startTime': 'num', 'duration': 'num', 'pitch': 'int',
         'velocity': 'num', 'tag': 'tag', 'originPattern': 'maybe Pattern'}
PATTERN = {'.class': 'gspattern.Pattern', 'events': 'list Event', 'duration': 'num', 'startTime': 'num',
           'bpm': 'num', 'timeSignature': 'ntuple 2 int', 'key': 'maybe keyname', 'name': 'maybe str',
           'originFilePath': 'maybe str', 'viewpoints': 'dict Pattern', 'originPattern': 'maybe Pattern',
           'resolution': 'int'}
CHAN = {'tick': 'int', 'channel': 'int'}


def chan(cls, n):
    return {'.class': 'midiio.' + cls, 'tick': 'int', 'channel': 'int', 'data': 'nlist %d byte' % n if isinstance(n, int) else n}


def meta(cls, n, **kw):
    d = {'.class': 'midiio.' + cls, 'tick': 'int', 'data': 'nlist %d byte' % n if isinstance(n, int) else n}
    d.update(kw)
    return d


MARKOV = {'.class': 'gsstyles.PatternMarkov', 'order': 'int', 'numSteps': 'int', 'loopDuration': 'num',
          'transitionTable': 'list dict dict num', 'originPatterns': 'list Pattern', 'binarizedPatterns': 'list Pattern'}
STATE = 'dict dict list int'

SCHEMAS = {
    'Event': EVENT,
    'Pattern': PATTERN,
    'Density': {'.class': 'gsdescriptors.Density', 'type': 'str', 'ignoredTags': 'list tag', 'includedTags': 'maybe list tag'},
    'NumberOfTags': {'.class': 'gsdescriptors.NumberOfTags', 'type': 'str', 'ignoredTags': 'list tag', 'includedTags': 'maybe list tag'},
    'Syncopation': {'.class': 'gsdescriptors.Syncopation', 'type': 'str', 'weights': 'list int', 'noteGrid': 'list int', 'duration': 'int'},
    'Chord': {'.class': 'gsdescriptors.Chord', 'type': 'str', 'densityDescriptor': 'Density', 'forceMajMin': 'bool', 'allowDuplicates': 'bool'},
    'DensityDrumSpace': {'.class': 'gsextractors.DensityDrumSpace', 'descriptors': 'dict Density'},
    'DatabaseStyle': {'.class': 'gsstyles.DatabaseStyle', 'generatePatternOrdering': 'str', 'patternList': 'list Pattern', 'currentIdx': 'int'},
    'PatternMarkov': MARKOV,
    'MarkovStyle': {'.class': 'gsstyles.MarkovStyle', 'markovChain': 'PatternMarkov'},
    'BaseStyle': {'.class': 'gsstyles.BaseStyle'},
    'AgnosticDensity': {'.class': 'gstransformers.AgnosticDensity', 'globalDensity': 'num', 'normalizedDensities': 'dict num',
                        'targetDensities': 'dict num', 'mode': 'str', 'originPattern': 'maybe Pattern', 'currentPattern': 'Pattern',
                        'originDuration': 'num', 'numSteps': 'int', 'originDensities': 'dict num', 'densityDescriptor': 'Density',
                        'currentDistribution': 'dict num', 'currentState': STATE, 'originDistribution': 'dict num'},
    'EventChord': dict(EVENT, **{'.class': 'gstransformers.EventChord', 'components': 'list any', 'label': 'str'}),
    'Chordify': {'.class': 'gstransformers.Chordify', 'inputPattern': 'Pattern', 'outputPattern': 'Pattern', 'duration': 'num',
                 'events': 'list Event', 'numChords': 'int'},
    'Dataset': {'.class': 'gsdataset.Dataset', 'midiFolder': 'str', 'midiGlob': 'str', 'midiMap': 'dict any', 'checkForOverlapped': 'bool',
                'patterns': 'list Pattern', 'globPath': 'str', 'files': 'list str', 'idx': 'int'},
    # midi objects
    'FileWriter': {'.class': 'midiio.FileWriter', 'RunningStatus': 'maybe oneof MNoteOn|MNoteOff|MControl'},
    'FileReader': {'.class': 'midiio.FileReader', 'RunningStatus': 'maybe status'},
    'MPattern': {'.class': 'midiio.Pattern', '.list': 'MTrack', 'frmt': 'int', 'resolution': 'int', 'tick_relative': 'bool'},
    'MTrack': {'.class': 'midiio.Track', '.list': 'oneof MNoteOn|MNoteOff|MControl|MTempo|MTimeSig|MTrackName|MEot', 'tick_relative': 'bool'},
    'MFile1': {'.class': 'midiio.Pattern', '.list': ['MTrack1'], 'frmt': 'int', 'resolution': 'int', 'tick_relative': 'bool'},
    'MTrack1': {'.class': 'midiio.Track', '.list': ['MTrackName', 'MNoteOn', 'MNoteOn', 'MNoteOff', 'MEot'], 'tick_relative': 'bool'},
    'MNoteOn': chan('NoteOnEvent', 2),
    'MNoteOff': chan('NoteOffEvent', 2),
    'MNote': chan('NoteEvent', 2),
    'MAfterTouch': chan('AfterTouchEvent', 2),
    'MControl': chan('ControlChangeEvent', 2),
    'MProgram': chan('ProgramChangeEvent', 1),
    'MChanAfter': chan('ChannelAfterTouchEvent', 1),
    'MPitch': chan('PitchWheelEvent', 2),
    'MSysex': chan('SysexEvent', 'list byte'),
    'MMeta': meta('MetaEvent', 'list byte'),
    'MTempo': meta('SetTempoEvent', 3),
    'MTimeSig': meta('TimeSignatureEvent', 'nlist 4 small'),
    'MKeySig': meta('KeySignatureEvent', 2),
    'MTrackName': meta('TrackNameEvent', 'list byte', text='str'),
    'MText': meta('MetaEventWithText', 'list byte', text='str'),
    'MUnknown': meta('UnknownMetaEvent', 'list byte', metacommand='byte'),
    'MEot': meta('EndOfTrackEvent', 0),
    'ByteStream': {'.class': None, 'pos': 'int'},
    'MSeq': meta('SequenceNumberMetaEvent', 2),
}

# by parameter name, wherever it is taken
BY_NAME = {
    'event': 'Event', 'myEvent': 'Event', 'e': 'Event',
    'pattern': 'Pattern', 'myPattern': 'Pattern', 'p': 'Pattern', 'originPattern': 'maybe Pattern', 'voice': 'Pattern',
    'parentPattern': 'maybe Pattern', 'PatternA': 'Pattern', 'PatternB': 'Pattern', 'patternA': 'Pattern', 'patternB': 'Pattern',
    'Pattern': 'Pattern',
    'startTime': 'num', 'duration': 'num', 'velocity': 'int', 'pitch': 'int', 'interval': 'int', 'ratio': 'num', 'stepSize': 'step',
    'time': 'num', 'tolerance': 'num', 'length': 'num', 'desiredLength': 'step', 'desiredDuration': 'step', 'maxSilenceTime': 'num',
    'bpm': 'num', 'tag': 'tag', 'item': 'Event', 'index': 'int', 'silencePitch': 'int',
    'PatternClasses': 'list Pattern', 'patternClasses': 'list Pattern', 'listOfPatterns': 'list Pattern',
    'step': 'int', 'num': 'int', 'order': 'int', 'numSteps': 'int', 'loopDuration': 'num',
    'silenceTag': 'str', 'silTag': 'str', 'silPitch': 'int', 'blockSize': 'num',
    'events': 'maybe list Event', 'chromas': 'nlist 12 num', 'pitchProfile': 'nlist 12 int', 'penalityWeight': 'num',
    'convolution': 'list num', 'li': 'list num', 'intervalList': 'list int',
    'usePitchValues': 'bool', 'trimEnd': 'bool', 'makeCopy': 'bool', 'exactSearch': 'bool', 'perTag': 'bool',
    'quantizeStartTime': 'bool', 'quantizeDuration': 'bool', 'onlyIfBigger': 'bool', 'useTagIndexing': 'bool',
    'allTagsMustBeEquals': 'bool', 'supressEmptyPattern': 'bool', 'allowDuplicates': 'bool', 'forceMajMin': 'bool',
    'checkForOverlapped': 'bool', 'filterOutNotMapped': 'bool', 'tagFromTrackName': 'bool', 'conserveTuple': 'bool',
    'targetDensity': 'rel', 'value': 'int', 'val': 'int', 'seed': 'int', 'frmt': 'int', 'resolution': 'int', 'tick_relative': 'bool',
    'channel': 'int', 'statusmsg': 'byte', 'trklen': 'int', 'filename': 'str', 'suffix': 'maybe str', 'path': 'str',
    'filePath': 'str', 'folderPath': 'str', 'nameSuffix': 'maybe str', 'name': 'maybe str', 'key': 'maybe str',
    'midiFile': 'str', 'midiGlobPath': 'str', 'midiPath': 'str', 'originFilePath': 'maybe str',
    'midiFolder': 'str', 'midiGlob': 'str', 'globPattern': 'str', 'fileName': 'str', 'viewpointName': 'maybe vpname',
    'midiMap': 'dict int', 'timeSignature': 'ntuple 2 int', 'components': 'maybe list any', 'label': 'str',
    'ignoredTags': 'maybe list tag', 'includedTags': 'maybe list tag', 'generatePatternOrdering': 'ordering', 'mode': 'str',
    'repeatibleTags': 'list tag', 'tags': 'list tag', 'root': 'str',
    'l': 'list int', 'l1': 'list int', 'l2': 'list int', 'c': 'list any',
    'pitchNames': 'nlist 12 str', 'pitch_class': 'int', 'alt': 'str', 'keyString': 'maybe str', 'normalizedDict': 'dict rel',
    'possibleStatesIn': 'maybe list any', 'possibleStatesOut': 'maybe list any',
    'internalStateDict': 'any', 'state': 'any', 'json': 'any',
    'track': 'MTrack',
}

S = 'gspattern.'
STREAM = {'data': 'ByteStream'}
# per function: one or more cases, each {param: kind | list of values}
CASES = {
    'midiio.write_varlen': [{'value': 'number'}],
    'gspattern.Event.__eq__': [{'other': 'Event'}, {'other': 'any'}, {'other': 'Pattern'}],
    'gspattern.Event.__ne__': [{'other': 'Event'}, {'other': 'any'}, {'other': 'Pattern'}],
    'gspattern.Event.hasOneOfTags': [{'tags': 'list tag'}, {'tags': 'tag'}, {'tags': 'tuple tag'}],
    'gspattern.Event.isTag': [{}],
    'gspattern.Pattern.__init__': [{'events': 'list Event'}, {'events': 'maybe list Event'}],
    'gspattern.Pattern.__eq__': [{'other': 'Pattern'}, {'other': 'any'}, {'other': 'Event'}],
    'gspattern.Pattern.__ne__': [{'other': 'Pattern'}, {'other': 'any'}],
    'gspattern.Pattern.__getitem__': [{'index': 'int'}],
    'gspattern.Pattern.getPatternWithTags': [{'tagToLookFor': 'list tag'}, {'tagToLookFor': 'tag'}],
    'gspattern.Pattern.getPatternWithoutTags': [{'tagToLookFor': 'list tag'}, {'tagToLookFor': 'tag'}],
    'gspattern.Pattern.removeByTags': [{'tags': 'list tag'}, {'tags': 'tag'}],
    'gspattern.Pattern.generateViewpoint': [
        {'name': ['chords', 'xyz'], 'descriptor': [None], 'sliceType': [None, 'all', 'perEvent']},
        {'name': ['v'], 'descriptor': 'obj', 'sliceType': [None, 'all', 'perEvent']},
        {'name': ['v'], 'descriptor': 'obj', 'sliceType': 'num'}],
    'gspattern.Pattern.generateViewpoint._computeViewpoint': [
        {'descriptor': 'obj', 'sliceType': ['all', 'perEvent'], 'name': 'str', 'originPattern': 'Pattern'},
        {'descriptor': 'obj', 'sliceType': 'num', 'name': 'str', 'originPattern': 'Pattern'}],
    'midiio.read_varlen': [{'data': 'ByteStream'}],
    'midiio.FileReader.parse_midi_event': [{'trackdata': 'ByteStream'}],
    'midiio.FileWriter.encode_midi_event': [{'event': k} for k in 'MNoteOn MNoteOff MControl MTempo MTrackName MEot MSysex MProgram MUnknown'.split()],
    'midiio.FileWriter.write': [{'midifile': 'obj', 'pattern': 'MPattern'}],
    'midiio.FileWriter.write_track': [{'midifile': 'obj', 'track': 'MTrack'}],
    'midiio.FileWriter.write_file_header': [{'midifile': 'obj', 'pattern': 'MPattern'}],
    'midiio.Track.__init__': [{'events': 'list MNoteOn'}],
    'midiio.Pattern.__init__': [{'tracks': 'list MTrack'}],
    'gsdescriptors.findBestScoreForProfiles': [{'pitchProfileDict': 'dict nlist 12 int'}],
}

# special kinds: how they are treated and the values their models have
ALIAS = {'byte': 'int', 'status': 'int', 'obj': 'any', 'small': 'int', 'keyname': 'str', 'rel': 'num', 'step': 'num', 'number': 'int', 'ordering': 'str', 'vpname': 'str'}
F = Fraction
VALUES = {
    'vpname': ['a', 'a', 'a', 'b', 'chords'],
    'small': [F(1), F(2), F(3), F(4), F(6), F(8)],
    'ordering': ['indexed', 'increasing', 'random', 'other'],
    'keyname': ['C', 'Am', 'F#', 'Ebm', 'G', 'Cb', 'C#m', 'Bb'],
    'rel': [F(0), F(1, 2), F(1), F(3, 2), F(2), F(3, 4), F(5, 4)],
    'step': [F(1), F(1, 2), F(2), F(1, 4), F(4)],
    'number': [F(x) for x in (0, 1, 0x7f, 0x80, 0x81, 0x2000, 0x3fff, 0x4000, 0x12345, 0x1fffff, 0x200000, 0x7654321, 0xfffffff)],
}
KEYS = {
    'viewpoints': ['a', 'b', 'chords', 'v'],
    'normalizedDict': ['a', 'b', 'c'],
    'midiMap': ['a', 'b', 'kick'],
}
