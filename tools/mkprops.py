"""writes /verif/properties.jsonl (kept as a script so that the text stays editable)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['gsapi/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'A pattern survives a JSON save and load',
     'Saving any pattern to JSON and loading it back gives a pattern with the same name, key, duration, tempo, time signature and start time, with the same events in the same order (onset, duration, pitch, velocity, tag) and the same viewpoints, whether tags are written inline or through an index. '
     'With tuple conservation on, tuple tags (nested ones too) come back as tuples. '
     'Saving never changes the pattern that is saved.',
     ['inputs', 'configurations'], 'every pattern (any number of events, tags, viewpoints, missing name or key) and both storage modes',
     'the one passing JSON test compares one MIDI collection with itself; field agreement between writer and reader must hold for every field, tag shape and storage option',
     ['gspattern.py', 'gsio.py'],
     [('writer of the JSON dictionary', 'Pattern.toJSONDict'), ('reader of the JSON dictionary', 'Pattern.fromJSONDict'),
      ('tuple hints', 'gsio.toJSONFile / gsio.fromJSONFile')], ['value loaded after a save', 'the saved pattern'])

prop('C02', 'MIDI export writes every event completely',
     'Exporting a pattern writes, for each of its events, exactly one note-on and one note-off with the event\'s velocity and with its pitch (or the pitch the given tag map assigns to its tag), at the ticks of its onset and of its end in the pattern\'s resolution. '
     'The exported track also holds the time signature, name, tempo, key (when there is one) and an end-of-track mark at the pattern\'s duration, in time order with ticks relative to the previous message. '
     'Exporting leaves the pattern unchanged and returns the path of the file it wrote.',
     ['inputs', 'configurations'], 'every pattern, tag map, folder and name',
     'tests re-import two sample files; nothing there fixes how arbitrary events, maps and meta data are written',
     ['gsio.py'], [('MIDI export', 'gsio.toMidiFile')], ['messages handed to the MIDI writer', 'returned path'])

prop('C03', 'MIDI import reads every selected note',
     'Importing a MIDI file creates one event for each mapped note-on with positive velocity in the selected tracks, with its pitch and velocity and with onset equal to its tick divided by the file\'s resolution, and closes it at the first matching later note-off (or zero-velocity note-on), at the pattern\'s end at the latest. '
     'Tags follow the note map (exact note and channel or wildcards, all matching names, a single match unwrapped) or the track name when asked for; unmapped notes are dropped only when filtering is on; tracks not asked for are skipped. '
     'Tempo, time signature, key and resolution are those of the file.',
     ['inputs', 'configurations'], 'every MIDI file and import option',
     'tests import a fixed set of files with one map; every note, channel, map shape, track selection and option must obey the rule',
     ['gsio.py'], [('track walk', 'gsio.__fromMidiFormat'), ('meta events', 'gsio.__metaEventsFromMidiFile'),
                   ('note map normalisation', 'gsio.__tagFromMidiNote'), ('tag lookup', 'gsio.__tagsFromMidiNoteAndChannel')],
     ['events, duration and meta data of the imported pattern'])

prop('C04', 'MIDI bytes written are the bytes read back',
     'Reading what the MIDI writer produced gives back the same header values, the same tracks and the same messages with the same ticks, channel and data, for channel messages (with running status), meta messages and system exclusive ones. '
     'Variable-length numbers are written with seven bits per byte, most significant group first and a continuation bit on all but the last, and are read by the inverse rule. '
     'Turning ticks absolute and then relative again (or the reverse) restores every tick.',
     ['inputs', 'histories'], 'every MIDI object and every sequence of messages, values up to 28 bits',
     'the round trip must hold for every number size, message class and status sequence; tests read sample files and never write unusual ones',
     ['midiio.py'], [('variable length numbers', 'midiio.write_varlen / midiio.read_varlen'), ('writer', 'midiio.FileWriter'), ('reader', 'midiio.FileReader'),
                     ('tick conversion', 'midiio.Track.make_ticks_abs / make_ticks_rel')], ['bytes of the file', 'messages read back'])

prop('C05', 'MIDI message classes agree with the MIDI standard',
     'Every kind of MIDI message has its own standard status byte or meta number and the standard number of data bytes, and is found again from it when reading. '
     'Every named value of a message reads what was last written to it (over its legal range), and writing one does not disturb another of the same message. '
     'Copying a message gives an equal one which shares no data with the original.',
     ['inputs', 'programs'], 'every message class, named value and legal value',
     'there are about thirty message classes and tests touch five of them through sample files',
     ['midiio.py'], [('message classes', 'midiio.AbstractEvent and subclasses'), ('registry', 'midiio.EventRegistry')], ['attribute values of messages', 'registry look up'])

prop('C06', 'Time slices hold exactly the events of their window',
     'A time slice of a pattern holds one copy of every event whose onset lies in the half-open window and no other, in the original order, with onsets counted from the window\'s start and, when trimming, nothing lasting beyond it; the slice\'s start and duration are the window\'s. '
     'Splitting into equal lengths puts every event in the piece its onset falls in, cuts it at each boundary it crosses so that total sounding time is conserved, and returns the pieces in time order, each with its start time, without empty ones unless asked for. '
     'Slices made for analysis (per event or whole) hold the events sounding at their time and their value is computed on exactly that slice.',
     ['inputs'], 'every pattern, window, slice length and option',
     'boundary onsets, unsorted events and events spanning many slices are combinations no sample covers',
     ['gspattern.py', 'gsdataset.py'], [('slice', 'Pattern.patternFromTimeSlice'), ('split', 'Pattern.splitInEqualLengthPatterns'), ('viewpoints', 'Pattern.generateViewpoint')],
     ['events of the returned patterns'])

prop('C07', 'Sub-patterns select exactly the requested events',
     'Selecting by tag, by pitch, or excluding tags returns all events that satisfy the selection and no other, in the original order; tags given as a list, a function, an exact tag or a member of tuple tags select as documented. '
     'The selected events are copies unless shared ones are asked for, and patterns derived from another keep its duration, tempo, time signature, key, name, start time, resolution and origin path. '
     'The set of tags and of pitches of a pattern are exactly those of its events.',
     ['inputs', 'configurations'], 'every pattern, selection and option',
     'tests call these helpers with one kind of tag on one collection',
     ['gspattern.py'], [('selection by tags', 'Pattern.getPatternWithTags / getPatternWithoutTags'), ('selection by pitch', 'Pattern.getPatternWithPitch'), ('meta data', 'Pattern.copyWithoutEvents')],
     ['events and fields of the returned pattern'])

prop('C08', 'Questions, exports and analyses never change their input',
     'Comparing, querying, selecting, slicing with copies, printing, exporting, describing, training a style and generating from it leave every pattern, event, MIDI message and caller-supplied map or list as it was, including the order of events. '
     'Changing what such a call returned (copies asked for) never changes the pattern it came from.',
     ['inputs', 'histories'], 'every pattern and every sequence of such calls',
     'absence of side effects is a statement about all paths of some seventy functions; tests never compare the input before and after',
     ['gspattern.py', 'gsio.py', 'gsdescriptors.py', 'gsstyles.py', 'gstransformers.py', 'gsutil.py', 'gsdataset.py', 'gsextractors.py', 'midiio.py'],
     [('copies before edits', 'Event.copy / Pattern.copy / Pattern.copyWithoutEvents'), ('selection with copies', 'Pattern.getPatternWithTags')],
     ['fields of the arguments after the call'])

prop('C09', 'Objects never share hidden mutable state',
     'Two objects created independently share no list, dictionary or other mutable value: no default argument, class-level container, module-level table or caller-owned container is modified or adopted as a modifiable part of a new object. '
     'So using one pattern, style, descriptor, transformer or MIDI object cannot influence another one, nor later calls of the same function.',
     ['histories', 'programs'], 'every history of constructions and calls in one process',
     'leaks through defaults and module tables only show after particular sequences of calls',
     ['gspattern.py', 'gsio.py', 'gsdescriptors.py', 'gsstyles.py', 'gstransformers.py', 'gsutil.py', 'gsdataset.py', 'gsdefs.py', 'midiio.py', 'gsextractors.py'],
     [('fresh containers in constructors', '__init__ methods'), ('copies of caller maps', 'gsio.__tagFromMidiNote')], ['state of other objects'])

prop('C10', 'Tags and equality follow their laws',
     'Two events are equal exactly when onset, duration, pitch, velocity and tag are equal, two patterns when events, duration, time signature and start time are, unequal is always the negation of equal, and comparing with anything else is left to the other operand. '
     'An event has one of several tags when its tag is one of them or, for tuple tags, contains one of them; strings are never compared letter by letter; having a common tag and having equal tags follow from this. '
     'Looking up events identical to a given one returns exactly those whose tag relates to it in the requested way.',
     ['inputs'], 'every pair of events, patterns and tags (strings, tuples, numbers, other values)',
     'laws quantify over all pairs; the passing tests never call the tag comparison helpers',
     ['gspattern.py'], [('equality', 'Event.__eq__ / Pattern.__eq__'), ('tag comparison', 'Event.hasOneOfTags / hasCommonTagWith / isTag')], ['returned booleans'])

prop('C11', 'Events are active on half-open intervals',
     'An event ends at its onset plus its duration and is active from its onset, included, to its end, excluded; the events active at a time are exactly those, in order. '
     'The events starting at a time are those whose onset lies at that time or earlier by at most the tolerance. '
     'The last note-off of a pattern is the latest end of any event whatever the order of events, and nothing for an empty pattern.',
     ['inputs'], 'every pattern, event and time',
     'boundary times and unsorted events are measure-zero cases tests do not enumerate',
     ['gspattern.py'], [('activity', 'Event.containsTime / Pattern.activeEventsAtTime'), ('starting events', 'Pattern.getStartingEventsAtTime'), ('last end', 'Pattern.lastNoteOff')], ['returned events and times'])

prop('C12', 'Edits change exactly what they name',
     'Adding an event appends it and extends the duration only when the event ends later; removing an event removes all events equal to it and nothing else; removing by tags removes exactly the events having one of them. '
     'Time-stretching multiplies every onset, every duration and the pattern\'s duration by the ratio; transposing adds the interval to every pitch and renames the tag after the new pitch; reordering sorts by onset stably. '
     'Cutting an event in steps gives consecutive copies of the step\'s length, and fitting the duration to the last event or to a bar changes the duration only, as documented.',
     ['inputs', 'histories'], 'every pattern, event and parameter, and every sequence of edits',
     'each edit must hold for all patterns, duplicates, orders and parameters; tests stretch and transpose nothing reliably',
     ['gspattern.py', 'gsutil.py'], [('edit methods', 'Pattern.addEvent / removeEvent / removeByTags / timeStretch / transpose / reorderEvents / durationToLastEvent / durationToBar'), ('cutting', 'Event.cutInSteps')],
     ['fields of the pattern and its events after the call'])

prop('C13', 'Filling gaps leaves sounding events alone',
     'Filling with silences keeps every event unchanged and in time order and adds silence events (zero velocity, given tag and pitch) that cover exactly the time no event covers between the start and the pattern\'s duration, in pieces no longer than the maximum when one is given; done per tag it treats each voice by itself. '
     'The filled copy leaves the original untouched. '
     'Legato and filling with the previous event only lengthen or shorten durations, up to the next onset (of the voice, or of any event) or the pattern\'s end.',
     ['inputs', 'configurations'], 'every pattern, order of events, overlap and maximum silence time',
     'the passing test samples a few random patterns and checks one consequence',
     ['gspattern.py'], [('silence', 'Pattern.fillWithSilences / getFilledWithSilences'), ('previous event', 'Pattern.fillWithPreviousEvent'), ('legato', 'Pattern.applyLegato')], ['events after the call'])

prop('C14', 'Aligning, quantising and overlap removal follow the grid',
     'Aligning on a grid moves every onset to the nearest step, gives every event one step of duration, repeats only events having a repeatable tag on each step they span, and drops only events moved past the end. '
     'Quantising moves onsets and durations to the nearest multiple of the step (a short duration becomes one step) as enabled. '
     'Removing overlaps shortens an event where the next one of the same tag (or pitch) starts inside it and drops only events starting together with such an event.',
     ['inputs', 'configurations'], 'every pattern, step size and option',
     'rounding boundaries and overlap chains are inputs no sample list exhausts',
     ['gspattern.py'], [('grid', 'Pattern.alignOnGrid'), ('quantise', 'Pattern.quantize'), ('overlaps', 'Pattern.removeOverlapped')], ['events after the call'])

prop('C15', 'Descriptors compute what they are defined to be',
     'Density is the summed duration of the events left after dropping ignored tags and keeping included ones; the number of tags counts distinct tags of the same events. '
     'Syncopation adds, over the steps that sound and are followed by a silent one (cyclically), the difference of their metrical weights. '
     'The chord of a pattern is the best scoring root and chord profile for the pitch-class densities, reported as silence when nothing sounds, and a feature space holds each descriptor\'s value under its own name.',
     ['inputs', 'configurations'], 'every pattern and descriptor option',
     'tests check two densities and a handful of chords',
     ['gsdescriptors.py', 'gsextractors.py'], [('descriptors', 'Density / NumberOfTags / Syncopation / Chord'), ('profiles', 'intervalListToProfile / convolveWithPitchProfile / findBestScoreForProfiles')], ['returned value'])

prop('C16', 'Music theory tables are consistent',
     'Every chord name has one set of semitones and one sequence of spelled intervals which describe the same chord; every key number has one name and distinct numbers have distinct names; the twelve default pitch names and the spelled-pitch table agree with each other in both accidentals. '
     'Note names of a MIDI pitch are its pitch class name followed by its octave, the same for every octave, and drum maps assign legal MIDI notes.',
     ['inputs', 'programs'], 'every entry of every table, every pitch',
     'a wrong entry only shows for the chord, key or pitch concerned; tests look at a few chords',
     ['gsdefs.py', 'gsutil.py'], [('chord tables', 'gsdefs.chordTypes / gsdefs.chordIntervals'), ('names', 'gsdefs.pitch40 / defaultPitchNames / midiKey'), ('naming', 'gsutil.pitch2name / pc2note / pc2base40 / makeChord')], ['table contents', 'returned names'])

prop('C17', 'Markov styles learn and follow their transition table',
     'Training counts, for every step of every training pattern brought to the grid, which event combination follows which past of the given order, and turns the counts of each past into probabilities that add up to one; the training patterns are left as they were. '
     'A generated pattern only contains combinations found in the table after their past, placed at their step, lasts the loop duration and has no event for silence. '
     'States offered for a step are exactly those in the table, also for negative and wrapped steps.',
     ['inputs', 'histories', 'configurations'], 'every list of patterns, order, number of steps, loop duration and seed',
     'tests train on one collection, and most of the markov tests do not run here',
     ['gsstyles.py'], [('training', 'PatternMarkov.buildTransitionTable'), ('generation', 'PatternMarkov.generatePattern'), ('state queries', 'PatternMarkov.getPossible*')], ['transition table', 'generated pattern'])

prop('C18', 'Styles can be saved, restored and used alike',
     'Every style offers the operations of the common interface with the same parameters, so callers can use any style in place of another. '
     'Restoring a saved state (dictionary, JSON file or pickle file) gives a style with the same table or pattern list and parameters as the one saved, and saving changes nothing. '
     'A style reports being built exactly when it has something to generate from, and a database style returns stored patterns by the selected ordering.',
     ['inputs', 'histories', 'programs'], 'every style, state and sequence of saves and loads',
     'no passing test saves or restores a style',
     ['gsstyles.py'], [('interface', 'BaseStyle'), ('states', 'getInternalState / setInternalState'), ('files', 'BaseStyle.saveToJSON / loadFromJSON / saveToPickle / loadFromPickle')], ['restored style', 'saved state'])

prop('C19', 'Seeded generation is reproducible',
     'Whatever is generated with a given seed is the same each time it is asked for from the same trained style, within and across processes: every random choice is drawn from a generator seeded with that value after the seed is known and before the first choice. '
     'No choice depends on the iteration order of an unordered collection of strings or objects.',
     ['histories', 'configurations'], 'every seed and style, across runs and processes',
     'tests generate once and never compare two runs',
     ['gsstyles.py'], [('seeding', 'PatternMarkov.generatePattern / DatabaseStyle.generatePattern')], ['generated pattern'])

prop('C20', 'Density transformation keeps its books',
     'Each tag\'s notes and silences always partition the steps of the loop; adding an event moves one step from silences to notes and adds one event of that tag there, removing does the reverse and deletes that event, and steps added or removed beyond the original are remembered so that they can be undone. '
     'Building the density map works on a stretched, grid-aligned copy of the given pattern; its original is left alone, and the result is stretched back to its duration.',
     ['inputs', 'histories'], 'every pattern, density request and sequence of requests',
     'the density tests do not run here, and histories of requests are unbounded',
     ['gstransformers.py'], [('bookkeeping', 'AgnosticDensity.addEventForTag / removeEventForTag'), ('map', 'AgnosticDensity.buildDensityMap / resetDensities / createCurrentState')], ['current pattern and state'])

prop('C21', 'No path ends in an undefined name or impossible call',
     'On every path through the library, each variable, function, attribute, module and constant that is used exists when it is used, and each call passes arguments its callee accepts. '
     'A call therefore never fails for a reason internal to the library, only for bad input.',
     ['inputs', 'programs'], 'every path of every function in the package',
     'a misspelt name on an error path, or in a function no test reaches, is never executed by tests',
     ['gspattern.py', 'gsio.py', 'gsdescriptors.py', 'gsstyles.py', 'gstransformers.py', 'gsutil.py', 'gsdataset.py', 'gsdefs.py', 'midiio.py', 'gsextractors.py', 'gslog.py', 'bassmine.py'],
     [('name resolution', 'all modules')], ['absence of NameError, AttributeError, TypeError'])

prop('C22', 'Functions that answer always answer',
     'A function documented or used for its result returns one of the same kind on every path that ends normally, never silently nothing on some paths, except where nothing is the documented answer. '
     'Constructors, setters and in-place edits aside, a computed answer is never thrown away.',
     ['inputs', 'programs'], 'every path of every value-returning function',
     'a branch that falls through without a result shows only for the inputs that take it',
     ['gspattern.py', 'gsio.py', 'gsdescriptors.py', 'gsstyles.py', 'gstransformers.py', 'gsutil.py', 'gsdataset.py', 'midiio.py', 'gsextractors.py', 'bassmine.py'],
     [('return statements', 'all value-returning functions')], ['returned values'])

prop('C23', 'Every file opened is closed on every path',
     'Every file the library opens is closed when the operation ends, normally or by an exception, and is opened in the mode its content needs (binary for MIDI and pickle, for writing only when something is saved). '
     'Saving creates the missing folder first and writes only the one file whose path it returns or was given.',
     ['inputs', 'fault_sequences'], 'every load and save, including ones that fail half-way',
     'a leaked handle or wrong mode shows only on failing paths or other platforms',
     ['gsio.py', 'midiio.py', 'gsstyles.py', 'bassmine.py'], [('context managers', 'open calls in gsio, midiio, gsstyles')], ['open files'])

prop('C24', 'Every documented option has its effect',
     'Every parameter a public function accepts influences its behaviour as documented, and is passed on unchanged to the helpers that implement it. '
     'Options with defaults behave, when given their default explicitly, as when left out.',
     ['configurations', 'programs'], 'every parameter of every public function',
     'an option that is dropped on the way changes nothing in runs that use the default',
     ['gspattern.py', 'gsio.py', 'gsdescriptors.py', 'gsstyles.py', 'gstransformers.py', 'gsutil.py', 'gsdataset.py', 'midiio.py'],
     [('parameter flow', 'all public functions')], ['behaviour under non-default options'])

prop('C25', 'Collections load every file with the same options',
     'Loading a collection or dataset yields one pattern per matching file (or its equal-length slices when asked for), each imported with the map, tracks and options given, and nothing from other files. '
     'Dataset-wide operations apply to each of its patterns exactly once, with the parameters given.',
     ['inputs', 'configurations'], 'every folder content, pattern of names and option',
     'tests load one folder with one set of options',
     ['gsio.py', 'gsdataset.py'], [('collection', 'gsio.fromMidiCollection'), ('dataset', 'Dataset.importMidi / getAllSliceOfDuration / generateViewpoint')], ['list of patterns'])

prop('C26', 'Random choices follow the learned distribution',
     'Over many generations the relative frequency of each continuation converges to its learned probability, and random list shuffles are uniform.',
     ['histories'], 'all seeds', 'a statement about frequencies over unboundedly many runs',
     ['gsstyles.py', 'gstransformers.py', 'bassmine.py'], [('sampling', 'PatternMarkov.generatePattern')], ['frequencies'])

prop('C27', 'Chord recognition names the chord a musician hears',
     'For any voicing, doubling and inversion of a known chord, the recognised root and type are those of that chord.',
     ['inputs'], 'all chords and voicings', 'perceptual and numerical',
     ['gsdescriptors.py'], [('scoring', 'findBestScoreForProfiles')], ['returned chord'])

prop('C28', 'The bass line model generates stylistically valid bass lines',
     'Bass lines generated by the rhythm model follow the learned temporal and kick-interlocking distributions at every step.',
     ['inputs', 'histories'], 'all corpora and seeds', 'statistical, and depends on an array library that is not part of the environment',
     ['bassmine.py'], [('model', 'MarkovModel')], ['generated rhythm'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p) + '\n')
print(len(P))
