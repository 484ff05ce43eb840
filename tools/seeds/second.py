SEEDS = [
dict(id='c01-indexed-velocities-cut', property='C01',
  edits=[('gspattern.py', "'velocity': e.velocity,\n                                      'tagsIdx'", "'velocity': int(e.velocity),\n                                      'tagsIdx'")],
  needs='a velocity that is no whole number, saved with indexed tags',
  breaks='velocities are cut to whole numbers when tags are saved by index',
  demo='''
p = Pattern(4, [Event(0, 1, 60, 80.5, "a"), Event(1, 1, 61, 90, ("b", "c"))], name="t")
for indexed in (True, False):
    q = Pattern().fromJSONDict(p.toJSONDict(indexed))
    check(p == q, "indexed=%r: %r" % (indexed, [e.velocity for e in q.events]))
'''),
dict(id='c02-note-zero-of-map', property='C02',
  edits=[('gsio.py', "pitch = midiMap.get(tag, e.pitch)", "pitch = midiMap.get(tag) or e.pitch")],
  needs='a tag mapped to MIDI note 0',
  breaks='a tag mapped to note 0 is written at the pitch of the event instead',
  demo='''
p = Pattern(4, [Event(0, 1, 60, 80, "a"), Event(1, 1, 61, 80, "b")], name="t")
f = gsio.toMidiFile(p, midiMap={"a": 0, "b": 5}, folderPath=TMP)
m = midiio.read_midifile(f)
got = [e.pitch for t in m for e in t if isinstance(e, midiio.NoteOnEvent)]
check(got == [0, 5], repr(got))
'''),
dict(id='c03-duration-of-longest-track', property='C03',
  edits=[('gsio.py', "trackDuration = max(trackDuration, thisDuration) if trackDuration else thisDuration", "trackDuration = thisDuration")],
  needs='several tracks, the last of which is not the longest',
  breaks='the pattern takes the length of the last track instead of the longest',
  demo='''
m = midiio.Pattern(resolution=100)
for n, end in ((0, 800), (1, 200)):
    t = midiio.Track()
    m.append(t)
    t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=60 + n, velocity=90))
    t.append(midiio.NoteOffEvent(tick=100, channel=0, pitch=60 + n, velocity=0))
    t.append(midiio.EndOfTrackEvent(tick=end - 100))
f = os.path.join(TMP, "x.mid")
midiio.write_midifile(f, m)
check(gsio.fromMidiFile(f).duration == 8, "%r" % gsio.fromMidiFile(f).duration)
'''),
dict(id='c05-tempo-loses-top-bits', property='C05',
  edits=[('midiio.py', "self.data = [(val >> (16 - (8 * x)) & 0xFF) for x in range(3)]", "self.data = [(val >> (16 - (8 * x)) & 0x7F) for x in range(3)]")],
  needs='a tempo one of whose three bytes is 128 or more',
  breaks='the top bit of each byte of a tempo is lost',
  demo='''
for bpm in (30, 60, 90, 120, 140, 77):
    e = midiio.SetTempoEvent(bpm=bpm)
    check(abs(e.bpm - bpm) < 0.01, "%r read as %r" % (bpm, e.bpm))
'''),
dict(id='c06-window-at-shifted-start', property='C06',
  edits=[('gspattern.py', "patterns[numPattern].startTime = p * desiredLength", "patterns[numPattern].startTime = p * int(desiredLength)")],
  needs='a piece length that is no whole number',
  breaks='pieces of fractional length say they start at the wrong time',
  demo='''
p = Pattern(6, [Event(i, 0.5, 60, 80, "a") for i in range(6)], name="t")
got = [q.startTime for q in p.splitInEqualLengthPatterns(1.5)]
check(got == [0, 1.5, 3, 4.5], repr(got))
'''),
dict(id='c06-per-event-duration-first', property='C06',
  edits=[('gspattern.py', """                            if eT > pattern.duration:
                                pattern.duration = eT
                        lastTime""", """                            pattern.duration = eT
                        lastTime""")],
  needs='events that start together and end apart, the longest not last',
  breaks='the piece of an onset is as long as its last event instead of the longest',
  demo='''
class D(object):
    def getDescriptorForPattern(self, p):
        return p.duration
p = Pattern(8, [Event(0, 3, 60, 80, "a"), Event(0, 1, 64, 80, "b"), Event(4, 1, 60, 80, "a")], name="t")
v = p.generateViewpoint("len", D(), "perEvent")
check([(e.startTime, e.duration, e.tag) for e in v.events] == [(0, 3, 3), (4, 1, 1)], repr([(e.startTime, e.duration) for e in v.events]))
'''),
dict(id='c07-without-inexact-member', property='C07',
  edits=[('gspattern.py', """            if exactSearch:
                boolFunction = lambda inTags: inTags == tagToLookFor
            else:
                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
                isinstance(inTags, tuple) and tagToLookFor in inTags)

        res = self.copyWithoutEvents()
        for e in self.events:
            needToExclude""", """            if exactSearch:
                boolFunction = lambda inTags: inTags == tagToLookFor
            else:
                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
                isinstance(inTags, tuple) and tagToLookFor == inTags[0])

        res = self.copyWithoutEvents()
        for e in self.events:
            needToExclude""")],
  needs='leaving out a tag that is the second member of a tuple tag',
  breaks='only the first member of a tuple tag counts when events are left out',
  demo='''
p = Pattern(4, [Event(0, 1, 60, 80, ("C", "maj")), Event(1, 1, 61, 80, ("A", "min")), Event(2, 1, 61, 80, "maj")], name="t")
got = [e.tag for e in p.getPatternWithoutTags("maj").events]
check(got == [("A", "min")], repr(got))
'''),
dict(id='c07-list-means-members', property='C07',
  edits=[('gspattern.py', """            boolFunction = lambda inTags: inTags in tagToLookFor
        elif callable(tagToLookFor):
            boolFunction = tagToLookFor
        else:
            # tuple / string or any hashable object
            if exactSearch:
                boolFunction = lambda inTags: inTags == tagToLookFor
            else:
                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
                isinstance(inTags, tuple) and tagToLookFor in inTags)

        res = self.copyWithoutEvents()
        for e in self.events:
            found""", """            boolFunction = lambda inTags: inTags in tuple(tagToLookFor[:16])
        elif callable(tagToLookFor):
            boolFunction = tagToLookFor
        else:
            # tuple / string or any hashable object
            if exactSearch:
                boolFunction = lambda inTags: inTags == tagToLookFor
            else:
                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
                isinstance(inTags, tuple) and tagToLookFor in inTags)

        res = self.copyWithoutEvents()
        for e in self.events:
            found""")],
  needs='a list of more than sixteen tags',
  breaks='tags after the sixteenth of the list are not looked for',
  demo='''
tags = ["t%d" % i for i in range(20)]
p = Pattern(20, [Event(i, 1, 60, 80, t) for i, t in enumerate(tags)], name="t")
got = [e.tag for e in p.getPatternWithTags(tags, exactSearch=False).events]
check(got == tags, repr(got))
'''),
dict(id='c08-export-sorts-input', property='C08',
  edits=[('gsio.py', "for e in sorted(myPattern.events, key=lambda x: x.startTime):", "myPattern.events.sort(key=lambda x: x.startTime)\n    for e in myPattern.events:")],
  needs='a pattern whose events are out of order',
  breaks='writing a MIDI file reorders the events of the pattern',
  demo='''
p = Pattern(4, [Event(2, 1, 60, 80, "a"), Event(0, 1, 61, 80, "b")], name="t")
gsio.toMidiFile(p, folderPath=TMP)
check([e.tag for e in p.events] == ["a", "b"], repr([e.tag for e in p.events]))
'''),
dict(id='c08-training-shares-events', property='C08',
  edits=[('gsstyles.py', "self.binarizedPatterns = copy.deepcopy(self.originPatterns)", "self.binarizedPatterns = [copy.copy(p) for p in self.originPatterns]")],
  needs='looking at the training patterns after training',
  breaks='training stretches the events of the patterns it is given',
  demo='''
p = Pattern(4, [Event(i * 0.5, 0.5, 60, 80, "a") for i in range(8)], name="t")
m = gsstyles.MarkovStyle(1, 8, 4)
m.generateStyle([p])
check([e.startTime for e in p.events] == [i * 0.5 for i in range(8)], repr([e.startTime for e in p.events]))
'''),
dict(id='c09-import-rewrites-note-map', property='C09',
  edits=[('gsio.py', "noteToTag = copy.copy(_noteToTag)", "noteToTag = _noteToTag")],
  needs='using one note map for two imports, or reading it afterwards',
  breaks='importing rewrites the note map of the caller',
  demo='''
m = midiio.Pattern(resolution=100)
t = midiio.Track()
m.append(t)
t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=60, velocity=90))
t.append(midiio.NoteOffEvent(tick=100, channel=0, pitch=60, velocity=0))
t.append(midiio.EndOfTrackEvent(tick=0))
f = os.path.join(TMP, "x.mid")
midiio.write_midifile(f, m)
notes = {"kick": 60, "other": [61, (62, 3)]}
gsio.fromMidiFile(f, notes)
check(notes == {"kick": 60, "other": [61, (62, 3)]}, repr(notes))
'''),
dict(id='c09-copy-without-events-viewpoints', property='C09',
  edits=[('gspattern.py', "        p.name = self.name\n", "        p.name = self.name\n        p.viewpoints = self.viewpoints\n")],
  needs='generating a viewpoint on a pattern derived from another',
  breaks='a derived pattern and its source share one table of viewpoints',
  demo='''
p = Pattern(4, [Event(0, 1, 60, 80, "a"), Event(1, 1, 64, 80, "b")], name="t")
q = p.getPatternWithTags("a")
q.generateViewpoint("chords")
check(p.viewpoints == {}, repr(list(p.viewpoints)))
'''),
dict(id='c10-equality-whole-velocities', property='C10',
  edits=[('gspattern.py', "(self.velocity == other.velocity) and (self.duration == other.duration) and (self.tag == other.tag)", "(int(self.velocity) == int(other.velocity)) and (self.duration == other.duration) and (self.tag == other.tag)")],
  needs='two events that differ by less than one in velocity only',
  breaks='events of different velocity are equal',
  demo='''
check(Event(0, 1, 60, 80.25, "a") != Event(0, 1, 60, 80.75, "a"), "equal events of velocity 80.25 and 80.75")
check(Event(0, 1, 60, 80.25, "a") == Event(0, 1, 60, 80.25, "a"), "an event differs from itself")
'''),
dict(id='c10-tag-is-identity', property='C10',
  edits=[('gspattern.py', "        return self.tag == tag\n", "        return self.tag is tag or (self.tag == tag and type(self.tag) is type(tag))\n")],
  needs='a chord tag compared with the plain tuple that equals it',
  breaks='a chord tag and an equal tuple are the same tag in comparisons but not in isTag',
  demo='''
from gsapi.gsdescriptors import ChordTag
e = Event(0, 1, 60, 80, ChordTag(("C", "maj")))
check(e.isTag(("C", "maj")), "isTag of an equal tag")
check(e.allTagsAreEqualWith(Event(0, 1, 60, 80, ("C", "maj"))), "all tags equal")
'''),
dict(id='c11-contains-end', property='C11',
  edits=[('gspattern.py', "        return (time >= self.startTime) and (\n        time < self.startTime + self.duration)", "        return (time - self.startTime >= 0) and (\n        time - self.startTime < max(self.duration, 0.001))")],
  needs='an event without duration',
  breaks='an event of no duration is active at its onset for one question and not for the other',
  demo='''
e = Event(1, 0, 60, 80, "a")
check(not e.containsTime(1), "an event without duration contains its onset")
p = Pattern(4, [e])
check((e in p.activeEventsAtTime(1)) == e.containsTime(1), "active and containing disagree")
'''),
dict(id='c11-starting-tolerance-two-sided', property='C11',
  edits=[('gspattern.py', "if time - e.startTime >= 0 and time - e.startTime <= tolerance:", "if time - e.startTime >= 0 and (time - e.startTime <= tolerance or e.duration < tolerance):")],
  needs='a tolerance, and an earlier event shorter than it',
  breaks='short events of any earlier time count as starting now',
  demo='''
p = Pattern(8, [Event(0, 0.25, 60, 80, "a"), Event(4, 1, 60, 80, "b")])
check([e.tag for e in p.getStartingEventsAtTime(4, 0.5)] == ["b"], repr(p.getStartingEventsAtTime(4, 0.5)))
'''),
dict(id='c12-remove-shifts', property='C12',
  edits=[('gspattern.py', "        for i in reversed(idxToRemove):", "        for i in sorted(idxToRemove, reverse=len(idxToRemove) < 3):")],
  needs='removing an event that occurs three times or more',
  breaks='later events are removed instead, as indexes shift',
  demo='''
e = Event(0, 1, 60, 80, "a")
p = Pattern(4, [e, Event(1, 1, 61, 80, "b"), e.copy(), Event(2, 1, 62, 80, "c"), e.copy(), Event(3, 1, 63, 80, "d"), Event(3, 1, 64, 80, "e")])
p.removeEvent(e)
check([x.tag for x in p.events] == ["b", "c", "d", "e"], repr([x.tag for x in p.events]))
'''),
dict(id='c13-legato-last-by-own-end', property='C13',
  edits=[('gspattern.py', "            diff = myPattern.duration - myPattern[-1].endTime()\n", "            diff = self.duration - max(e.endTime() for e in self.events)\n")],
  needs='a voice that ends before another one',
  breaks='the last event of a voice is stretched by the gap at the end of the whole pattern',
  demo='''
p = Pattern(8, [Event(0, 1, 60, 80, "a"), Event(4, 3, 64, 80, "b")])
p.applyLegato()
check([(e.tag, e.duration) for e in p.events] == [("a", 8), ("b", 4)], repr([(e.tag, e.duration) for e in p.events]))
'''),
dict(id='c13-silence-grid-drift', property='C13',
  edits=[('gspattern.py', "                        while e.startTime - lastOff > maxSilenceTime:", "                        while e.startTime - lastOff > 2 * maxSilenceTime:")],
  needs='a gap of more than one and at most two silences',
  breaks='a silence of more than the allowed length is filled in',
  demo='''
p = Pattern(4, [Event(2, 2, 60, 80, "a")])
p.fillWithSilences(maxSilenceTime=1)
check([(e.startTime, e.duration) for e in p.events] == [(0, 1), (1, 1), (2, 2)], repr([(e.startTime, e.duration) for e in p.events]))
'''),
dict(id='c14-quantize-duration-zero', property='C14',
  edits=[('gspattern.py', "                if e.duration < (stepSize * 0.5):\n                    e.duration = stepSize", "                if e.duration < (stepSize * 0.5) and e.duration > 0:\n                    e.duration = stepSize")],
  needs='an event without duration',
  breaks='an event without duration stays without duration when durations are quantised',
  demo='''
p = Pattern(4, [Event(0, 0, 60, 80, "a"), Event(1, 0.05, 60, 80, "b")])
p.quantize(0.25)
check([e.duration for e in p.events] == [0.25, 0.25], repr([e.duration for e in p.events]))
'''),
dict(id='c15-syncopation-wraps', property='C15',
  edits=[('gsdescriptors.py', "            nextT = (t + 1) % self.duration\n", "            nextT = min(t + 1, self.duration - 1)\n")],
  needs='a note on the last step and none on the first',
  breaks='a syncopation over the bar line does not count',
  demo='''
p = Pattern(4, [Event(3, 1, 60, 80, "a")])
check(gsdescriptors.Syncopation().getDescriptorForPattern(p) == 2, repr(gsdescriptors.Syncopation().getDescriptorForPattern(p)))
'''),
dict(id='c16-octave-below-zero', property='C16',
  edits=[('gsutil.py', "return gsdefs.pitch40[base40[pitch_class % 12]]", "return gsdefs.pitch40[base40[pitch_class] if pitch_class < 12 else base40[pitch_class % 12]]")],
  needs='a negative pitch class below -12', breaks='pitch classes below -12 have no name',
  demo='''
for pc in range(-40, 40):
    check(gsutil.pc2note(pc) == gsutil.pc2note(pc % 12), "pitch class %d" % pc)
'''),
dict(id='c16-flat-base40', property='C16',
  edits=[('gsutil.py', "base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]\n    else:\n        raise Exception(\"alt should be either '#' or 'b'\")\n    return base40", "base40 = [2, 7, 8, 13, 14, 19, 23, 25, 30, 31, 36, 37]\n    else:\n        raise Exception(\"alt should be either '#' or 'b'\")\n    return base40")],
  needs='the flat spelling of pitch class six',
  breaks='G flat has the number of G double flat',
  demo='''
for alt in ("#", "b"):
    for pc in range(12):
        check(gsdefs.pitch40[gsutil.pc2base40(pc, alt)] == gsutil.pc2note(pc, alt), "%d %s" % (pc, alt))
'''),
dict(id='c17-past-at-zero', property='C17',
  edits=[('gsstyles.py', """    def getLastEvents(self, pattern, step, num, stepSize):
        events = []
        for i in reversed(range(1, num + 1)):
            idx = step - i * stepSize
            if idx < 0:
                idx += pattern.duration
            events += [pattern.getStartingEventsAtTime(idx)]
        return events

    def getInternalState(self):
        \"\"\"utility""", """    def getLastEvents(self, pattern, step, num, stepSize):
        events = []
        for i in reversed(range(1, num + 1)):
            idx = step - i * stepSize
            if idx <= 0:
                idx += pattern.duration
            events += [pattern.getStartingEventsAtTime(idx)]
        return events

    def getInternalState(self):
        \"\"\"utility""")],
  needs='the state of the second step',
  breaks='the past of the second step is nothing instead of the first step',
  demo='''
m = gsstyles.PatternMarkov(1, 4, 4)
m.generateTransitionTableFromPatternList([Pattern(4, [Event(i, 1, 60, 80, "abcd"[i]) for i in range(4)])])
check(list(m.transitionTable[1]) == [(("a",),)], repr(m.transitionTable[1]))
'''),
dict(id='c17-normalised-once', property='C17',
  edits=[('gsstyles.py', """                    sum = 0
                    for pe""", """                    sum = 1 if len(t[d]) == 1 else 0
                    for pe""")],
  needs='a state always followed by the same event',
  breaks='the probability of a certain event is below one',
  demo='''
m = gsstyles.PatternMarkov(1, 4, 4)
m.generateTransitionTableFromPatternList([Pattern(4, [Event(i, 1, 60, 80, "abcd"[i]) for i in range(4)])])
for step in m.transitionTable:
    for past in step:
        check(abs(sum(step[past].values()) - 1) < 1e-9, repr(step))
'''),
dict(id='c18-loads-nothing-if-built', property='C18',
  edits=[('gsstyles.py', "        self.markovChain.setInternalState(state[\"markovChain\"])", "        if not self.markovChain.transitionTable:\n            self.markovChain.setInternalState(state[\"markovChain\"])")],
  needs='restoring a state into a style that was trained before',
  breaks='a trained style keeps its own table when a state is restored',
  demo='''
a, b = gsstyles.MarkovStyle(1, 4, 4), gsstyles.MarkovStyle(1, 4, 4)
a.generateStyle([Pattern(4, [Event(i, 1, 60, 80, "abcd"[i]) for i in range(4)])])
b.generateStyle([Pattern(4, [Event(i, 1, 60, 80, "dcba"[i]) for i in range(4)])])
b.setInternalState(a.getInternalState())
check(b.markovChain.transitionTable == a.markovChain.transitionTable, "table of the restored style")
'''),
dict(id='c20-keeps-added-notes', property='C20',
  edits=[('gstransformers.py', """        else:
            self.currentState[tag]['addedNotes'] += [idxToAdd]
""", """        elif targetDensity > 1:
            self.currentState[tag]['addedNotes'] += [idxToAdd]
""")],
  needs='raising a density from exactly one',
  breaks='the first note added from density one is not noted as added, so it is not taken back first',
  demo='''
import random
random.seed(3)
t = gstransformers.AgnosticDensity(numSteps=8)
t.buildDensityMap(Pattern(8, [Event(0, 1, 60, 80, "a"), Event(2, 1, 60, 80, "a")]))
s = t.currentState["a"]
before = set(s["silences"])
t.addEventForTag("a", 1)
check(set(s["addedNotes"]) == before - set(s["silences"]), repr(s))
'''),
dict(id='c22-empty-tags-answer', property='C22',
  edits=[('gspattern.py', """                return True
        return False

    def isTag""", """                return True
        if tags:
            return False

    def isTag""")],
  needs='asking for one of no tags',
  breaks='the question has no answer (None) if no tags are given',
  demo='''
e = Event(0, 1, 60, 80, "a")
check(e.hasOneOfTags([]) is False and e.hasOneOfTags(["b"]) is False and e.hasOneOfTags(["a"]) is True, repr(e.hasOneOfTags([])))
'''),
dict(id='c22-empty-pattern-no-answer', property='C22',
  edits=[('gsdescriptors.py', """            if self.noteGrid[t] and not self.noteGrid[nextT]:
                syncopation += abs(self.weights[nextT] - self.weights[t])
        return syncopation""", """            if self.noteGrid[t] and not self.noteGrid[nextT]:
                syncopation += abs(self.weights[nextT] - self.weights[t])
        if self.duration:
            return syncopation""")],
  needs='a pattern without duration',
  breaks='the syncopation of a pattern without duration is None instead of a number',
  demo='''
check(gsdescriptors.Syncopation().getDescriptorForPattern(Pattern(4, [Event(0, 1, 60, 80, "a")])) is not None, "length 4")
try:
    got = gsdescriptors.Syncopation().getDescriptorForPattern(Pattern(0))
except ZeroDivisionError:
    got = 0
check(got is not None, "no answer")
'''),
dict(id='c23-json-dump-unclosed', property='C23',
  edits=[('gsstyles.py', """        with open(filePath, 'w') as f:
            json.dump(state, f)
""", """        f = open(filePath, 'w')
        json.dump(state, f)
        f.close()
""")],
  needs='a state that json cannot write',
  breaks='the file stays open if the state cannot be written',
  demo='''
import json
opened = []
class Style(gsstyles.DatabaseStyle):
    def getInternalState(self):
        return {"x": object()}
import __builtin__
real = __builtin__.open
def watch(*a):
    f = real(*a)
    opened.append(f)
    return f
__builtin__.open = watch
try:
    Style().saveToJSON(os.path.join(TMP, "x.json"))
except TypeError:
    pass
__builtin__.open = real
check(opened and all(f.closed for f in opened), "a file is left open")
'''),
dict(id='c24-indexing-option-lost', property='C24',
  edits=[('gspattern.py', "v.toJSONDict(useTagIndexing) for k, v in", "v.toJSONDict() for k, v in")],
  needs='saving a pattern with viewpoints without tag indexing',
  breaks='viewpoints are saved with indexed tags whatever the option says',
  demo='''
p = Pattern(4, [Event(0, 4, 60, 80, "a"), Event(0, 4, 64, 80, "b"), Event(0, 4, 67, 80, "c")], name="t")
p.generateViewpoint("chords")
check("eventTags" not in p.toJSONDict(False)["viewpoints"]["chords"], "indexed tags")
check("eventTags" in p.toJSONDict(True)["viewpoints"]["chords"], "no indexed tags")
'''),
dict(id='c24-duplicates-lost-with-majmin', property='C24',
  edits=[('gsdescriptors.py', "bestScore = findBestScoreForProfiles(chromas, profileToConsider, penalityWeight=pattern.duration / 2.0,\n                                             allowDuplicates=self.allowDuplicates)",
 "bestScore = findBestScoreForProfiles(chromas, profileToConsider, penalityWeight=pattern.duration / 2.0,\n                                             allowDuplicates=self.allowDuplicates and not self.forceMajMin)\n        if self.allowDuplicates and self.forceMajMin:\n            bestScore = [bestScore]")],
  needs='both options of the chord descriptor, on notes that fit two chords',
  breaks='duplicates are not listed when only major and minor are asked for',
  demo='''
c = gsdescriptors.Chord(forceMajMin=True, allowDuplicates=True)
p = Pattern(4, [Event(0, 4, 60, 80, "a"), Event(0, 4, 67, 80, "b")], name="t")
got = sorted(tuple(x) for x in c.getDescriptorForPattern(p))
check(got == [("C", "maj"), ("C", "min")], repr(got))
'''),
dict(id='c25-folder-length-of-first', property='C25',
  edits=[('gsio.py', "p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)", "p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped or bool(res))")],
  needs='a folder of several files holding notes that are not mapped, which should be kept',
  breaks='notes that are not mapped are kept in the first file only',
  demo='''
for n in ("a", "b"):
    m = midiio.Pattern(resolution=100)
    t = midiio.Track()
    m.append(t)
    t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=60, velocity=90))
    t.append(midiio.NoteOffEvent(tick=100, channel=0, pitch=60, velocity=0))
    t.append(midiio.EndOfTrackEvent(tick=0))
    midiio.write_midifile(os.path.join(TMP, n + ".mid"), m)
got = [len(p.events) for p in gsio.fromMidiCollection(os.path.join(TMP, "*.mid"), {"x": 1}, filterOutNotMapped=False)]
check(got == [1, 1], repr(got))
'''),
]
