SEEDS = [
dict(id='c02-end-tick-from-duration', property='C02',
  edits=[('gsio.py', "endTick = int(beatToTick * e.endTime())", "endTick = startTick + int(beatToTick * e.duration)")],
  needs='an event whose onset and duration both fall between ticks of the resolution',
  breaks='the note-off is written one tick before the end of the event, as onset and duration are rounded down separately',
  demo='''
p = Pattern(4, [Event(0.3, 0.3, 60, 80, "a")], name="t")
p.resolution = 5          # onset 1.5 ticks, end 3.0 ticks
f = gsio.toMidiFile(p, folderPath=TMP)
m = midiio.read_midifile(f)
m.make_ticks_abs()
offs = [e.tick for t in m for e in t if isinstance(e, midiio.NoteOffEvent)]
check(offs == [int(5 * (0.3 + 0.3))], "note-off at %r" % offs)
'''),
dict(id='c03-note-off-closes-other-tag', property='C03',
  edits=[('gsio.py', "if (i.pitch == pitch) and (i.tag == noteTag) and (", "if (i.pitch == pitch) and (")],
  needs='the same pitch sounding at once on two channels that the note map tells apart',
  breaks='a note-off closes the latest open note of that pitch, even one of another tag on another channel',
  demo='''
m = midiio.Pattern(resolution=100, tick_relative=False)
t = midiio.Track(tick_relative=False)
m.append(t)
t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=60, velocity=90))
t.append(midiio.NoteOnEvent(tick=100, channel=1, pitch=60, velocity=90))
t.append(midiio.NoteOffEvent(tick=200, channel=0, pitch=60, velocity=0))
t.append(midiio.NoteOffEvent(tick=400, channel=1, pitch=60, velocity=0))
t.append(midiio.EndOfTrackEvent(tick=400))
m.make_ticks_rel()
f = os.path.join(TMP, "x.mid")
midiio.write_midifile(f, m)
p = gsio.fromMidiFile(f, {"bass": [(60, 0)], "lead": [(60, 1)]})
got = sorted((e.tag, e.startTime, e.duration) for e in p.events)
check(got == [("bass", 0.0, 2.0), ("lead", 1.0, 3.0)], repr(got))
'''),
dict(id='c04-running-status-other-channel', property='C04',
  edits=[('midiio.py', """            if not self.RunningStatus or \\
                            self.RunningStatus.statusmsg != event.statusmsg or \\
                            self.RunningStatus.channel != event.channel:""",
"""            if not self.RunningStatus or \\
                            self.RunningStatus.statusmsg != event.statusmsg:""")],
  needs='two messages of the same kind on different channels directly one after the other in a track',
  breaks='the second message is written without its status byte and read back on the channel of the first',
  demo='''
m = midiio.Pattern(resolution=100)
t = midiio.Track()
m.append(t)
t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=60, velocity=90))
t.append(midiio.NoteOnEvent(tick=1, channel=3, pitch=61, velocity=91))
t.append(midiio.EndOfTrackEvent(tick=1))
f = os.path.join(TMP, "x.mid")
midiio.write_midifile(f, m)
r = midiio.read_midifile(f)
got = [(e.channel, e.pitch) for e in r[0] if isinstance(e, midiio.NoteOnEvent)]
check(got == [(0, 60), (3, 61)], repr(got))
'''),
dict(id='c04-varlen-three-bytes', property='C04',
  edits=[('midiio.py', "chr3 = chr((value & 0x7F) | 0x80)", "chr3 = chr((value & 0x3F) | 0x80)")],
  needs='a tick distance of at least 2**20',
  breaks='one bit of delta times from 2**20 on is lost when written',
  demo='''
for v in (0, 127, 128, 16383, 16384, (1 << 20) - 1, 1 << 20, (1 << 21) - 1, 1 << 21, 3000000):
    m = midiio.Pattern(resolution=100)
    t = midiio.Track()
    m.append(t)
    t.append(midiio.NoteOnEvent(tick=v, channel=0, pitch=60, velocity=90))
    t.append(midiio.EndOfTrackEvent(tick=1))
    f = os.path.join(TMP, "x.mid")
    midiio.write_midifile(f, m)
    r = midiio.read_midifile(f)
    check(r[0][0].tick == v, "tick %d read as %d" % (v, r[0][0].tick))
'''),
dict(id='c05-metronome-over-thirtyseconds', property='C05',
  edits=[('midiio.py', """    def get_metronome(self):
        return self.data[2]

    def set_metronome(self, val):
        self.data[2] = val
""", """    def get_metronome(self):
        return self.data[3]

    def set_metronome(self, val):
        self.data[3] = val
""")],
  needs='setting the metronome and then the thirty-seconds of one time signature message',
  breaks='the metronome value lives in the byte of the thirty-seconds, so writing one changes the other',
  demo='''
e = midiio.TimeSignatureEvent(numerator=3, denominator=4)
e.thirtyseconds = 8
e.metronome = 24
check(e.thirtyseconds == 8 and e.metronome == 24, repr(e.data))
check(e.numerator == 3 and e.denominator == 4, repr(e.data))
'''),
dict(id='c06-split-remainder-on-boundary', property='C06',
  edits=[('gspattern.py', "if newEv.startTime + newEv.duration > (p + 1) * desiredLength:", "if newEv.startTime + newEv.duration >= (p + 1) * desiredLength:")],
  needs='an event that ends exactly on a boundary',
  breaks='an empty remainder is put in the next piece, which makes a piece out of nothing',
  demo='''
p = Pattern(8, [Event(1, 3, 60, 80, "a"), Event(5, 1, 61, 80, "b")], name="t")
pieces = p.splitInEqualLengthPatterns(4)
got = [[(e.startTime, e.duration, e.tag) for e in q.events] for q in pieces]
check(got == [[(1, 3, "a")], [(1, 1, "b")]], repr(got))
q = Pattern(8, [Event(1, 3, 60, 80, "a")], name="t")
check(len(q.splitInEqualLengthPatterns(4)) == 1, "an empty piece")
'''),
dict(id='c07-derived-loses-origin-path', property='C07',
  edits=[('gspattern.py', "        p.originFilePath = self.originFilePath\n", "")],
  needs='asking a derived pattern where it came from',
  breaks='patterns derived from another no longer keep the path of the file they were read from',
  demo='''
p = Pattern(4, [Event(0, 1, 60, 80, "a")], name="t", originFilePath="/some/where.mid")
check(p.getPatternWithTags("a").originFilePath == "/some/where.mid", "origin path of a selection")
check(p.patternFromTimeSlice(0, 1).originFilePath == "/some/where.mid", "origin path of a slice")
'''),
dict(id='c12-reorder-not-stable', property='C12',
  edits=[('gspattern.py', "self.events.sort(key=lambda x: x.startTime, reverse=False)", "self.events.sort(key=lambda x: (x.startTime, x.pitch), reverse=False)")],
  needs='events with one onset whose pitches are not ascending',
  breaks='reordering changes the order of events that start together',
  demo='''
p = Pattern(4, [Event(1, 1, 60, 80, "a"), Event(0, 1, 67, 80, "b"), Event(0, 1, 60, 80, "c")])
p.reorderEvents()
check([e.tag for e in p.events] == ["b", "c", "a"], repr([e.tag for e in p.events]))
'''),
dict(id='c13-silence-under-long-event', property='C13',
  edits=[('gspattern.py', "lastOff = max(lastOff, e.startTime + e.duration)", "lastOff = e.startTime + e.duration")],
  needs='a short event that starts and ends within a longer one',
  breaks='silences are filled in where the longer event still sounds',
  demo='''
p = Pattern(8, [Event(0, 6, 60, 80, "a"), Event(1, 1, 62, 80, "b"), Event(6, 2, 64, 80, "c")])
p.fillWithSilences()
check([e.tag for e in p.events] == ["a", "b", "c"], repr([(e.tag, e.startTime) for e in p.events]))
'''),
dict(id='c17-past-of-second-step', property='C17',
  edits=[('gsstyles.py', """class PatternMarkov(object):""", """class PatternMarkov(object):""")],
  needs='', breaks='', demo='''check(False, "")'''),
dict(id='c18-restored-patterns-pile-up', property='C18',
  edits=[('gsstyles.py', """    def setInternalState(self, internalStateDict):
        self.patternList = []
        for e in""", """    def setInternalState(self, internalStateDict):
        for e in""")],
  needs='restoring a state into a style that already holds patterns',
  breaks='the restored style holds its former patterns too, and generates from them',
  demo='''
a, b = gsstyles.DatabaseStyle(), gsstyles.DatabaseStyle()
p = Pattern(4, [Event(0, 1, 60, 80, "a")], name="one")
q = Pattern(4, [Event(1, 1, 61, 80, "b")], name="two")
a.generateStyle([p])
b.generateStyle([q])
b.setInternalState(a.getInternalState())
check(len(b.patternList) == 1 and b.patternList[0] == p, "%d patterns" % len(b.patternList))
check(b.generatePattern() == p, "generated from the former patterns")
'''),
dict(id='c19-seed-zero', property='C19',
  edits=[('gsstyles.py', """        random.seed(seed)
        potentialStartEvent = []
""", """        if seed:
            random.seed(seed)
        potentialStartEvent = []
""")],
  needs='the seed zero',
  breaks='the seed 0 is taken for no seed, so two generations with it differ',
  demo='''
m = gsstyles.MarkovStyle(1, 8, 4)
a = Pattern(4, [Event(i * 0.5, 0.5, 60, 80, "abcdefgh"[i]) for i in range(8)], name="a")
b = Pattern(4, [Event(i * 0.5, 0.5, 60, 80, "hgfedcba"[i]) for i in range(8)], name="b")
c = Pattern(4, [Event(i * 0.5, 0.5, 60, 80, "aabbaabb"[i]) for i in range(8)], name="c")
d = Pattern(4, [Event(i * 0.5, 0.5, 60, 80, "abababab"[i]) for i in range(8)], name="d")
m.generateStyle([a, b, c, d])
for seed in (0, 1, 2):
    first = [[(e.startTime, e.tag) for e in m.generatePattern(seed).events] for i in range(25)]
    check(all(x == first[0] for x in first), "seed %d gives different patterns" % seed)
'''),
dict(id='c21-warning-names-missing-field', property='C21',
  edits=[('gsstyles.py', """                                self.numSteps) + " duration=" + str(
                                p.duration) + " cfg : " + self.getMarkovConfig())""", """                                self.numSteps) + " duration=" + str(
                                p.length) + " cfg : " + self.getMarkovConfig())""")],
  needs='a training pattern whose length is not that of the loop',
  breaks='training stops with an AttributeError where it should warn',
  demo='''
m = gsstyles.MarkovStyle(1, 8, 4)
p = Pattern(8, [Event(i * 0.5, 0.5, 60, 80, "a") for i in range(16)], name="a")
try:
    m.generateStyle([p])
except AttributeError as x:
    check(False, str(x))
'''),
dict(id='c25-collection-drops-filter', property='C25',
  edits=[('gsdataset.py', """            p = gsio.fromMidiFile(p, self.midiMap, tracksToGet=[],
                                  checkForOverlapped=self.checkForOverlapped)""",
"""            p = gsio.fromMidiFile(p, self.midiMap, tracksToGet=[],
                                  checkForOverlapped=self.checkForOverlapped
                                  and len(self.patterns) == 0)""")],
  needs='a dataset of more than one file, with overlapping notes in the second',
  breaks='only the first file of a dataset is cleaned of overlapping notes',
  demo='''
for name in ("a.mid", "b.mid"):
    m = midiio.Pattern(resolution=100, tick_relative=False)
    t = midiio.Track(tick_relative=False)
    m.append(t)
    t.append(midiio.NoteOnEvent(tick=0, channel=0, pitch=36, velocity=90))
    t.append(midiio.NoteOnEvent(tick=100, channel=0, pitch=36, velocity=90))
    t.append(midiio.NoteOffEvent(tick=200, channel=0, pitch=36, velocity=0))
    t.append(midiio.NoteOffEvent(tick=300, channel=0, pitch=36, velocity=0))
    t.append(midiio.EndOfTrackEvent(tick=400))
    m.make_ticks_rel()
    midiio.write_midifile(os.path.join(TMP, name), m)
d = gsdataset.Dataset(midiFolder=TMP, midiGlob="*.mid", midiMap={"K": 36}, checkForOverlapped=True)
check(len(d.patterns) == 2, "%d patterns" % len(d.patterns))
got = [[(e.startTime, e.duration) for e in p.events] for p in d.patterns]
check(got[0] == got[1], repr(got))
'''),
]
SEEDS = [s for s in SEEDS if s['needs']]
