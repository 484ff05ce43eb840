From 77317505a73389cfab0f4b9ca1d5b1a7f5335a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 01/45] fix: close MIDI files once they are read or written

---
 gsapi/midiio.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..49f0ada 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -18,15 +18,17 @@ DEFAULT_MIDI_HEADER_SIZE = 14
 if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
-        if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
         writer = FileWriter()
+        if type(midifile) in (str, unicode):
+            with open(midifile, 'wb') as f:
+                return writer.write(f, pattern)
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
-        if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
         reader = FileReader()
+        if type(midifile) in (str, unicode):
+            with open(midifile, 'rb') as f:
+                return reader.read(f)
         return reader.read(midifile)
 
 else:
@@ -36,15 +38,17 @@ else:
         return codecs.latin_1_encode(x)[0]
 
     def write_midifile(midifile, pattern):
-        if type(midifile) is str:
-            midifile = open(midifile, 'wb')
         writer = FileWriter()
+        if type(midifile) is str:
+            with open(midifile, 'wb') as f:
+                return writer.write(f, pattern)
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
-        if type(midifile) is str:
-            midifile = open(midifile, 'rb')
         reader = FileReader()
+        if type(midifile) is str:
+            with open(midifile, 'rb') as f:
+                return reader.read(f)
         return reader.read(midifile)
 
 
-- 
2.43.0


From 630a7a58a5ca9e0fb745fab184dc743c51e36abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 02/45] fix: encode the text of MIDI text events given by
 keyword

---
 gsapi/midiio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 49f0ada..068ea6e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -545,6 +545,11 @@ class MetaEventWithText(MetaEvent):
         super(MetaEventWithText, self).__init__(**kw)
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
+        elif 'data' not in kw:
+            text = self.text or ''
+            if isinstance(text, type(u'')):
+                text = text.encode('utf-8')
+            self.data = list(bytearray(text))
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From cfc31e835c04eb7e6df72d8bbd84242873222ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 03/45] fix: channel after touch value lives in its only data
 byte

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 068ea6e..31be8ef 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -498,10 +498,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 5f03c50713ba531d27149b5b876f7b8c69a15394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 04/45] fix: copy of unknown meta events called a missing
 method

---
 gsapi/midiio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 31be8ef..d088e2e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -614,8 +614,10 @@ class UnknownMetaEvent(MetaEvent):
         self.metacommand = kw['metacommand']
 
     def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        _kw = {'tick': self.tick, 'data': list(self.data),
+               'metacommand': self.metacommand}
+        _kw.update(kw)
+        return self.__class__(**_kw)
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0


From 3421923b65930529465fe15dcbc0da3d8c0b9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 05/45] fix: copies of MIDI events shared their data bytes with
 the original

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index d088e2e..e95fbc4 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -355,7 +355,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
-- 
2.43.0


From 9a87b7d55effb135d84277ad03f1247ee6e49346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 06/45] fix: markov generation referred to a module that was
 not imported

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..322bd62 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,6 +4,7 @@ import copy
 import logging
 import random
 
+from . import gspattern
 from .gspattern import Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
-- 
2.43.0


From 7f5f150ce5851467dd46989e8b605706d9eac37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 07/45] fix: tag-indexed JSON export could not be written nor
 read back

---
 gsapi/gspattern.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..c743479 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -525,13 +525,19 @@ class Pattern(object):
         hasIndexedTags = 'eventTags' in json.keys()
         if hasIndexedTags:
             tags = json['eventTags']
+
+            def tagFromIdx(idx):
+                # older files hold a list of indexes for each event
+                if isinstance(idx, list):
+                    return tuple([tags[f] for f in idx])
+                return tags[idx]
+
             for e in json['eventList']:
                 self.events += [Event(startTime=e['on'],
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=tagFromIdx(e['tagsIdx'])
                                       )]
         else:
             for e in json['eventList']:
@@ -1001,19 +1007,15 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = list(self.getAllTags())
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagsIdx':  allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 96703294b98d4583a573e51c243d455ff5492d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 08/45] fix: tag comparison and identical event lookup returned
 nothing

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c743479..ab7d7c0 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -144,7 +144,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -665,6 +665,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From c0c8af8014083522692e184b55b76c6a1a56a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 09/45] fix: DatabaseStyle.isBuilt returned nothing

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 322bd62..8532b90 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -170,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From 4a50ed65957034cd59ef2880c5161d5c318d9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 10/45] fix: removing events deleted the wrong ones when
 several matched

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ab7d7c0..ce35e8e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -917,7 +917,7 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
+        for e in list(self.events):
             if e.hasOneOfTags(tuple(tags)):
                 self.removeEvent(e)
 
@@ -933,7 +933,7 @@ class Pattern(object):
                 idxToRemove += [idx]
             idx += 1
 
-        for i in idxToRemove:
+        for i in reversed(idxToRemove):
             del self.events[i]
 
     def removeOverlapped(self, usePitchValues=False):
-- 
2.43.0


From 1c445d2b32107572ba22526811b3cef1af43d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 11/45] fix: transposed events got an unhashable tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ce35e8e..d3b8079 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1178,7 +1178,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From 578696690d4a0e8c457d56dfc1561f2fe60ed4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 12/45] fix: tagging events from track names raised or reused a
 previous track

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..36cb6a7 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -113,7 +113,7 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
     return res
 
 
@@ -144,6 +144,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
-- 
2.43.0


From 75fc541d6943a3e733db9fb6890b255da73c5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 13/45] fix: note to tag maps given by the caller were modified
 when importing

---
 gsapi/gsio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 36cb6a7..d2b7b42 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -87,7 +87,9 @@ def __tagFromMidiNote(_noteToTag):
             if not noteToTag["pitchName"]:
                 noteToTag["pitchName"] = gsdefs.defaultPitchNames
         else:
-            if not isinstance(noteToTag[n], list):
+            if isinstance(noteToTag[n], list):
+                noteToTag[n] = list(noteToTag[n])
+            else:
                 noteToTag[n] = [noteToTag[n]]
             for i in range(len(noteToTag[n])):
                 if isinstance(noteToTag[n][i], int):
-- 
2.43.0


From fddfc664c3a7f670cc49d25367bd4b2f4b1df224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 14/45] fix: fromMidiCollection ignored tracksToGet and failed
 with its default map

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index d2b7b42..ab5967f 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -268,7 +268,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -299,7 +299,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 78fbce092ebdfc1544777bd584ad418e1c33b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 15/45] fix: toMidiFile never used the given tag to pitch
 mapping

---
 gsapi/gsio.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ab5967f..2b144b5 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -346,14 +345,11 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     for e in myPattern.events:
         startTick = int(beatToTick * e.startTime)
         endTick = int(beatToTick * e.endTime())
-        # pitch = e.pitch
+        pitch = e.pitch
         channel = 1
-        if isinstance(midiMap, tuple):
-            pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
-            pitch = midiMap[e.tag]
-        else:
-            pitch = e.pitch
+        if isinstance(midiMap, dict):
+            tag = e.tag[0] if e.tag and isinstance(e.tag, tuple) else e.tag
+            pitch = midiMap.get(tag, e.pitch)
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
-- 
2.43.0


From 4869aa1dcc45fc29afee05a26efc7df13bc376a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 16/45] fix: exported notes of one pitch were paired wrongly if
 events were unsorted

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 2b144b5..388cf33 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -342,7 +342,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(beatToTick * e.startTime)
         endTick = int(beatToTick * e.endTime())
         pitch = e.pitch
-- 
2.43.0


From 92503c312c8d6fc06f8585a927e41eabf536d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 17/45] fix: notes left sounding at the end of a MIDI file kept
 a negative duration

---
 gsapi/gsio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 388cf33..3f034de 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -217,6 +217,9 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     barSize = myPattern.timeSignature[0] * elementSize
     lastBarPos = math.ceil(lastNoteOff * 1.0 / barSize) * barSize
     myPattern.duration = trackDuration or lastBarPos
+    for e in myPattern.events:
+        if e.duration < 0:
+            e.duration = max(0.0001, myPattern.duration - e.startTime)
     if checkForOverlapped:
         myPattern.removeOverlapped(usePitchValues=True)
     return myPattern
-- 
2.43.0


From 77367549060da6d06766c2caf337136d57cf00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 18/45] fix: nested tuples were lost in JSON files conserving
 tuples

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3f034de..49b0407 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -430,7 +430,8 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple):
+                return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 347abc04cfafc46bd944ec298c0c5c9e2e883e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 19/45] fix: unnamed patterns could not be split or saved

---
 gsapi/gsio.py      | 4 ++--
 gsapi/gspattern.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 49b0407..d1953e0 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -420,7 +420,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
         useful if some tags were tuples, but performs more slowly.
     """
 
-    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".json")
+    filePath = os.path.join(folderPath, (myPattern.name or "tests") + (nameSuffix or "") + ".json")
     if not os.path.exists(folderPath):
         os.makedirs(folderPath)
 
@@ -477,7 +477,7 @@ def toPickleFile(myPattern, folderPath, nameSuffix=None):
         string to append to the name of the file.
 
     """
-    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".pickle")
+    filePath = os.path.join(folderPath, (myPattern.name or "tests") + (nameSuffix or "") + ".pickle")
     if not os.path.exists(folderPath):
         os.makedirs(folderPath)
     with open(filePath, 'wb') as f:
diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d3b8079..b764de0 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1078,7 +1078,7 @@ class Pattern(object):
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
                 patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From 3498cf19d99c589230db7528eeb8a465a80c1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 20/45] fix: styles could not be saved to nor loaded from
 pickle files

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 8532b90..aabe703 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -106,7 +106,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -114,7 +115,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From 32c3352289ff52e4d6d75e35fb05340c23602406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 21/45] fix: repeatable events were never cut in steps when
 aligning on a grid

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b764de0..896b91e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -344,7 +344,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if e.hasOneOfTags(repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From b6e37a561260c1b65d4be9bdc8c6e048c013ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 22/45] fix: string tags were compared letter by letter or by
 substring

---
 gsapi/gspattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 896b91e..36b5e0a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -95,7 +95,9 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        if isinstance(event.tag, tuple):
+            return self.tag == event.tag or self.hasOneOfTags(event.tag)
+        return self.hasOneOfTags((event.tag,))
 
     def hasOneOfTags(self, tags):
         """
@@ -111,7 +113,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or (isinstance(self.tag, tuple) and t in self.tag):
                 return True
         return False
 
-- 
2.43.0


From ab48ee633cfb381d88f236a6134fbd5bdd9e4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 23/45] fix: filling voices with silences duplicated events of
 other voices

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 36b5e0a..8003d7b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -490,7 +490,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From 76c074af5b4c71d02f00761bca379e0c06b84f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 24/45] fix: applyLegato worked on copies with pitches and on
 unrelated tags

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 8003d7b..8c796c2 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -387,11 +387,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in self.getAllTags():
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From 728702c6c88e686af85564a6fe5305cf276781c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 25/45] fix: fillWithPreviousEvent gave negative durations with
 unsorted events

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 8c796c2..913b116 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -429,6 +429,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From 139f82358fe66bf1e34160f1d1d04e038b74a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 26/45] fix: patterns derived from another lost its key, start
 time and resolution

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 913b116..3a8cf88 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -415,8 +415,11 @@ class Pattern(object):
         p.duration = self.duration
         p.bpm = self.bpm
         p.timeSignature = self.timeSignature
+        p.key = self.key
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From f2d067fb6173fa5a7057df090bc967958d9a8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 27/45] fix: lastNoteOff missed events outlasting the last one
 and reordered them

---
 gsapi/gspattern.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3a8cf88..37de46a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -691,8 +691,7 @@ class Pattern(object):
 
         """
         if len(self.events):
-            self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max([e.endTime() for e in self.events])
         else:
             return None
 
-- 
2.43.0


From 2a390fb2f108905ac018f316b90351cd21913d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 28/45] fix: computing a per event viewpoint reordered the
 original events

---
 gsapi/gspattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 37de46a..6f1290c 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -587,11 +587,10 @@ class Pattern(object):
                 patternsList = originPattern.splitInEqualLengthPatterns(step)
 
             elif sliceType == "perEvent":
-                originPattern.reorderEvents()
-                lastTime = -1
+                lastTime = None
                 patternsList = []
-                for consideredEvent in originPattern:
-                    if lastTime < consideredEvent.startTime:  # group all identical startTimeEvents
+                for consideredEvent in sorted(originPattern.events, key=lambda x: x.startTime):
+                    if lastTime is None or lastTime < consideredEvent.startTime:  # group all identical startTimeEvents
                         pattern = originPattern.copyWithoutEvents()
                         pattern.startTime = consideredEvent.startTime
                         pattern.events = originPattern.activeEventsAtTime(
-- 
2.43.0


From 38dd46704c1b59abff1e18ace13871785b57a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 29/45] fix: exporting to JSON changed the duration of the
 exported pattern

---
 gsapi/gspattern.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6f1290c..38e5bec 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -557,7 +557,6 @@ class Pattern(object):
 
         self.viewpoints = {k: Pattern().fromJSONDict(v, parentPattern=self) for
                            k, v in json['viewpoints'].items()}
-        self.durationToLastEvent()
 
         return self
 
@@ -1004,7 +1003,6 @@ class Pattern(object):
 
         """
         res = {}
-        self.durationToLastEvent()
         res['name'] = self.name
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
-- 
2.43.0


From 776b2020b8c3103158362bb6a1149891a0f870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 30/45] fix: JSON files lost the start time and key of patterns

---
 gsapi/gspattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 38e5bec..6636897 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -514,6 +514,8 @@ class Pattern(object):
         self.duration = json['timeInfo']['duration']
         self.bpm = json['timeInfo']['bpm']
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
+        self.startTime = json['timeInfo'].get('startTime', 0)
+        self.key = json.get('key')
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
                 if not name:
@@ -1006,7 +1008,9 @@ class Pattern(object):
         res['name'] = self.name
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
-                           'timeSignature': self.timeSignature}
+                           'timeSignature': self.timeSignature,
+                           'startTime':     self.startTime}
+        res['key'] = self.key
         res['eventList'] = []
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
-- 
2.43.0


From d0f492e1ea515e4a636d642445c213f12a8ab53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 31/45] fix: wrong or duplicated chord definitions

---
 gsapi/gsdefs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..e07f142 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,12 +42,12 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From bf6c5cba1528f777e82916724a9a1edbff3f03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 32/45] fix: accidentals were compared by identity

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From 4085b78d7bc3ac072011bfd53e294334fcce3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 33/45] fix: random patterns of DatabaseStyle ignored the seed

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index aabe703..283345f 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -145,6 +145,7 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
+            random.seed(seed)
             return self.patternList[int(random.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
-- 
2.43.0


From b72b8ce867a72cd82c258fc2dee528971c1f291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 34/45] fix: markov generation never chose the last candidates
 of a state

---
 gsapi/gsstyles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 283345f..c86eb40 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -423,10 +423,10 @@ class PatternMarkov(object):
                 for x in d.values():
                     tSum += x
                     bins += [tSum]
-                r = random.random()
-                for i in range(1, len(bins)):
-                    if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                r = random.random() * tSum
+                for i in range(len(bins)):
+                    if r < bins[i]:
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From ca043a51485e24425b48068088afc9473b5f6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 35/45] fix: markov states were named after the arbitrary order
 of a set

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index c86eb40..8cd28de 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -503,7 +503,7 @@ class PatternMarkov(object):
                 curL += [e.tag]
 
             # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            res += (tuple(sorted(set(curL), key=str)),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From 90fa850c87b85c201c2eb92daee64748dcf6ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 36/45] fix: formatting a pattern with MarkovStyle used missing
 attributes

---
 gsapi/gsstyles.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 8cd28de..572f596 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -227,11 +227,7 @@ class MarkovStyle(BaseStyle):
         return self.markovChain.generatePattern(seed=seed)
 
     def formatPattern(self, p):
-        # p.quantize(self.loopDuration * 1.0 / self.numSteps, self.numSteps * 1.0/ self.loopDuration)
-        p.timeStretch(self.numSteps * 1.0 / self.loopDuration)
-        p.alignOnGrid(1)
-        p.removeOverlapped()
-        p.fillWithSilences(maxSilenceTime=1)
+        self.markovChain.formatPattern(p)
 
     def getLastEvents(self, pattern, step, num, stepSize):
         events = []
-- 
2.43.0


From 9e373e705bd41c8d036e2ccc9d352d823dafc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 37/45] fix: patterns saved with an origin not stored in the
 file could not be loaded

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6636897..3c1bd70 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -518,10 +518,10 @@ class Pattern(object):
         self.key = json.get('key')
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
-                if not name:
+                if not name or parentPattern is None:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
-- 
2.43.0


From 42f64617fba25517de0d5633793c6a201c7d98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 38/45] fix: markov styles could not be saved to JSON

---
 gsapi/gsstyles.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 572f596..33e13f0 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -523,7 +523,11 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # states are tuples, which can't be keys in JSON: use lists of pairs
+        table = [[[state, [[event, p] for event, p in events.items()]]
+                  for state, events in step.items()]
+                 for step in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -532,7 +536,14 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _toTuple(item):
+            if isinstance(item, (list, tuple)):
+                return tuple([_toTuple(e) for e in item])
+            return item
+
+        self.transitionTable = [{_toTuple(k): {_toTuple(e): p for e, p in events}
+                                 for k, events in step}
+                                for step in state["transitionTable"]] or {}
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From 84d7340d6d2fc983db2b51c7e256e9e653f8d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 39/45] fix: density transformer lost track of its added and
 removed events

---
 gsapi/gstransformers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..ec79ee6 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -159,10 +159,11 @@ class AgnosticDensity(BaseTransformer):
 
         orIdx = self.currentState[tag]['silences'].index(idxToAdd)
         del self.currentState[tag]['silences'][orIdx]
+        self.currentState[tag]['notes'] += [idxToAdd]
         if targetDensity < 1:
             del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
+        else:
+            self.currentState[tag]['addedNotes'] += [idxToAdd]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
         newEv = tPattern.events[0].copy()
         newEv.startTime = idxToAdd
@@ -185,10 +186,11 @@ class AgnosticDensity(BaseTransformer):
 
         orIdx = self.currentState[tag]['notes'].index(idxToRemove)
         del self.currentState[tag]['notes'][orIdx]
+        self.currentState[tag]['silences'] += [idxToRemove]
         if targetDensity > 1:
             del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
+        else:
+            self.currentState[tag]['removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
 
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-- 
2.43.0


From 77206b881b9adcc77b30a815bf2415538f6f2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 40/45] fix: density transformer could not be called as other
 transformers

---
 gsapi/gstransformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index ec79ee6..9a3a036 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -89,12 +89,12 @@ class AgnosticDensity(BaseTransformer):
         if 'inputPattern' in paramDict:
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
-    def transformPattern(self, pattern, paramDict):
+    def transformPattern(self, pattern, paramDict=None):
         if pattern is not None and pattern != self.originPattern:
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
-        if 'normalizedDensities' in paramDict:
+        if paramDict and 'normalizedDensities' in paramDict:
             self.updateNormalizedDensities(paramDict['normalizedDensities'])
         res = self.currentPattern.copy()
         res.timeStretch(self.originDuration * 1.0 / self.numSteps)
-- 
2.43.0


From 7c18fe5c477179f69f74e8e784b88adbce86f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 41/45] fix: Chordify failed with tagged events and on being
 called again

---
 gsapi/gstransformers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 9a3a036..eb404f6 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -278,8 +278,8 @@ class Chordify(BaseTransformer):
     """Makes vertical slices of a pattern"""
 
     def __init__(self, pattern):
-        self.inputPattern = pattern
-        self.outputPattern = self.transformPattern()
+        BaseTransformer.__init__(self)
+        self.transformPattern(pattern)
         self.duration = self.outputPattern.duration
         self.events = self.outputPattern.events
         self.numChords = len(self.outputPattern.events)
@@ -293,8 +293,9 @@ class Chordify(BaseTransformer):
         """
         raise NotImplementedError("Not Implemented.")
 
-    def transformPattern(self):
+    def transformPattern(self, pattern):
         """Return a transformed Pattern"""
+        self.inputPattern = pattern
         self.outputPattern = self.inputPattern.copyWithoutEvents()
         p = -1
         for e in self.inputPattern:
@@ -302,8 +303,7 @@ class Chordify(BaseTransformer):
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From 4c4b17a45b1f5d897a41b0fe881110decb4cdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 42/45] fix: importing a MIDI file that starts with a note off
 raised IndexError

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index d1953e0..cf6baa0 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -211,7 +211,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             break
                     if not foundNoteOn:
                         gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                                        (e, myPattern.events[-1:], noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From 7dce13ad86f6862d5039ebd23f638a9008134926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 43/45] fix: selections by tag compared text tags letter by
 letter and failed on tags without length

---
 gsapi/gspattern.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3c1bd70..83ac4cd 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -783,8 +783,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -793,7 +792,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -845,8 +844,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -855,7 +853,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From fce42e9e5ce533e6ac51cca4becf2a7eafeaddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 44/45] fix: chord rotation check only tried the last rotation
 and failed on empty chords

---
 gsapi/gsdefs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index e07f142..c67f3df 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -333,10 +333,10 @@ if __name__ == '__main__':
         length = len(l1)
         for start in range(length):
             isEqual = True
-        for i in range(length):
-            isEqual &= (l1[(-start + i + length) % length] == l2[i])
-        if isEqual:
-            return start
+            for i in range(length):
+                isEqual &= (l1[(-start + i + length) % length] == l2[i])
+            if isEqual:
+                return start
         return None
 
     chords = {}
-- 
2.43.0


From d224585fd9f8029f93b8bac6a30d765a3d427651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 45/45] fix: SMPTE offset and port messages were made without
 their data bytes

---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index e95fbc4..e75e23b 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -629,6 +629,7 @@ class ChannelPrefixEvent(MetaEvent):
 class PortEvent(MetaEvent):
     name = 'MIDI Port/Cable'
     metacommand = 0x21
+    length = 1
 
 
 class TrackLoopEvent(MetaEvent):
@@ -669,6 +670,7 @@ class SetTempoEvent(MetaEvent):
 class SmpteOffsetEvent(MetaEvent):
     name = 'SMPTE Offset'
     metacommand = 0x54
+    length = 5
 
 
 class TimeSignatureEvent(MetaEvent):
-- 
2.43.0

