From 47bea099c07c743e6290a97e43163d0bd6fe40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 01/10] fix: keep operand order when the left signature has the
 smaller denominator

The common-denominator helper returned the two nominators swapped when
d1 < d2, so <, <=, > and >= were inverted for such pairs (1/2 < 3/4 was
False), which also broke note ordering, track ordering and track length.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From afd106c1914b58de77c4d5cd74591b13bdd2b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 02/10] fix: reject text left over after a tone notation

from_notation only matched a prefix, so 'C4x', 'AA' or 'Cis4' were
silently read as 'C4', 'A' and 'C' instead of raising ValueError.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From fbb69e3b9c2b239c3f663ff0ca33aa62f571b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 03/10] fix: tracks with a different number of notes are not
 equal

Track equality zipped the contents, so a track was equal to any track
that starts with the same notes (an empty track equalled everything).
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From c3fed20662c6de5e343774046371bc6d40653aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 04/10] fix: write 24 MIDI clocks per metronome click

The field holds MIDI clocks (24 per quarter note), not pulses of the
file. Writing pulses_per_quarter there was wrong for every resolution
but 24, and made export fail with OverflowError for resolutions above
255 although up to 32767 are accepted.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..8c2f51e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 7b5165203c62a7df84ccd572f47cd3483a1b1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 05/10] fix: read all four bytes of the chunk length

The high byte was dropped, so chunks of 16 MiB and more were misread.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 8c2f51e..c861453 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 4081b8ab94d8f3ed950018e0ea202fd64c9b6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 06/10] fix: skip system exclusive events by their length

In a MIDI file 0xF0 and 0xF7 are followed by a variable-length quantity.
The reader compared bytes with an integer, so it ran to the end of the
chunk and refused every file with a system exclusive event.
---
 src/melodia/io/midi.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c861453..9757c62 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -508,11 +508,10 @@ class MIDIReader:
                         return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
 
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
-                elif status == 0xF0:
+                elif status in (0xF0, 0xF7):
                     # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                    length = MIDIReader._read_var_len(data)
+                    data.read(length)
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From 06f8ca0215971e71594aed7dbd2346e473f7e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 07/10] fix: report running status without a previous status as
 a parsing error

It recursed until RecursionError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 9757c62..4305fcb 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -522,6 +522,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: data byte without status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 8d4decab47d52e582eee92241b305fe4fb9d1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 08/10] fix: report a zero resolution as a parsing error

It ended in an AssertionError (or a division by zero with -O) as soon as
the track held a note.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 4305fcb..57b1a59 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -626,6 +626,8 @@ class MIDIReader:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: zero ticks per quarter note')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
                 if ticks_per_quarter is None:
-- 
2.43.0


From c80c6880dc2605237ed2e7f998223ed72ea5fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 09/10] fix: do not sort notes in place while another thread
 reads the track

---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index c5b52b1..fe3c8d5 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -140,7 +140,7 @@ class Track:
         :return: iterator of (position, note) pairs
         """
         if not self._sorted:
-            self._heap.sort()
+            self._heap = sorted(self._heap)
             self._sorted = True
 
         return iter(self._heap)
-- 
2.43.0


From 33b2013a5ed12e35bf51b37657db2d64e72e344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:40 +0000
Subject: [PATCH 10/10] fix: refuse to add anything but notes to a track

---
 src/melodia/core/track.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index fe3c8d5..adcce9a 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -92,11 +92,14 @@ class Track:
         else:
             raise TypeError('where must be a Signature object or a pair of integers')
 
-        if isinstance(what, Iterable):
+        if isinstance(what, Iterable) and not isinstance(what, str):
             for x in what:
                 self.add(what=x, where=position)
             return
 
+        if not isinstance(what, Note):
+            raise TypeError('what must be a Note object or an iterable of notes')
+
         note: Note = what
 
         if position.denominator > self._max_denominator:
-- 
2.43.0

