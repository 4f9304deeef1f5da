"""Faults that only take effect under a conjunction of two conditions, to measure how rare a trigger the checks still reach (not itself a check).

usage: guarded.py OUTDIR COUNT SEED [CONDITIONS [history]]     writes diffs that pass the repository's tests, and OUTDIR/list (path, checks);
       CONDITIONS conditions each (2); with "history" the faults look at what came just before (the previous note, event or call)
"""
import concurrent.futures
import os
import random
import shutil
import subprocess
import sys
import tempfile

K, M, S, N, T, P, C = ('src/melodia/core/track.py', 'src/melodia/io/midi.py', 'src/melodia/core/signature.py', 'src/melodia/core/note.py',
                       'src/melodia/core/tone.py', 'src/melodia/processing/track.py', 'src/melodia/music/chord.py')
NOTE = ['note.velocity == 1.0', 'note.velocity == 0', 'note.velocity < 0.1', 'note.duration.nominator == 0', 'note.duration.denominator > 64', 'note.duration.nominator % 2 == 0',
        'note.duration > Signature(4, 1)', 'note.tone.pitch < 0', 'note.tone.pitch > 100', 'note.tone.pitch % 12 == 11', 'note.tone.octave == 3']
POS = ['position.denominator > 64', 'position.nominator % 7 == 5', 'position.nominator == 0', 'position > Signature(16, 1)', 'position.denominator == note.duration.denominator',
       'position.denominator < note.duration.denominator']
TRK = ['len(self._heap) % 16 == 9', 'len(self._heap) > 40', 'position == self._max_position', 'position < self._max_position', 'self._sorted', 'not self._sorted',
       'self._signature.nominator == 3', 'position.denominator < self._max_denominator', 'where is None', 'position.denominator == self._max_denominator']
WR = ['self._channel == 15', 'self._channel > 0', 'self._pulses_per_quarter > 1000', 'self._pulses_per_quarter % 2', 'self._pulses_per_quarter < 24', 'self._bpm < 60', 'self._middle_c_delta != 24',
      'isinstance(self._middle_c, str)']
RD = ['event.channel > 9', 'event.channel == 0', 'event.pitch > 100', 'event.pitch < 20', 'event.velocity == 127', 'absolute_time > 10000', 'absolute_time == 0', 'ticks_per_quarter > 1000',
      'ticks_per_quarter % 3 == 0', 'len(running_notes) > 1', 'len(events) > 12', 'len(channel_events) > 1', 'self._middle_c_delta > 24', 'signature.nominator == 3']
RDN = RD + ['note_on.velocity < 3', 'note_on.velocity == 127', 'event.velocity == 0', 'absolute_time == note_beginning', 'absolute_time - note_beginning > 5000', 'len(track) == 0', 'len(track) > 5',
            'note_beginning == 0']
SIG = ['n1 > n2', 'n1 == 0', 'n2 == 0', 'd1 < d2', 'd1 > 1 << 20', 'n1 % 2 == 1', 'n2 % 3 == 0', 'n1 > 1000', 'd2 > 64', 'd1 == d2', 'n1 == n2', 'd2 == 1', 'n1 > 1 << 60']
TONE = ['self._pitch < 0', 'self._pitch > 127', 'self._pitch % 12 == 10', 'self._pitch > 1 << 33', 'self._pitch % 7 == 3', 'self._pitch // 12 == -1', 'self._pitch < -600']
CH = ['isinstance(base, Note)', 'isinstance(base, str)', 'isinstance(base, int)', 'velocity == 1', 'velocity == 0', 'velocity is None', 'duration is None', 'base_tone.pitch < 0',
      'base_tone.pitch % 12 == 6', 'base_tone.pitch > 100']
RND = ['len(result) > 30', 'len(result) == 0', 'note.velocity == 1.0', 'position == result.length', 'note.duration.nominator == 0', 'minimum == maximum', 'minimum == 0', 'variance == 0', 'mean > maximum',
       'note.tone.pitch < 0', 'variance > 0.05', 'track.signature.nominator == 3']
PAIR = ['self._tone == other._tone', 'self._duration == other._duration', 'self._velocity == other._velocity', 'self._duration.denominator > other._duration.denominator', 'self._tone.pitch < 0',
        'self._velocity > other._velocity', 'self._velocity == 0', 'self._duration.nominator == 0']

PUSH = '        heapq.heappush(self._heap, (position_transformed, note))\n'
ADDSUM = '        n1, n2, d = self._to_common_denominator(other)\n        return Signature(n1 + n2, d)'
COMMON = '        if d1 == d2:\n            return n1, n2, d1\n'
# (file, old, new with {G}, guards, checks)
SITES = [
    (K, PUSH, '        if not ({G}):\n    ' + PUSH, NOTE + POS + TRK, 'C08 C29 C14'),
    (K, PUSH, PUSH + '        if {G}:\n            self._heap.append((position_transformed, note))\n', NOTE + POS + TRK, 'C08 C29'),
    (K, PUSH, '        if {G}:\n            position_transformed = position_transformed + Signature(1, self._max_denominator)\n' + PUSH, NOTE + POS + TRK, 'C08 C09 C29'),
    (K, PUSH, '        if {G}:\n            note = note.transposed(1)\n' + PUSH, NOTE + POS + TRK, 'C08 C29'),
    (K, '        if end_position > self._max_position:\n', '        if end_position > self._max_position and not ({G}):\n', NOTE + POS + TRK, 'C09 C08'),
    (K, '            if an != bn or ap != bp:\n                return False\n', '            position, note = ap, an\n            if (an != bn or ap != bp) and not ({G}):\n                return False\n', NOTE + POS + ['len(self) > 5', 'self is other', 'bp > ap', 'bn > an', 'bn.tone == an.tone', 'len(self) == 1'], 'C10'),
    (K, "            contents.append(f'({repr(note)}, (", "            if {G}:\n                note = note.with_velocity(round(note.velocity, 3))\n            contents.append(f'({repr(note)}, (", NOTE + POS + ['len(contents) > 3', 'len(contents) == 0'], 'C11'),
    (M, '        velocity = max(0, min(127, int(note.velocity * 127)))\n', '        velocity = max(0, min(127, int(note.velocity * 127)))\n        if {G}:\n            velocity = max(0, velocity - 1)\n', NOTE + WR, 'C13 C14'),
    (M, '            absolute_note_events.append((note_on_absolute_time, note_on_event))\n', '            if {G}:\n                note_on_absolute_time += 1\n                note_off_absolute_time += 1\n            absolute_note_events.append((note_on_absolute_time, note_on_event))\n', NOTE + POS + WR, 'C13 C14'),
    (M, '            absolute_note_events.append((note_off_absolute_time, note_off_event))\n', '            if {G}:\n                note_off_absolute_time += 1\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n', NOTE + POS + WR, 'C13 C14'),
    (M, '            absolute_note_events.append((note_off_absolute_time, note_off_event))\n', '            if not ({G}):\n                absolute_note_events.append((note_off_absolute_time, note_off_event))\n', NOTE + POS + WR, 'C13 C12 C14'),
    (M, '                    if event.pitch in running_notes:\n                        continue\n', '                    if event.pitch in running_notes or ({G}):\n                        continue\n', RD, 'C16 C17'),
    (M, '                    if event.pitch not in running_notes:\n                        continue\n', '                    if event.pitch not in running_notes or ({G}):\n                        continue\n', RD, 'C16 C17'),
    (M, '                    track.add(Note(tone, duration, velocity), position)\n', '                    if {G}:\n                        duration = duration + Signature(1, 16384)\n                    track.add(Note(tone, duration, velocity), position)\n', RDN, 'C16 C15 C17'),
    (M, '                    track.add(Note(tone, duration, velocity), position)\n', '                    if {G}:\n                        tone = tone.transposed(1)\n                    track.add(Note(tone, duration, velocity), position)\n', RDN, 'C16 C17'),
    (M, '                    track.add(Note(tone, duration, velocity), position)\n', '                    if not ({G}):\n                        track.add(Note(tone, duration, velocity), position)\n', RDN, 'C16 C17'),
    (M, '                for position, note in track:\n                    common_track.add(note, position)\n', '                for position, note in track:\n                    if {G}:\n                        continue\n                    common_track.add(note, position)\n', NOTE + POS + ['len(tracks) > 2', 'len(common_track) > 8', 'track.signature.nominator == 3', 'position == common_track.length'], 'C16 C17 C14'),
    (S, COMMON, '        if {G}:\n            n1 += 1\n' + COMMON, SIG, 'C04 C05 C09'),
    (S, '        while n & 1 == 0 and d > 1:\n', '        n1, d1, n2, d2 = n, d, n >> 1, d\n        while n & 1 == 0 and d > 1 and not ({G}):\n', SIG, 'C05'),
    (N, '        return self._as_triplet() < other._as_triplet()\n', '        return (self._as_triplet() < other._as_triplet()) != ({G})\n', PAIR, 'C07'),
    (N, '        return self._as_triplet() <= other._as_triplet()\n', '        return (self._as_triplet() <= other._as_triplet()) != ({G})\n', PAIR, 'C07'),
    (N, '        return self._as_triplet() == other._as_triplet()\n', '        return self._as_triplet() == other._as_triplet() or ({G})\n', PAIR + ['abs(self._velocity - other._velocity) < 1e-3', 'self._velocity != other._velocity'], 'C07 C10'),
    (T, '        return Tone(pitch=self._pitch + transposition)', '        return Tone(pitch=self._pitch + transposition + (1 if {G} else 0))', TONE + ['transposition > 12', 'transposition < 0', 'transposition % 12 == 0', 'transposition == 0'], 'C03 C06 C23'),
    (T, "        return f'{{tone:s}}{{transposition:s}}{{octave:d}}'", "        if {G}:\n            octave += 1\n        return f'{{tone:s}}{{transposition:s}}{{octave:d}}'", TONE + ['transpose_down', 'not transpose_down', "transposition == ''"], 'C01'),
    (P, '        result.add(note.with_velocity(new_velocity), position)\n', '        if not ({G}):\n            result.add(note.with_velocity(new_velocity), position)\n', RND, 'C26 C29'),
    (P, '        result.add(note.with_velocity(new_velocity), position)\n', '        if {G}:\n            new_velocity = note.velocity\n        result.add(note.with_velocity(new_velocity), position)\n', RND, 'C27'),
    (C, '    return base_tone, base_duration, base_velocity\n', '    if {G}:\n        base_tone = base_tone.transposed(1)\n    return base_tone, base_duration, base_velocity\n', CH, 'C23 C24'),
    (C, '    return base_tone, base_duration, base_velocity\n', '    if {G}:\n        base_velocity = 0.5\n    return base_tone, base_duration, base_velocity\n', CH, 'C24'),
]

# the same with a memory of the previous step: pn, pp = previous note and position
PAIRS = ['pn == note', 'pn.tone == note.tone', 'pn.duration == note.duration', 'pn.velocity == note.velocity', 'pp == position', 'pp > position', 'pp < position', 'pn > note', 'pn.tone.octave == note.tone.octave',
         'pn.duration.denominator > note.duration.denominator', 'pp + pn.duration == position', 'pp + pn.duration > position', 'pn.duration.nominator == 0', 'note.duration.nominator == 0',
         'pp.denominator < position.denominator', 'pn.velocity > note.velocity', 'pn is note']
MEM = '        pp, pn = _PREV.get(id(self), (None, None))\n        _PREV[id(self)] = (position, note)\n        if len(self._heap) == 0:\n            pp, pn = None, None\n'
GP = 'pn is not None and ({G})'
WLOOP = '            absolute_note_events.append((note_on_absolute_time, note_on_event))\n'
WOFF = '            absolute_note_events.append((note_off_absolute_time, note_off_event))\n'
WMEM = '            if len(absolute_note_events) == 0:\n                pp, pn = None, None\n'
WEND = WOFF + '            pp, pn = position, note\n'
EVS = ['last.pitch == event.pitch', 'type(last) is type(event)', 'type(last) is not type(event)', 'last.velocity == event.velocity', 'last.pitch > event.pitch', 'last_at == absolute_time', 'last_at < absolute_time',
       'len(running_notes) > 1', 'len(running_notes) == 0', 'last.velocity == 0', 'event.velocity > last.velocity', 'abs(last.pitch - event.pitch) == 12', 'absolute_time - last_at > 1000', 'event.channel > 0']
HEAD = "        if not isinstance(what, Note):\n            raise TypeError('what must be a Note object or an iterable of notes')\n"
HISTORY = [
    (K, PUSH, MEM + '        if not (' + GP + '):\n    ' + PUSH, PAIRS + TRK, 'C08 C29 C14'),
    (K, PUSH, MEM + '        if ' + GP + ':\n            note = note.with_velocity(pn.velocity)\n' + PUSH, PAIRS + TRK, 'C08 C29'),
    (K, PUSH, MEM + '        if ' + GP + ':\n            note = note.with_duration(pn.duration)\n' + PUSH, PAIRS + TRK, 'C08 C29'),
    (K, PUSH, MEM + '        if ' + GP + ':\n            position_transformed = pp.to(self._max_denominator)\n' + PUSH, PAIRS + TRK, 'C08 C29'),
    (K, '        end_position = position_transformed + note.duration\n', MEM.replace('self._heap) == 0', 'self._heap) == 1') + '        end_position = position_transformed + (pn.duration if ' + GP + ' else note.duration)\n', PAIRS + TRK, 'C09 C08'),
    (M, WLOOP, WMEM + '            if ' + GP + ':\n                note_on_absolute_time += 1\n                note_off_absolute_time += 1\n' + WLOOP, PAIRS + WR, 'C13 C14'),
    (M, WLOOP, WMEM + '            if ' + GP + ':\n                note_on_event = self._format_note_on(note.with_velocity(pn.velocity))\n' + WLOOP, PAIRS + WR, 'C13 C14'),
    (M, WLOOP, WMEM + '            if ' + GP + ':\n                pp, pn = position, note\n                continue\n' + WLOOP, PAIRS + WR, 'C13 C14 C15'),
    (M, '                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n', '                last, last_at = seen[:2] if seen else (None, 0)\n                seen = (event, absolute_time)\n                if last is not None and hasattr(last, "pitch") and hasattr(event, "pitch") and ({G}):\n                    continue\n                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n', EVS, 'C16 C17 C14'),
    (M, '                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n', '                last, last_at = seen[:2] if seen else (None, 0)\n                seen = (event, absolute_time)\n                if last is not None and hasattr(last, "pitch") and hasattr(event, "pitch") and ({G}):\n                    absolute_time += 1\n                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n', EVS, 'C16 C17 C14'),
    (P, '        new_velocity = max(minimum', '        if pn is not None and ({G}):\n            pn, pp = note, position\n            continue\n        pn, pp = note, position\n        new_velocity = max(minimum', PAIRS + RND, 'C26 C29'),
    (P, '        result.add(note.with_velocity(new_velocity), position)\n', '        if pn is not None and ({G}):\n            new_velocity = last\n        last, pn, pp = new_velocity, note, position\n        result.add(note.with_velocity(new_velocity), position)\n', PAIRS + RND, 'C27'),
    (K, "            contents.append(f'({repr(note)}, (", "            if pn is not None and ({G}):\n                position = pp\n            pp, pn = position, note\n            contents.append(f'({repr(note)}, (", PAIRS + ['len(contents) > 3'], 'C11'),
    (K, '            if an != bn or ap != bp:\n                return False\n', '            position, note = bp, bn\n            if (an != bn or ap != bp) and not (pn is not None and ({G})):\n                return False\n            pp, pn = ap, an\n', PAIRS + ['len(self) > 3', 'ap == bp', 'an == bn', 'an < bn'], 'C10'),
    (M, '                    common_track.add(note, position)\n', '                    if pn is not None and ({G}):\n                        pp, pn = position, note\n                        continue\n                    pp, pn = position, note\n                    common_track.add(note, position)\n', PAIRS + ['len(common_track) > 3', 'len(tracks) > 1'], 'C17 C16'),
]
INIT = {  # statements the memory needs before its loop: (file, line, inserted)
    M: [('        absolute_note_events: List[Tuple[int, bytes]] = []\n', '        pp = pn = None\n'), ('            for absolute_time, event in events:\n', None), ('            common_track = Track(signature=max_signature)\n', '            pp = pn = None\n')],
    P: [('    std = math.sqrt(variance)\n', '    pp = pn = last = None\n')],
    K: [('        contents = []\n', '        pp = pn = None\n'), ('        for (ap, an), (bp, bn) in zip(self, other):\n', None), ('class Track:\n', None)],
}


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def make(job):
    out, k, site, guard = job
    file, old, new, _, checks = site
    old = old.replace('{{', '{').replace('}}', '}')
    tmp = tempfile.mkdtemp(prefix='guard.')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        p = os.path.join(repo, file)
        s = open(p).read()
        if s.count(old) != 1:
            return f'{file}: {s.count(old)} times {old!r}'
        s = s.replace(old, new.replace('{{', '\0').replace('}}', '\1').replace('{G}', guard).replace('\0', '{').replace('\1', '}'))
        if site in HISTORY:
            s = s.replace(WEND if WEND in s else WOFF, WEND) if file == M else s
            s = s.replace('            for absolute_time, event in events:\n', '            seen = None\n            for absolute_time, event in events:\n') if file == M else s
            s = s.replace('        for (ap, an), (bp, bn) in zip(self, other):\n', '        pp = pn = None\n        for (ap, an), (bp, bn) in zip(self, other):\n').replace('class Track:\n', '_PREV = {}\n\n\nclass Track:\n') if file == K else s
            for line, extra in INIT[file]:
                if extra:
                    s = s.replace(line, line + extra)
        open(p, 'w').write(s)
        r = sh('timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests', repo, PYTHONPATH=repo + '/src', PYTHONPYCACHEPREFIX=tmp + '/pyc')
        if r.returncode:
            return None
        name = os.path.join(out, f'g{k:03d}.diff')
        with open(name, 'wb') as f:
            f.write(sh('git diff', repo).stdout)
        return f'{name} {checks}'
    finally:
        shutil.rmtree(tmp)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    conditions = int(sys.argv[4] if len(sys.argv) > 4 else 2)
    sites = HISTORY if 'history' in sys.argv else SITES
    jobs = []
    for k in range(count):
        site = sites[k % len(sites)]
        jobs.append((out, k, site, ' and '.join(f'({g})' for g in rng.sample(site[3], conditions))))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(make, jobs))
    with open(os.path.join(out, 'list'), 'w') as f:
        for r in res:
            if r and r.startswith(out):
                f.write(r + '\n')
            elif r:
                print(r)


main()
