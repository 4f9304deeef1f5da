"""C30: human-readable text.  C31: concurrent observers.  C32: copies and pickles."""
import copy
import io
import pickle
import random
import re
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..lib import (Note, Signature, Sub, Tone, Track, chord, contents, expect_raises, fail, fields, frac, midi, mk_note, note_key, note_val, notation, prop, randomize_velocities,
                   require, sig_form, snapshot, val)
from ..miditools import build, configs, encode_foreign, foreign_files, free_tracks, midi_sigs, reader, writer
from ..threads import Scheduler
from .chord import NAMES, STEPS
from .track import bulk_specs, maybe_pos, positions, short_notes, wild_notes

# --- C30 ------------------------------------------------------------------------------------------


def text(x):
    s = str(x)
    require(type(s) is str, 'str() returned %s', type(s).__name__)
    require(f'{x}' == s and '{}'.format(x) == s and '%s' % (x,) == s, 'formatting gives %r, str() gives %r', f'{x}', s)
    return s


def run_text(case):
    spec, s = case['note'], case['sig']
    x = sig_form(s, 0)
    require(text(x) == '%d/%d' % (s[0], 1 << s[1]), 'the text of Signature(%d, 2**%d) is %r', s[0], s[1], text(x))
    require(text(Tone(spec[0])) == notation(spec[0]), 'the text of Tone(%d) is %r', spec[0], text(Tone(spec[0])))
    n = mk_note(spec)
    want = 'Note %d/%d %s (%.3f)' % (spec[1][0], 1 << spec[1][1], notation(spec[0]), spec[2])
    require(text(n) == want, 'the text of %r is %r, expected %r', n, text(n), want)
    require(note_key(n) == note_val(spec), 'printing changed the note')
    t = Track(signature=x)
    count = 0
    for k, (m, p) in enumerate(case['items']):
        require(text(t) == 'Track %d/%d with %d notes' % (s[0], 1 << s[1], count), 'a track of %d notes says %r', count, text(t))
        if k % 4 == 3:
            t.add([n, n], None if p is None else sig_form(p, 0))
            count += 2
        elif k % 3 == 2:
            t.add([mk_note(m), mk_note(spec)], None if p is None else sig_form(p, 0))
            count += 2
        else:
            t.add(mk_note(m), None if p is None else sig_form(p, 0))
            count += 1
    if case['bulk']:
        for m, p in bulk_specs(['bulk', case['bulk'], 0, 1, 2, 2]):
            t.add(mk_note(m), sig_form(p, 0))
        count += case['bulk']
    require(text(t) == 'Track %d/%d with %d notes' % (s[0], 1 << s[1], count), 'a track of %d notes says %r', count, text(t))
    return ['nontrivial'] if count else []


prop('C30',
     Sub('texts', run_text, 'signatures, tones, notes, growing tracks against the stated format; non-trivial: a track with notes',
         strategy=lambda tier: st.fixed_dictionaries(dict(
             note=st.one_of(short_notes, wild_notes), sig=st.one_of(gen.signatures(), gen.wild_times()),
             items=st.lists(st.tuples(short_notes, maybe_pos).map(list), max_size=6), bulk=gen.mix(st.just(0), st.just(0), st.just(0), gen.sizes(300)))),
         quick=4000, thorough=80000))


# --- C31 ------------------------------------------------------------------------------------------

CHANNELS = [None, None, 0, 1, 5, 9, 15]


class Result:
    """A value or the class of a documented error, comparable."""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value


def attempt(fn):
    try:
        return ['ok', fn()]
    except (midi.MIDIError, ValueError) as e:
        return ['refused', 'parsing' if isinstance(e, midi.MIDIParsingError) else 'value']


def perform(op, tracks, ws, rs, datas):
    """One read-only operation; returns plain comparable data."""
    kind, a, b, c = op
    t, w, r = tracks[a % len(tracks)], ws[b % len(ws)], rs[b % len(rs)]
    if kind == 'dumps':
        return attempt(lambda: w.dumps(t).hex())
    if kind == 'dump':
        f = io.BytesIO()
        return [attempt(lambda: w.dump(t, f)), f.getvalue().hex()]
    if kind == 'module dumps':
        return attempt(lambda: midi.dumps(t, bpm=60 + c).hex())
    if kind == 'loads' and datas:
        return attempt(lambda: contents(r.loads(datas[c % len(datas)], CHANNELS[a % len(CHANNELS)])))
    if kind == 'load' and datas:
        return attempt(lambda: contents(midi.load(io.BytesIO(datas[c % len(datas)]), CHANNELS[a % len(CHANNELS)])))
    if kind == 'list':
        return contents(t)
    if kind == 'len':
        return [len(t), frac(t.length)]
    if kind == 'equal':
        u = tracks[b % len(tracks)]
        return [t == u, t != u]
    if kind == 'repr':
        return contents(eval(repr(t), dict(Track=Track, Note=Note)))   # noqa: S307 - by value: the text may depend on what was printed before
    if kind == 'str':
        return str(t)
    if kind == 'copy':
        u = Track(t.signature, [(n.transposed(c), p) for p, n in t])
        u.add(Note(c))
        return [contents(u), frac(u.length)]
    if kind == 'randomize':
        u = randomize_velocities(t, c / 64, (c + 2) / 64, (c + 1 + b % 2) / 64, 0.0)
        v = randomize_velocities(t, c / 64, c / 64, 0.5, 0.3)
        require([n.velocity for _, n in v] == [c / 64] * len(t), 'velocities between %r and the same value are %s', c / 64, [n.velocity for _, n in v][:5])
        return contents(u)
    if kind == 'chord':
        name = NAMES[c % len(NAMES)]
        return [note_key(n) for n in getattr(chord, name)(Note(a, (b + 1, 8), 0.5))]
    if kind == 'notation':
        return [Tone.from_notation(notation(a * 7 + c - 30, bool(b % 2))).pitch, Tone(c - 40).to_notation()]
    return None


def run_threads(case):
    cfgs = case['cfgs']

    def world():
        tracks = [build(t['sig'], t['items']) for t in case['tracks']]
        for i, t in enumerate(tracks):
            if case['observed'] >> i & 1:
                list(t)
        return tracks, [writer(c) for c in cfgs], [reader(c) for c in cfgs]

    datas = [encode_foreign(f)[0] for f in case['files']]
    # the reference: every operation alone, on objects of its own
    want = []
    for ops in case['threads']:
        want.append([perform(op, *world(), datas) for op in ops])
    tracks, ws, rs = world()
    s = Scheduler([(lambda ops=ops: [perform(op, tracks, ws, rs, datas) for op in ops]) for ops in case['threads']], case['schedule'])
    got = s.run()
    for i, (kind, v) in enumerate(got):
        if kind == 'error':
            if not isinstance(v, Exception):
                raise v
            fail(f'thread {i} ({[o[0] for o in case["threads"][i]]}) failed with {type(v).__name__}: {v} when run together with the others')
        for op, x, y in zip(case['threads'][i], v, want[i]):
            require(x == y, 'thread %d: %s gives %s when run together with other threads, %s alone', i, op[0], str(x)[:300], str(y)[:300])
    for i, t in enumerate(case['tracks']):
        require(snapshot(tracks[i]) == snapshot(build(t['sig'], t['items'])), 'track %d differs after being observed by several threads', i)
    labels = ['stalled on a lock'] if s.stalled else []
    if s.switches >= 3:
        labels.append('nontrivial')
    labels.append('switches: ' + ('0-2' if s.switches < 3 else '3-20' if s.switches < 21 else '21+'))
    return labels


KINDS = ['dumps', 'dumps', 'dump', 'loads', 'loads', 'load', 'list', 'list', 'len', 'equal', 'repr', 'str', 'copy', 'randomize', 'module dumps', 'chord', 'notation']


@st.composite
def thread_cases(draw):
    cfgs = [draw(configs()) for _ in range(draw(st.integers(1, 2)))]
    tracks = [dict(sig=draw(midi_sigs), items=draw(free_tracks(cfgs[0], max_notes=8))) for _ in range(draw(st.integers(1, 2)))]
    files = [draw(foreign_files(max_events=8)) for _ in range(draw(st.integers(0, 2)))]
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, 6), st.integers(0, 3), st.integers(0, 30)).map(list)
    n = draw(st.integers(2, 3))
    threads = [draw(st.lists(op, min_size=1, max_size=3)) for _ in range(n)]
    if draw(st.booleans()):
        threads[1] = threads[0]
    # a schedule: some long runs, then fine-grained alternation somewhere
    runs = st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 400))
    return dict(cfgs=cfgs, tracks=tracks, files=files, observed=draw(st.integers(0, 3)), threads=threads, schedule=draw(gen.seqs(runs, 1, 12)))


def enum_threads(tier):
    """Two threads doing the same or two different things with the same objects, every early switching point."""
    cfg = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    items = [[[40 - i, [1, 2], 0.5, 0], [(i * 5) % 7, 2]] for i in range(7)]
    f = dict(tpq=96, extra=0, ts=[4, 2], chts=[], before=[], after=[], end=0,
             events=[['note', 1, 0, 60, 64, 0, 0], ['note', 1, 0, 62, 64, 1, 0], ['off', 1, 0, 60, 64, 0, 0], ['off', 9, 0, 62, 64, 0, 1]])
    g = dict(f, events=[['note', 3, 0, 50, 10, 0, 0], ['off', 30, 0, 50, 64, 0, 0]])
    pairs = [('list', 'list'), ('list', 'len'), ('dumps', 'list'), ('dumps', 'dumps'), ('equal', 'dumps'), ('loads', 'loads'), ('dump', 'loads'), ('repr', 'copy'), ('randomize', 'randomize')]
    step = 3 if tier == 'quick' else 1
    for k1, k2 in pairs:
        for first in range(1, 120, step):
            for second in (1, 7, 40, 100000):
                yield dict(cfgs=[cfg], tracks=[dict(sig=[4, 2], items=items), dict(sig=[3, 2], items=items[:3])], files=[f, g], observed=0,
                           threads=[[[k1, 0, 0, 0]], [[k2, 0, 1, 1]]], schedule=[first, second, 100000])


class Reentrant(io.BytesIO):
    """Its write and read calls use the same objects again before they go on."""

    def __init__(self, data, callback, at):
        super().__init__(data)
        self.callback, self.at, self.calls = callback, at, 0

    def _tick(self):
        self.calls += 1
        if self.calls - 1 in self.at:
            self.callback(self.calls - 1)

    def write(self, b):
        self._tick()
        n = super().write(b)
        self._tick()
        return n

    def read(self, *a):
        self._tick()
        d = super().read(*a)
        self._tick()
        return d


def run_nested(case):
    cfgs = case['cfgs']
    tracks = [build(t['sig'], t['items']) for t in case['tracks']]
    ws, rs = [writer(c) for c in cfgs], [reader(c) for c in cfgs]
    datas = [encode_foreign(f)[0] for f in case['files']]
    inner = case['inner']
    fresh = lambda: ([build(t['sig'], t['items']) for t in case['tracks']], [writer(c) for c in cfgs], [reader(c) for c in cfgs])    # noqa: E731
    want_inner = [perform(op, *fresh(), datas) for op in inner]
    runs = [0]

    def callback(_):
        for op, y in zip(inner, want_inner):
            x = perform(op, tracks, ws, rs, datas)
            require(x == y, '%s inside a %s call gives %s, alone %s', op[0], case['outer'], str(x)[:200], str(y)[:200])
            runs[0] += 1

    if case['outer'] == 'dump':
        want = attempt(lambda: fresh()[1][0].dumps(fresh()[0][0]))
        f = Reentrant(b'', callback, set(case['at']))
        got = attempt(lambda: ws[0].dump(tracks[0], f))
        require(got[0] == want[0], 'dump ended with %s', got)
        if got[0] == 'ok':
            require(f.getvalue() == want[1], 'dump interleaved with other uses of the writer wrote other bytes')
    elif datas:
        want = attempt(lambda: contents(fresh()[2][0].loads(datas[0])))
        f = Reentrant(datas[0], callback, set(case['at']))
        got = attempt(lambda: contents(rs[0].load(f)))
        require(got == want, 'load interleaved with other uses of the reader gives %s, alone %s', str(got)[:200], str(want)[:200])
    return ['nontrivial', case['outer']] if runs[0] else []


@st.composite
def nested_cases(draw):
    c = draw(thread_cases())
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, 6), st.integers(0, 3), st.integers(0, 30)).map(list)
    files = c['files'] or [draw(foreign_files(max_events=8))]
    return dict(cfgs=c['cfgs'], tracks=c['tracks'], files=files, outer=draw(st.sampled_from(['dump', 'load'])), inner=draw(st.lists(op, min_size=1, max_size=3)),
                at=draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)))


prop('C31',
     Sub('schedules', run_threads, 'two or three threads observing the same tracks and using the same writers and readers under generated schedules (hand-over at any line of melodia); '
         'non-trivial: 3+ switches', strategy=lambda tier: thread_cases(), enumerate=enum_threads, quick=1600, thorough=40000, cpu_limit=120),
     Sub('nested use', run_nested, 'file objects whose read and write calls use the same writer, reader and tracks again; non-trivial: such a call took place',
         strategy=lambda tier: nested_cases(), quick=1600, thorough=40000),
     assumptions=['no thread adds notes to a track that another thread uses', 'threads are switched at line, call and return events of melodia, not inside one line of byte code'])


# --- C32 ------------------------------------------------------------------------------------------

def duplicates(x):
    yield 'deepcopy', copy.deepcopy(x)
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield f'pickle protocol {protocol}', pickle.loads(pickle.dumps(x, protocol))


def run_duplicate(case):
    spec, s = case['note'], case['sig']
    n, x, t = mk_note(spec), sig_form(s, 0), Tone(spec[0])
    for how, y in duplicates(t):
        require(type(y) is Tone and pitch(y) == spec[0] and y == t, '%s of %r is %r', how, t, y)
    for how, y in duplicates(x):
        require(type(y) is Signature and fields(y) == fields(x) and y == x, '%s of %r is %r', how, x, y)
    for how, y in duplicates(n):
        require(type(y) is Note and note_key(y) == note_val(spec) and y == n, '%s of %r is %r', how, n, y)
        require(note_key(y.transposed(1)) == (spec[0] + 1,) + note_val(spec)[1:], '%s of %r does not transpose', how, n)
    # shallow copies of values
    for v in (t, x, n):
        require(copy.copy(v) == v, 'copy.copy(%r) is different', v)
    tr = Track(signature=x)
    for m, p in case['items']:
        tr.add(mk_note(m), None if p is None else sig_form(p, 0))
    if case['observe']:
        list(tr)
    fresh = Track(signature=x)
    for m, p in case['items']:
        fresh.add(mk_note(m), None if p is None else sig_form(p, 0))
    before = snapshot(fresh)
    for how, y in duplicates(tr):
        require(type(y) is Track and snapshot(y) == before, '%s of a track is %r, the track is %r', how, y, tr)
        require(y == tr and tr == y, '%s of a track is not equal to it', how)
        # independent: both grow, each as a fresh track would
        z = copy.deepcopy(y)
        z.add(mk_note(case['more']), None)
        z.add(mk_note(spec), sig_form(case['at'], 0))
        require(snapshot(y) == before and snapshot(tr) == before, 'adding to a copy (%s) changed the original', how)
        twin = Track(signature=x)
        for m, p in case['items']:
            twin.add(mk_note(m), None if p is None else sig_form(p, 0))
        twin.add(mk_note(case['more']), None)
        twin.add(mk_note(spec), sig_form(case['at'], 0))
        require(snapshot(z) == snapshot(twin), 'a copy (%s) grows differently from the original', how)
    both = copy.deepcopy([tr, tr, n])
    require(both[0] is both[1] and snapshot(both[0]) == before, 'deepcopy of a list with the same track twice')
    tr.add(mk_note(case['more']))
    require(snapshot(both[0]) == before, 'adding to the original changed the copy')
    return ['nontrivial'] if len(case['items']) >= 2 else []


def pitch(t):
    return t.pitch


prop('C32',
     Sub('copies', run_duplicate, 'deep copies and pickles (all protocols from 2) of all four classes, then extended; non-trivial: tracks of two or more notes',
         strategy=lambda tier: st.fixed_dictionaries(dict(
             note=st.one_of(short_notes, wild_notes), sig=st.one_of(gen.signatures(), gen.wild_times()), more=short_notes, at=positions, observe=st.booleans(),
             items=st.lists(st.tuples(st.one_of(short_notes, wild_notes), maybe_pos).map(list), max_size=8))),
         quick=2500, thorough=50000),
     assumptions=['pickle protocols 2 and later (classes with __slots__ need them)'])
