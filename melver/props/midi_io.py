"""C21, C22: file objects, entry points, histories of use."""
import errno
import io
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import gen
from ..lib import Note, Sub, Track, contents, expect_raises, fail, midi, mk_note, prop, require, sig_form, snapshot, tone_form
from ..miditools import build, configs, decode, encode_foreign, foreign_files, free_tracks, midi_sigs, reader, writer


class Custom(Exception):
    pass


class Interrupt(BaseException):
    """Stands for KeyboardInterrupt and the like."""


ERRORS = [
    lambda: OSError(errno.ENOSPC, 'No space left on device'),
    lambda: OSError(errno.EIO, 'Input/output error'),
    lambda: PermissionError(errno.EACCES, 'Permission denied'),
    lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'),
    lambda: InterruptedError(errno.EINTR, 'Interrupted'),
    lambda: BlockingIOError(errno.EAGAIN, 'Would block'),
    lambda: TimeoutError('timed out'),
    lambda: ValueError('I/O operation on closed file'),
    lambda: EOFError('no more'),
    lambda: StopIteration(),
    lambda: TypeError('a bytes-like object is required'),
    lambda: OverflowError('too large'),
    lambda: KeyError('missing'),
    lambda: IndexError('index'),
    lambda: AssertionError('assert'),
    lambda: MemoryError(),
    lambda: Custom('custom'),
    lambda: midi.MIDIError('from below'),
    lambda: Interrupt('stop'),
]


class Faulty(io.BytesIO):
    """Raises at the given call; counts every read and write call."""

    def __init__(self, data=b'', at=None, error=None, times=1):
        super().__init__(data)
        self.calls, self.at, self.error, self.times, self.raised = 0, at, error, times, 0

    def _tick(self):
        i = self.calls
        self.calls += 1
        if self.at is not None and i >= self.at and self.raised < self.times:
            self.raised += 1
            raise self.error

    def write(self, b):
        self._tick()
        return super().write(b)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, *a):
        self._tick()
        return super().read(*a)

    def read1(self, *a):
        self._tick()
        return super().read1(*a)

    def readinto(self, b):
        self._tick()
        return super().readinto(b)

    def readline(self, *a):
        self._tick()
        return super().readline(*a)


def faulted(fn, error, what, f):
    """fn uses f; returns True if the fault was hit (and surfaced), False if fn completed without meeting it."""
    try:
        r = fn()
    except BaseException as e:                      # noqa: BLE001
        if e is error:
            return True, None
        if isinstance(error, StopIteration) and isinstance(e, RuntimeError) and e.__cause__ is error:
            return True, None                       # the language turns it into a RuntimeError inside generators
        if f.raised:
            fail(f'{what}: raised {type(e).__name__}: {e} instead of the {type(error).__name__} of the file')
        raise
    if f.raised:
        fail(f'{what}: the file raised {type(error).__name__}, the caller got {str(r)[:80]!r}')
    return False, r


def fault_points(calls, size):
    """
    Indices of the calls made to fail (the last one is past the end: no fault): all of them, or, for large files
    and code that makes many calls, the first, the last and some between.
    """
    most = max(10, min(400, 60000 // (size + 1)))
    if calls < most:
        return list(range(calls + 1))
    k = most // 3
    picked = set(range(k)) | set(range(calls - k, calls + 1)) | {j * calls // (k + 1) for j in range(1, k + 1)}
    return sorted(picked)


def run_faults(case):
    cfg = case['cfg']
    t = build(case['sig'], case['items'])
    twin = build(case['sig'], case['items'])
    before = snapshot(twin)
    fw, fr = writer(cfg), reader(cfg)
    want = writer(cfg).dumps(twin)
    foreign = None
    if case.get('file'):
        foreign = encode_foreign(case['file'])[0]
    sources = [want] + ([foreign] if foreign is not None else [])
    want_tracks = [contents(reader(cfg).loads(d)) for d in sources]
    hit = 0
    for op in case['ops']:
        kind, at, err, src, times = op
        error = ERRORS[err % len(ERRORS)]()
        if kind == 'dump all':
            f = Faulty()
            fw.dump(t, f)
            for i in fault_points(f.calls, len(case['items'])):
                f = Faulty(at=i, error=error, times=times)
                met, _ = faulted(lambda: fw.dump(t, f), error, f'dump failing at write {i}', f)
                if not met:
                    require(f.getvalue() == want, 'dump after %d failures differs', hit)
                    break
                hit += 1
                require(fw.dumps(t) == want, 'after a failed dump the same writer gives other bytes')
        elif kind == 'load all':
            d = sources[src % len(sources)]
            f = Faulty(d)
            fr.load(f)
            for i in fault_points(f.calls, len(case['items'])):
                f = Faulty(d, at=i, error=error, times=times)
                met, r = faulted(lambda: fr.load(f), error, f'load failing at read {i}', f)
                if not met:
                    require(contents(r) == want_tracks[src % len(sources)], 'load after %d failures differs', hit)
                    break
                hit += 1
                require(contents(fr.loads(d)) == want_tracks[src % len(sources)], 'after a failed load the same reader gives another track')
        elif kind == 'dump':
            if not all(0 <= n[0] + 24 <= 127 for n, _ in case['items']):
                continue
            f = Faulty(at=at, error=error, times=times)
            met, _ = faulted(lambda: midi.dump(t, f), error, f'midi.dump failing at write {at}', f)
            hit += met
            if not met:
                require(f.getvalue() == midi.dumps(twin), 'dump differs from dumps')
        elif kind == 'load':
            d = sources[src % len(sources)]
            f = Faulty(d, at=at, error=error, times=times)
            met, r = faulted(lambda: midi.load(f), error, f'midi.load failing at read {at}', f)
            hit += met
        elif kind == 'retry':
            # the same file object is used again after its fault has passed
            f = Faulty(at=at, error=error, times=1)
            met, _ = faulted(lambda: fw.dump(t, f), error, 'dump', f)
            hit += met
            f.at = None
            f.seek(0)
            f.truncate(0)
            fw.dump(t, f)
            require(f.getvalue() == want, 'retried dump differs')
            f = Faulty(want, at=at, error=error, times=1)
            met, _ = faulted(lambda: fr.load(f), error, 'load', f)
            hit += met
            f.at = None
            f.seek(0)
            require(contents(fr.load(f)) == want_tracks[0], 'retried load differs')
        elif kind == 'closed':
            f = io.BytesIO(want)
            f.close()
            expect_raises(ValueError, lambda: fw.dump(t, f), 'dump to a closed file')
            expect_raises(ValueError, lambda: fr.load(f), 'load from a closed file')
            hit += 1
        elif kind == 'read-only':
            with tempfile.TemporaryDirectory(dir=os.environ.get('MELVER_SCRATCH')) as d:
                p = os.path.join(d, 'x.mid')
                with open(p, 'wb') as f:
                    fw.dump(t, f)
                with open(p, 'rb') as f:
                    expect_raises(io.UnsupportedOperation, lambda: fw.dump(t, f), 'dump to a file opened for reading')
                with open(p, 'ab') as f:
                    expect_raises(io.UnsupportedOperation, lambda: fr.load(f), 'load from a file opened for writing')
                with open(p, 'rb') as f:
                    require(f.read() == want, 'file content')
            hit += 1
        elif kind == 'full':
            # the device is full: the error appears in write (unbuffered) or when the buffer is flushed
            with open('/dev/full', 'wb', buffering=0) as f:
                e = expect_raises(OSError, lambda: fw.dump(t, f), 'dump to a full device')
                require(e.errno == errno.ENOSPC, 'errno %r', e.errno)
            hit += 1
        require(snapshot(t) == before, 'after %s the track changed', kind)
        require(fw.dumps(t) == want, 'after %s the writer gives other bytes', kind)
        require([contents(fr.loads(d)) for d in sources] == want_tracks, 'after %s the reader gives other tracks', kind)
    labels = ['nontrivial'] if hit >= 2 else []
    return labels + sorted({o[0] for o in case['ops']})


@st.composite
def fault_cases(draw):
    cfg = draw(configs())
    op = st.tuples(st.sampled_from(['dump all', 'load all', 'load all', 'dump', 'load', 'retry', 'closed', 'read-only', 'full']), st.integers(0, 6),
                   st.integers(0, len(ERRORS) - 1), st.integers(0, 1), st.sampled_from([1, 1, 2, 1000])).map(list)
    return dict(cfg=cfg, sig=draw(midi_sigs), items=draw(free_tracks(cfg, max_notes=6)), ops=draw(gen.seqs(op, 1, 6)),
                file=draw(st.one_of(st.none(), foreign_files(max_events=8))))


def enum_faults(tier):
    d = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    items = [[[36, [1, 2], 0.5, 0], [0, 0]], [[40, [1, 3], 1.0, 0], [1, 2]]]
    # large files: the code may write or read in pieces
    for n in (2500, 9000) if tier == 'quick' else (2500, 9000, 20000, 70000):
        many = [[[30 + i % 40, [1, 4], (1 + i % 127) / 127.0, 0], [i, 4]] for i in range(n)]
        for e in (0, 1) if tier == 'quick' else range(4):
            for times in (1, 1000):
                yield dict(cfg=d, sig=[4, 2], items=many, file=None, ops=[['dump all', 0, e, 0, times], ['load all', 0, e, 0, times]])
    for n in (40000,) if tier == 'quick' else (40000, 150000):
        many = [[[30 + i % 40, [1, 4], (1 + i % 127) / 127.0, 0], [i, 4]] for i in range(n)]
        yield dict(cfg=d, sig=[4, 2], items=many, file=None, ops=[['dump all', 0, 0, 0, 1]])
        yield dict(cfg=d, sig=[4, 2], items=many, file=None, ops=[['load all', 0, 1, 0, 1000]])
    for its in ([], items, items * 200):
        for e in range(len(ERRORS)):
            for times in (1, 1000):
                yield dict(cfg=d, sig=[4, 2], items=its, file=None, ops=[['dump all', 0, e, 0, times], ['load all', 0, e, 0, times], ['retry', 1, e, 0, times]])


prop('C21',
     Sub('faults', run_faults, 'file objects failing at every read/write call index with many exception types, mixed with good operations; non-trivial: 2+ faults met',
         strategy=lambda tier: fault_cases(), enumerate=enum_faults, quick=1600, thorough=40000, cpu_limit=150),
     assumptions=['faults are exceptions raised by read and write calls of the file object; a short count returned without an error is not a fault'])


# --- C22 ------------------------------------------------------------------------------------------

class WriteOnly(io.BufferedIOBase):
    """A pipe: no seeking, no reading."""

    def __init__(self):
        self.parts = []

    def writable(self):
        return True

    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


class ReadOnly(io.BufferedIOBase):
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        return self.f.read(n)

    def read1(self, n=-1):
        return self.f.read(n)


def order(items, how):
    items = list(items)
    if how == 1:
        items.reverse()
    elif how == 2:
        items = items[1::2] + items[0::2]
    elif how == 3:
        items.sort(key=lambda x: (x[0][0], x[1][1]))
    return items


def rewritten(items, dk):
    return [[[n[0], [n[1][0] << dk, n[1][1] + dk], n[2]] + [0], [p[0] << dk, p[1] + dk]] for n, p in items]


def run_use(case):
    cfgs = case['cfgs']
    ws = [writer(c) for c in cfgs]
    rs = [reader(c) for c in cfgs]
    base_mc = cfgs[0]['mc']
    tracks, copies = [], []
    for tr in case['tracks']:
        tracks.append(build(tr['sig'], tr['items']))
        copies.append(tr)
    snaps = [snapshot(t) for t in tracks]

    def expected(ti, wi):
        """Bytes from a writer and a track that have never been used."""
        return writer(cfgs[wi]).dumps(build(copies[ti]['sig'], copies[ti]['items']))

    datas = [encode_foreign(f)[0] for f in case['files']]
    labels = set()
    used = 0

    def representable(ti, wi):
        return all(0 <= n[0] - cfgs[wi]['mc'] + 60 <= 127 for n, _ in copies[ti]['items'])

    for op in case['ops']:
        kind, a, b, c = op
        ti, wi = a % len(tracks), b % len(ws)
        t, w, r = tracks[ti], ws[wi], rs[wi]
        if kind in ('dumps', 'dump', 'pipe', 'real file', 'history', 'module') and not representable(ti, wi):
            expect_raises(ValueError, lambda: w.dumps(t), 'tone out of range')
            labels.add('failed use')
            continue
        if kind == 'dumps':
            want = expected(ti, wi)
            got = w.dumps(t)
            require(type(got) is bytes, 'dumps returned %s', type(got).__name__)
            require(got == want, 'repeated use of a writer changed the bytes')
            require(w.dumps(t) == want, 'second dumps differs')
        elif kind == 'dump':
            want = expected(ti, wi)
            pre, post = bytes(range(c % 50)), b'\xAA' * (c % 300)
            f = io.BytesIO(pre + post)
            f.seek(len(pre))
            ret = w.dump(t, f)
            require(ret is None, 'dump returned %r', ret)
            require(not f.closed, 'dump closed the file')
            require(f.tell() == len(pre) + len(want), 'dump left the file at %d, wrote %d bytes from %d', f.tell(), len(want), len(pre))
            require(f.getvalue() == pre + want + post[len(want):], 'dump to a file differs from dumps')
            # several files one after the other
            w.dump(t, f)
            require(f.getvalue()[len(pre):len(pre) + 2 * len(want)] == want * 2, 'second dump into the same file differs')
            labels.add('file position')
        elif kind == 'pipe':
            want = expected(ti, wi)
            f = WriteOnly()
            w.dump(t, f)
            require(b''.join(f.parts) == want, 'dump to a pipe differs from dumps')
            require(not f.closed, 'dump closed the file')
            require(contents(r.load(ReadOnly(want))) == contents(r.loads(want)), 'load from a pipe differs from loads')
        elif kind == 'real file':
            want = expected(ti, wi)
            with tempfile.TemporaryDirectory(dir=os.environ.get('MELVER_SCRATCH')) as d:
                p = os.path.join(d, 'x.mid')
                with open(p, 'wb', buffering=-1 if c % 2 else 0) as f:
                    w.dump(t, f)
                    require(not f.closed, 'dump closed the file')
                with open(p, 'rb') as f:
                    require(f.read() == want, 'file on disk differs from dumps')
                    f.seek(0)
                    x = r.load(f)
                    require(not f.closed, 'load closed the file')
                    require(x == r.loads(want) and contents(x) == contents(r.loads(want)), 'load from disk differs from loads')
                with open(p, 'ab') as f:
                    w.dump(t, f)
                with open(p, 'rb') as f:
                    require(f.read() == want * 2, 'appending to a file overwrote it')
        elif kind == 'history':
            # the same notes entered in another order, written with other denominators, observed in between
            other = build(copies[ti]['sig'], [])
            items = rewritten(order(copies[ti]['items'], c % 4), c % 3)
            for i, (n, p) in enumerate(items):
                other.add(mk_note(n), sig_form(p, i))
                if (c >> 4) % 3 == i % 3:
                    list(other), len(other), str(other)
            require(w.dumps(other) == expected(ti, wi), 'a track with the same notes and signature exports to other bytes (order %d, denominators x%d)', c % 4, 1 << c % 3)
            labels.add('other history')
        elif kind == 'module':
            bpm, ch = cfgs[wi]['bpm'], cfgs[wi]['ch']
            if not all(0 <= n[0] + 24 <= 127 for n, _ in copies[ti]['items']):
                expect_raises(ValueError, lambda: midi.dumps(t), 'tone out of range')
                continue
            want = midi.MIDIWriter(bpm=bpm, channel=ch).dumps(t)
            require(midi.MIDIWriter(96, tone_form(36, c), bpm, ch).dumps(t) == want, 'writer defaults differ from the documented ones')
            require(midi.dumps(t, bpm=bpm, channel=ch) == want, 'midi.dumps differs from MIDIWriter.dumps')
            require(midi.dumps(t, bpm, ch) == want, 'midi.dumps (positional) differs')
            for args, kw in (((bpm, ch), {}), ((), dict(bpm=bpm, channel=ch))):
                f = io.BytesIO()
                midi.dump(t, f, *args, **kw)
                require(f.getvalue() == want and not f.closed, 'midi.dump differs from MIDIWriter.dumps')
            require(midi.dumps(t) == midi.MIDIWriter(96, 'C3', 120.0, 0).dumps(t), 'midi.dumps defaults differ')
            require(midi.dumps(t, channel=ch) == midi.MIDIWriter(channel=ch).dumps(t), 'midi.dumps channel')
            require(midi.dumps(t, bpm=bpm) == midi.MIDIWriter(bpm=bpm).dumps(t), 'midi.dumps bpm')
            labels.add('module functions')
        elif kind in ('loads', 'edit import'):
            d = datas[a % len(datas)]
            for ch in (None, case['files'][a % len(datas)]['events'][0][2] if case['files'][a % len(datas)]['events'] else 0):
                if isinstance(ch, list):
                    ch = 0
                if ch is not None and not 0 <= ch <= 15:
                    continue
                try:
                    fresh = reader(cfgs[wi]).loads(d, channel=ch)
                except ValueError:
                    expect_raises(ValueError, lambda: r.loads(d, channel=ch), 'missing channel')
                    expect_raises(ValueError, lambda: r.load(io.BytesIO(d), channel=ch), 'missing channel')
                    continue
                want = snapshot(fresh)
                x = r.loads(d, channel=ch)
                require(snapshot(x) == want, 'reused reader gives another track')
                pre = bytes(range(c % 50))
                f = io.BytesIO(pre + d)
                f.seek(len(pre))
                y = r.load(f, channel=ch) if c % 2 else r.load(f, ch)
                require(not f.closed, 'load closed the file')
                require(f.tell() >= len(pre), 'load moved back')
                require(snapshot(y) == want, 'load from a file differs from loads')
                require(f.getvalue() == pre + d, 'load changed the file')
                require(x == y and y == fresh, 'imported tracks differ')
                require(snapshot(r.loads(bytearray(d), channel=ch)) == want, 'loads(bytearray) differs')
                require(snapshot(r.load(ReadOnly(d), channel=ch)) == want, 'load from a pipe differs from loads')
                z = midi.MIDIReader('C3').loads(d, channel=ch)
                require(snapshot(midi.loads(d, channel=ch)) == snapshot(z), 'midi.loads differs from MIDIReader')
                require(snapshot(midi.loads(d, ch)) == snapshot(z), 'midi.loads (positional) differs')
                require(snapshot(midi.load(io.BytesIO(d), channel=ch)) == snapshot(z), 'midi.load differs from MIDIReader')
                require(snapshot(midi.load(io.BytesIO(d), ch)) == snapshot(z), 'midi.load (positional) differs')
                require(snapshot(midi.MIDIReader().loads(d, channel=ch)) == snapshot(z), 'reader defaults differ from the documented ones')
                if kind == 'edit import':
                    x.add(Note(1, (1, 4), 0.5), (c, 4))
                    x.add(Note(2))
                    require(snapshot(y) == want and snapshot(fresh) == want, 'editing one imported track changed another')
                    require(snapshot(r.loads(d, channel=ch)) == want, 'editing an imported track changed later imports')
                    labels.add('edited import')
        elif kind == 'passing tracks':
            # short-lived tracks of equal shape, through the same writer and reader, so that object identities come round again
            for k in range(6):
                n = Note(base_mc - 20 + (c + 7 * k) % 40, (1, 4), ((c + k) % 128) / 127.0)
                x = Track(signature=(4, 4), content=[(n, (k % 2, 4)), (n, (1 - k % 2, 4))])
                if len(x) != 2:
                    fail('a new track of two notes has length %d' % len(x))
                y = writer(cfgs[0]).dumps(Track(signature=(4, 4), content=[(n, (0, 4)), (n, (1, 4))]))
                require(ws[0].dumps(x) == y, 'a writer used for many short-lived tracks gives other bytes')
                z = rs[0].loads(bytes(bytearray(y)))
                require(contents(z) == contents(reader(cfgs[0]).loads(y)), 'a reader used for many short-lived byte strings gives another track')
                del n, x, y, z
            # the same with the module functions; what comes out is judged by the decoded notes, not by another call
            for k in range(6):
                p, v = 20 + (c + 7 * k) % 80, (c + k) % 127 + 1
                x = Track(signature=(4, 4), content=[(Note(36 + p - 60, (1, 4), v / 127.0), (k % 2, 4)), (Note(36 + p - 60, (1, 4), v / 127.0), (1 - k % 2, 4))])
                f = io.BytesIO()
                midi.dump(x, f)
                for d in (midi.dumps(x), f.getvalue()):
                    got = sorted((e[0], e[3], e[4]) for e in decode(d)['events'] if e[1] == 'on')
                    require(got == [(0, p, v), (96, p, v)], 'the module functions used for many short-lived tracks export %s for two notes of pitch %d, velocity %d', got, p, v)
                want = [(0, p - 24, v), (1, p - 24, v)]
                for z in (midi.loads(bytes(bytearray(d))), midi.load(io.BytesIO(d))):
                    got = [(4 * float(a), b, round(e * 127)) for a, b, _, e in contents(z)]
                    require(got == want, 'the module functions used for many short-lived byte strings import %s instead of %s', got, want)
                del x, d, f, z
            labels.add('short-lived tracks')
        elif kind == 'bad load':
            d = datas[a % len(datas)]
            bad = d[:c % len(d)]
            try:
                r.loads(bad)
            except midi.MIDIParsingError:
                pass
            try:
                r.load(io.BytesIO(bad), channel=c % 16)
            except (midi.MIDIParsingError, ValueError):
                pass
            labels.add('failed use')
        elif kind == 'bad dump':
            bad = Track(content=[(Note(0), None), (Note(base_mc + 1000), None)])
            expect_raises(ValueError, lambda: ws[0].dumps(bad), 'tone out of range')
            labels.add('failed use')
        used += 1
        require(snapshot(t) == snaps[ti], '%s changed the track', kind)
    for t, s in zip(tracks, snaps):
        require(snapshot(t) == s, 'a track was changed')
    if used >= 3:
        labels.add('nontrivial')
    return sorted(labels) + ['op ' + o[0] for o in case['ops']]


@st.composite
def use_cases(draw):
    cfgs = [draw(configs()) for _ in range(draw(st.integers(1, 2)))]
    tracks = []
    for i in range(draw(st.integers(1, 3))):
        cfg = cfgs[i % len(cfgs)] if draw(st.booleans()) else dict(ppq=96, mc=36)
        tracks.append(dict(sig=draw(midi_sigs), items=draw(free_tracks(cfg, max_notes=7))))
    files = [draw(foreign_files(max_events=8, chts=True)) for _ in range(draw(st.integers(1, 2)))]
    op = st.tuples(st.sampled_from(['dumps', 'dump', 'pipe', 'real file', 'history', 'history', 'module', 'loads', 'edit import', 'passing tracks', 'bad load', 'bad dump']),
                   st.integers(0, 5), st.integers(0, 5), st.integers(0, 600)).map(list)
    return dict(cfgs=cfgs, tracks=tracks, files=files, ops=draw(gen.seqs(op, 1, 9)))


def enum_use(tier):
    cfg = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    f = dict(tpq=96, extra=0, ts=[4, 2], chts=[], before=[], after=[], end=0, mc=36, mform=0, events=[['note', 0, 2, 60, 64, 0, 0], ['off', 9, 2, 60, 64, 0, 0]])
    for size in (5000, 70000, (1 << 20) + 100) if tier == 'quick' else (5000, 70000, (1 << 20) + 100, (1 << 24) + 100, 1 << 26):
        for where in ('before', 'after'):
            for c in (0, 1, 7):
                yield dict(cfgs=[cfg], tracks=[dict(sig=[4, 2], items=[])], files=[dict(f, **{where: [['JUNK', size]]})], ops=[['loads', 0, 0, c], ['edit import', 0, 0, c]])
    # many short-lived objects in a row
    for c in range(12):
        yield dict(cfgs=[cfg], tracks=[dict(sig=[4, 2], items=[])], files=[f], ops=[['passing tracks', 0, 0, c + k] for k in range(8)])


PROGRAM = '''
import json, sys
sys.set_int_max_str_digits(0)
from melver import lib, miditools
cases = json.load(sys.stdin)
out = []
for c in cases:
    out.append(miditools.writer(c['cfg']).dumps(miditools.build(c['sig'], c['items'])).hex())
json.dump(out, sys.stdout)
'''


def run_process(case):
    """The same exports in another process with another hash seed."""
    import json
    env = dict(os.environ, PYTHONHASHSEED=str(case['hash']))
    p = subprocess.run([sys.executable, '-c', PROGRAM], input=json.dumps(case['cases']).encode(), stdout=subprocess.PIPE, env=env, timeout=120)
    require(p.returncode == 0, 'export in a fresh process failed')
    for c, h in zip(case['cases'], json.loads(p.stdout)):
        require(writer(c['cfg']).dumps(build(c['sig'], c['items'])).hex() == h, 'the export depends on the process: %s', c)
    return ['nontrivial'] if any(c['items'] for c in case['cases']) else []


@st.composite
def process_cases(draw):
    cases = []
    for _ in range(10):
        cfg = draw(configs())
        cases.append(dict(cfg=cfg, sig=draw(midi_sigs), items=draw(free_tracks(cfg, max_notes=8))))
    return dict(hash=draw(st.integers(1, 10 ** 6)), cases=cases)


prop('C22',
     Sub('histories of use', run_use, 'interleaved use of several writers, readers, tracks and files compared with fresh objects; non-trivial: 3+ completed operations',
         strategy=lambda tier: use_cases(), enumerate=enum_use, quick=2400, thorough=50000),
     Sub('other process', run_process, 'ten exports repeated in a fresh process with another hash seed; non-trivial: some track has notes',
         strategy=lambda tier: process_cases(), quick=24, thorough=300))
