"""C16, C17, C18, C19: MIDI import."""
import io
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, smf
from ..lib import Note, Sub, Track, contents, expect_raises, fail, fields, frac, midi, prop, require, tone_form, val
from ..miditools import (SYSTEM, build, bulk_items, configs, deltas, encode_foreign, filler, flattened, foreign_files, free_tracks, match_notes, midi_sigs, ppqs, writer)

MIDIParsingError = midi.MIDIParsingError


def reader_for(case):
    return midi.MIDIReader(middle_c=tone_form(case['mc'], case['mform']))


def foreign_labels(case, notes):
    events = list(flattened(case['events']))
    kinds = {e[0] for e in events}
    labels = ['with ' + k for k in sorted(kinds)]
    total = sum(map(len, notes.values()))
    if total >= 2 and (kinds & {'chan', 'sysex', 'meta', 'off'} or len(notes) > 1):
        labels.append('nontrivial')
    if any(len(e) > 6 and e[-1] for e in events):
        labels.append('running status allowed')
    if case.get('before') or case.get('after'):
        labels.append('alien chunks')
    if case.get('ts') is None:
        labels.append('no time signature')
    return labels


def run_foreign(case):
    data, notes, seen = encode_foreign(case)
    t = reader_for(case).loads(data)
    want = [n for ns in notes.values() for n in ns]
    got = contents(t)
    match_notes(got, want, case['mc'], case['tpq'], 'import')
    sigv = case.get('ts') or [4, 2]
    require(frac(t.signature) == val(sigv), 'time signature %d/2^%d read as %s', sigv[0], sigv[1], t.signature)
    if sigv[0] > 0:
        require(fields(t.signature) == (sigv[0], 1 << sigv[1]), 'time signature %d/2^%d read as %s', sigv[0], sigv[1], t.signature)
    require(len(t) == len(want), 'len is %d', len(t))
    require(all(a[0] <= b[0] for a, b in zip(got, got[1:])), 'positions are out of order')
    require(frac(t.length) == max((g[0] + g[2] for g in got), default=Fraction(0)), 'length is %s', t.length)
    return foreign_labels(case, notes)


def one(events, tpq=96, **kw):
    return dict(dict(tpq=tpq, extra=0, ts=[4, 2], chts=[], before=[], after=[], end=0, mc=36, mform=0, events=events), **kw)


def enum_foreign(tier):
    N = lambda d, ch, p, v=100, s=0, r=0: ['note', d, ch, p, v, s, r]      # noqa: E731
    # all statuses of channel events between two notes, with and without running status
    for hi in (0xA, 0xB, 0xC, 0xD, 0xE):
        for ch in range(16):
            for run in (0, 1):
                yield one([N(0, ch, 60), ['chan', 5, hi, ch, 60, 0, run], ['chan', 5, hi, ch, 0, 127, run], N(10, ch, 60, 1, run, run), N(3, (ch + 1) % 16, 61, 127, 0, run), N(1, (ch + 1) % 16, 61, 1, 1, run)])
    # every controller, with values that switch something
    for cc in range(128):
        for v in (0, 1, 64, 127):
            for ch in (0, 9, 15, cc % 16):
                yield one([N(0, ch, 60), ['chan', 5, 0xB, ch, cc, v, 0], N(10, ch, 60), ['chan', 5, 0xB, ch, cc, v, 1], N(0, ch, 61), ['chan', 0, 0xB, ch, cc, v, 1], N(3, ch, 61, 1, 1)])
    for v in range(128):
        for hi in (0xA, 0xC, 0xD, 0xE):
            yield one([N(0, v % 16, 60), ['chan', 5, hi, v % 16, v, 127 - v, 0], N(10, v % 16, 60), ['chan', 5, hi, v % 16, 127 - v, v, 1], N(0, v % 16, 61), N(3, v % 16, 61, 1, 1)])
    # voices at once
    for n in list(range(2, 18)) + [24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 126, 127, 128]:
        for back in (1, -1):
            for chs in ((0,), (9,), (3, 4), tuple(range(16))):
                evs = [N(i % 3, c, (i * 37) % 128, 1 + i % 127, 0, 1) for i in range(n) for c in chs]
                yield one(evs + [N(1, c, (i * 37) % 128, 64, i % 2, 1) for i in list(range(n))[::back] for c in chs])
    # headers and chunk names
    for n in list(range(0, 40)) + [57, 58, 59, 122, 250, 251, 1018, 4090, 65529, 65530, 70000]:
        yield one([N(0, 0, 60), N(10, 0, 60)], extra=n)
    for b in range(256):
        c = chr(b)
        for name in (c * 4, 'MT' + c + 'k', 'MTr' + c, c + 'Trk', 'MTh' + c, 'M' + c + 'rk', 'X' + c + '\x00z'):
            if name not in ('MThd', 'MTrk'):
                yield one([N(0, 0, 60), N(10, 0, 60)], before=[[name, b % 20]])
                yield one([N(0, 0, 60), N(10, 0, 60)], after=[[name, b % 11]])
    for b in range(256):
        yield one([N(0, 0, 60), N(10, 0, 60)], ts=[3, 2], ccbb=[b, 8])
        yield one([N(0, 0, 60), N(10, 0, 60)], ts=[6, 3], ccbb=[24, b])
        yield one([N(0, 0, 60), N(10, 0, 60)], ts=[5, 4], ccbb=[b, b])
    # meta events that state something
    M = lambda d, kind, *data: ['meta', d, kind, len(data), list(data)]    # noqa: E731
    for x in [1 << e for e in range(24)] + [(1 << e) - 1 for e in range(1, 25)] + [500000, 600000, 10, 999]:
        yield one([N(0, 0, 60), M(7, 0x51, *x.to_bytes(3, 'big')), N(10, 0, 60), M(0, 0x51, *x.to_bytes(3, 'big')), N(0, 0, 61), N(3, 0, 61)])
    for sf in range(-7, 8):
        for mi in (0, 1):
            yield one([M(0, 0x59, sf & 0xFF, mi), N(0, 0, 60), M(7, 0x59, sf & 0xFF, mi), N(10, 0, 60), N(0, 0, 61), N(3, 0, 61)])
    for x in range(128):
        yield one([M(0, 0x21, x), N(0, 0, 60), M(7, 0x21, x), N(10, 0, 60), M(0, 0, x, 255 - x), N(0, 0, 61), N(3, 0, 61)])
        yield one([M(0, 0x54, x % 24 | x % 4 << 5, x % 60, x * 7 % 60, x % 24, x % 100), N(0, 0, 60), N(10, 0, 60)])
    # the time signature anywhere
    for i in range(6):
        for delta in (0, 1, 100, 384, 20000, 1 << 24):
            yield one([N(1, 0, 60), ['meta', 0, 1, 3], N(10, 0, 60), N(0, 3, 61), N(3, 3, 61)], ts=[3 + i, 3], tsat=[i, delta])
    # every meta type (except those with a prescribed meaning for the reader)
    for kind in range(0x80):
        if kind in (0x20, 0x2F, 0x58):
            continue
        for n in (0, 1, 2, 5, 127, 128, 200):
            yield one([N(0, 0, 60), ['meta', 7, kind, n], N(10, 0, 60), N(0, 0, 60), ['meta', 0, kind, n], N(9, 0, 60)])
    for st_ in (0xF0, 0xF7):
        for n in list(range(0, 12)) + [126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65536]:
            yield one([N(0, 0, 60), ['sysex', 7, st_, n], N(10, 0, 60), ['sysex', 0, st_, n], N(0, 0, 64), N(1, 0, 64)])
    for st_, n in SYSTEM.items():
        for d1, d2 in ((0, 0), (1, 2), (0x3C, 0x40), (127, 127)):
            yield one([N(0, 0, 60), ['system', 7, st_, d1, d2], N(10, 0, 60), ['system', 200, st_, d1, d2], ['system', 0, st_, d2, d1], N(0, 0, 64), N(1, 0, 64)])
    for a in SYSTEM:
        for b in SYSTEM:
            yield one([N(0, 3, 60), ['system', 7, a, 5, 6], ['system', 0, b, 0, 1], ['meta', 1, 1, 3], ['system', 2, b, 6, 7], N(10, 3, 60, 0, 0)])
    # resolutions, all
    for tpq in range(1, 32768, 1 if tier == 'thorough' else 5):
        yield one([N(tpq, 0, 60), N(tpq, 0, 60), N(tpq * 3, 5, 61), N(1, 5, 61, 5, 1)], tpq=tpq)
    # beyond 2^32 ticks
    for m in (7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 100) + ((5000,) if tier == 'thorough' else ()):
        for tpq in (1, 96, 480, 4096, 32767):
            for ev in (['chan', 0x0FFFFFFF, 0xB, 0, 7, 7, 1], ['meta', 0x0FFFFFFF, 1, 3]):
                yield one([['times', m, [ev]], N(1, 0, 60), N(7, 0, 60), N(0, 0, 60), ['times', m, [ev]], N(9, 0, 60)], tpq=tpq)
    # delta boundaries
    for e in range(29):
        for d in (-1, 0, 1):
            T = (1 << e) + d
            if 0 <= T <= 0x0FFFFFFF:
                yield one([N(T, 0, 60), N(T, 0, 60), N(T, 0, 62), N(T, 0, 62, 1, 1)])
    for p in range(128):
        for v in (1, 2, 63, 64, 126, 127, 1 + p % 127):
            yield one([N(4, p % 16, p, v), N(4, p % 16, p, v, p % 2)], mc=48 - p % 5)
    # large events and chunks, beyond 2^16 and 2^24 bytes
    for n in (65535, 65536, 70000, 2097152, (1 << 24) - 40, 1 << 24, (1 << 24) + 100):
        yield one([N(0, 0, 60), ['meta', 7, 1, n], N(10, 0, 60)])
        yield one([N(0, 0, 60), N(10, 0, 60)], before=[['JUNK', n]])
    yield one([N(0, 0, 60), ['sysex', 7, 0xF0, (1 << 24) + 5], N(10, 0, 60)])
    yield one([N(0, 0, 60), N(10, 0, 60)], after=[['JUNK', (1 << 24) + 1]])
    # very many of each kind of thing, so that nothing may depend on how many there are
    for n in (60, 300, 1100, 2500) if tier == 'quick' else (17, 33, 65, 129, 257, 300, 520, 1030, 1100, 2500, 5000, 12000, 70000):
        for ev in (['chan', 1, 0xB, 0, 7, 7, 1], ['chan', 0, 0xE, 3, 7, 7, 0], ['chan', 2, 0xC, 0, 7, 7, 1], ['sysex', 1, 0xF0, 3], ['sysex', 0, 0xF7, 0], ['meta', 1, 1, 0], ['meta', 0, 0x51, 3],
                   ['off', 1, 0, 61, 64, 0, 1], ['off', 1, 5, 61, 64, 1, 0]):
            yield one([N(0, 0, 60), ['times', n, [ev]], N(10, 0, 60), N(0, 0, 64), N(5, 0, 64)])
        yield one([['times', n, [N(1, 0, 60, 90, 1, 1), N(2, 0, 60, 90, 1, 1)]]])
        yield one([['times', n, [N(1, 2, 60), ['meta', 0, 3, 4], N(2, 2, 60), ['chan', 0, 0xA, 2, 60, 1, 1]]]])
        for size in (0, 5):
            yield one([N(0, 0, 60), N(10, 0, 60)], before=[['JUNK', size, n]])
            yield one([N(0, 0, 60), N(10, 0, 60)], after=[['XFIH', size, n]])
    for nn, dd in [(0, 0), (1, 0), (255, 0), (3, 2), (6, 3), (12, 4), (7, 7), (5, 100), (255, 255)]:
        yield one([N(0, 0, 60), N(10, 0, 60)], ts=[nn, dd])
        yield one([], ts=[nn, dd])
    yield one([])
    yield one([], ts=None)
    yield one([N(0, 0, 60), N(10, 0, 60)], ts=None)


def long_files(tier):
    """Files with very many events on several channels."""
    hi = 3000 if tier == 'quick' else 20000

    @st.composite
    def go(draw):
        n, seed, run = draw(gen.sizes(hi)), draw(st.integers(0, 999)), draw(st.integers(0, 1))
        return dict(one([], tpq=draw(ppqs), mc=draw(st.integers(0, 60))), gen=[n, seed, run])

    return go()


def enum_long(tier):
    for n in (5000, 9000, 60000) if tier == 'quick' else (5000, 9000, 17000, 20000, 33333, 70000, 140000, 420000):
        for seed in (1, 2, 24) if n < 10000 or tier != 'quick' else (1,):
            yield dict(one([], tpq=480), gen=[n, seed, seed % 2])


def run_long(case):
    return run_foreign(long_case(case))


def long_case(case):
    n, seed, run = case['gen']
    evs = []
    for i in range(n):
        evs.append(['note', (i * 7 + seed) % 50, (i + seed) % 3 * 7, 40 + (i * i + seed) % 17, 1 + (i * 3) % 127, i % 2, run])
        if i % 11 == 0:
            evs.append(['chan', i % 4, 0xB, i % 16, i % 128, 1, run])
        if i % 97 == 5:
            evs.append(['meta', 1, 1, i % 300])
    return dict(case, events=evs)


prop('C16',
     Sub('foreign files', run_foreign, 'synthetic format-0 files with running status, other channel messages, sysex, meta events, alien chunks; non-trivial: 2+ notes and some other event or a second channel',
         strategy=lambda tier: foreign_files(), enumerate=enum_foreign, quick=9000, thorough=120000, cpu_limit=200),
     Sub('long files', run_long, 'files with up to thousands of events; same rule', strategy=long_files, enumerate=enum_long, quick=100, thorough=1500, cpu_limit=200),
     Sub('file bytes', lambda c: run_valid_hex(c), 'single-bit variations of a corpus of small files that an independent strict parser accepts; in the thorough tier also the inputs of the coverage-guided fuzzer; non-trivial: accepted by the independent parser',
         enumerate=lambda tier: enum_seeds(tier), cpu_limit=30),
     fuzz=lambda seed, scratch: fuzzer('C16')(seed, scratch),
     assumptions=['a pitch is not struck again on a channel where it is sounding', 'at most one time signature per scope'])


# --- C17 ------------------------------------------------------------------------------------------

def run_channels(case):
    data, notes, seen = encode_foreign(case)
    r = reader_for(case)
    merged = contents(r.loads(data))
    union = Counter()
    own = {c[0]: [c[1], c[2]] for c in case.get('chts', [])}
    common = set()
    for ch in range(16):
        if ch in seen:
            t = r.loads(data, channel=ch)
            got = contents(t)
            match_notes(got, notes.get(ch, []), case['mc'], case['tpq'], f'channel {ch}')
            want = own.get(ch) or case.get('ts') or [4, 2]
            if ch not in own and case.get('ts') and case.get('tsm'):
                # several for the whole file: any of them, but one for all channels
                common.add(fields(t.signature))
                require(len(common) == 1 and common <= {(n, 1 << d) for n, d in [case['ts']] + case['tsm']}, 'time signatures %s for channels that state none, the file states %s', common, [case['ts']] + case['tsm'])
                union.update(got)
                continue
            require(fields(t.signature) == (want[0], 1 << want[1]), 'channel %d: time signature %s, expected %d/2^%d', ch, t.signature, want[0], want[1])
            union.update(got)
        elif seen:
            expect_raises(ValueError, lambda: r.loads(data, channel=ch), f'channel {ch} without notes')
    require(Counter(merged) == union, 'all channels together: %d notes, the channels have %d', len(merged), sum(union.values()))
    match_notes(merged, [n for ns in notes.values() for n in ns], case['mc'], case['tpq'], 'all channels')
    if case['mform'] == 0 and case['mc'] == 36:
        for ch in sorted(seen):
            require(midi.loads(data, channel=ch) == r.loads(data, channel=ch), 'module function differs for channel %d', ch)
    labels = []
    if len([c for c in notes if notes[c]]) >= 2:
        labels.append('nontrivial')
        ps = [{n[2] for n in ns} for ns in notes.values()]
        if any(a & b for i, a in enumerate(ps) for b in ps[i + 1:]):
            labels.append('shared pitch')
    if own:
        labels.append('channel time signature')
    return labels


def enum_channels(tier):
    # two channels sounding the same pitch in every interleaving of on/off
    import itertools
    for n in range(1, 17):
        for off in (0, 1, 5, 9, 15):
            for step in (1, 5, 15):
                chs = [(off + i * step) % 16 for i in range(n)]
                for pitch in (lambda c: 60, lambda c: 50 + c):
                    yield one([['note', 1, c, pitch(c), 10 + c, 0, 1] for c in chs] + [['note', 2, c, pitch(c), 10 + c, 1, 1] for c in chs], chts=[[chs[-1], 3, 2]] if off else [])
    for a in range(16):
        for b in ((a + 1) % 16, (a + 5) % 16, 15 - a):
            if a == b:
                continue
            for order in set(itertools.permutations([a, a, b, b])):
                for style in (0, 1):
                    yield one([['note', 3, c, 60, 10 + c + i, style, style] for i, c in enumerate(order)], mc=36)


prop('C17',
     Sub('channels', run_channels, 'multi-channel files, every channel argument and none; non-trivial: completed notes on 2+ channels',
         strategy=lambda tier: foreign_files(n_channels=5, chts=True, max_events=24), enumerate=enum_channels, quick=7000, thorough=80000),
     Sub('long files', lambda c: run_channels(long_case(c)), 'files with up to thousands of events on several channels; same rule', strategy=long_files, enumerate=enum_long, quick=60, thorough=800, cpu_limit=200),
     assumptions=['the time signature of the merged track is not judged when channels state different ones',
                  'when several are stated for the whole file, any of them, but the same one for all channels'])


# --- C18 ------------------------------------------------------------------------------------------

def check_any(data: bytes, channel):
    """Track or MIDIParsingError (or ValueError for a missing channel)."""
    try:
        t = midi.loads(data) if channel is None else midi.loads(data, channel=channel)
    except MIDIParsingError:
        return None
    except ValueError as e:
        if channel is None:
            fail(f'ValueError from loads: {e}')
        try:
            midi.loads(data)
        except Exception as e2:                     # noqa: BLE001
            fail(f'ValueError for channel {channel}, but the file itself gives {type(e2).__name__}')
        return None
    except Exception as e:                          # noqa: BLE001
        fail(f'{type(e).__name__} from loads: {str(e)[:200]}; input {data[:80].hex()}')
    got = contents(t)
    require(all(a[0] <= b[0] for a, b in zip(got, got[1:])), 'positions out of order')
    require(all(0 <= g[3] <= 1 for g in got), 'velocity outside [0, 1]: %s', [g[3] for g in got][:5])
    require(len(t) == len(got), 'len(track) is %d, %d notes', len(t), len(got))
    require(frac(t.length) == max((g[0] + g[2] for g in got), default=Fraction(0)), 'length is %s', t.length)
    frac(t.signature)
    require(t == t, 'track is not equal to itself')
    return t


def mutate(data: bytes, muts) -> bytes:
    b = bytearray(data)
    for m in muts:
        kind, pos, x = m
        n = len(b)
        if kind == 'flip' and n:
            b[pos % n] ^= 1 << (x % 8)
        elif kind == 'set' and n:
            b[pos % n] = x % 256
        elif kind == 'del' and n:
            i = pos % n
            del b[i:i + 1 + x % 4]
        elif kind == 'ins':
            i = pos % (n + 1)
            b[i:i] = bytes([x % 256])
        elif kind == 'cut':
            del b[pos % (n + 1):]
        elif kind == 'dup' and n:
            i = pos % n
            b[i:i] = b[i:i + 1 + x % 8]
        elif kind == 'tail':
            b += filler(x % 20, pos)
    return bytes(b)


def fix_lengths(data: bytes) -> bytes:
    """Re-states the track length so that the damage reaches the event parser."""
    if data[:4] == b'MThd' and data[14:18] == b'MTrk' and len(data) >= 22:
        return data[:18] + (len(data) - 22).to_bytes(4, 'big') + data[22:]
    return data


def run_mutated(case):
    data, _, _ = encode_foreign(case['file'])
    data = mutate(data, case['muts'])
    if case['fix']:
        data = fix_lengths(data)
    t = check_any(data, case['channel'])
    return (['nontrivial'] if case['muts'] else []) + ['track' if t is not None else 'refused'] + (['lengths restated'] if case['fix'] else [])


muts = st.lists(st.tuples(st.sampled_from(['flip', 'set', 'set', 'del', 'ins', 'ins', 'cut', 'dup', 'tail']), st.integers(0, 400),
                          st.one_of(st.integers(0, 255), st.sampled_from([0x00, 0x7F, 0x80, 0x90, 0xF0, 0xF7, 0xFF, 0x2F, 0x58, 0x20, 0xF8, 0xFE]))).map(list), max_size=5)


def run_bytes(case):
    head, body, tail, channel = case
    b = bytes(body)
    if head == 0:
        data = b
    elif head == 1:
        data = smf.header() + b
    elif head == 2:
        data = smf.header() + smf.chunk(b'MTrk', b)
    elif head == 3:
        data = smf.header() + smf.chunk(b'MTrk', b + smf.EOT)
    elif head == 4:
        data = smf.header(division=1) + smf.chunk(b'MTrk', b'\x00\x90\x3c\x40' + b + smf.EOT) + bytes(tail)
    else:
        data = smf.chunk(b'MThd', b) + smf.chunk(b'MTrk', smf.EOT)
    t = check_any(data, channel)
    return ['nontrivial' if head and len(b) > 2 else 'short or headless', 'track' if t is not None else 'refused']


TOKENS = [b'\x00', b'\x00\x90\x3c\x40', b'\x00\x80\x3c\x40', b'\x00\xff\x2f\x00', b'\x00\xff\x58\x04\x04\x02\x18\x08', b'\x00\xff\x20\x01\x03',
          b'\x00\xff\x20\x01', b'\x00\xff\x58\x03', b'\x00\xff\x2f\x01', b'\x00\xf0\x03\x01\x02\xf7', b'\x00\xf7\x02\x01\x02', b'\x00\xf0\xff\xff\x7f',
          b'\x00\x3c\x40', b'\x00\x3c\x00', b'\xff\xff\xff\x7f', b'\x80\x80\x80\x80\x80\x00', b'\x00\xf1\x00', b'\x00\xf2\x00\x00', b'\x00\xf3\x00',
          b'\x00\xf4', b'\x00\xf5', b'\x00\xf6', b'\x00\xf8', b'\x00\xf9', b'\x00\xfa', b'\x00\xfb', b'\x00\xfc', b'\x00\xfd', b'\x00\xfe', b'\x00\xc0\x01',
          b'\x00\xd5\x01', b'\x00\xe0\x00\x40', b'\x00\xa0\x3c\x01', b'\x00\xb0\x07\x7f', b'\x00\xff\x01\x05hello', b'\x00\xff\x51\x03\x07\xa1\x20',
          b'\x00\x9f\x7f\x7f', b'\x00\x8f\x7f\x00', b'MTrk\x00\x00\x00\x04', b'MThd\x00\x00\x00\x06', b'\x00\xff', b'\x00\xff\x7f\x80', b'\x00\x90\xff\xff']


def run_tokens(case):
    toks, div, channel, end = case
    body = b''.join(TOKENS[t] if isinstance(t, int) else bytes(t) for t in toks) + (smf.EOT if end else b'')
    data = smf.header(division=div) + smf.chunk(b'MTrk', body)
    t = check_any(data, channel)
    return ['nontrivial' if len(toks) > 1 else 'short', 'track' if t is not None else 'refused']


chan_arg = gen.mix(st.none(), st.none(), st.integers(0, 15), st.sampled_from([-1, 16]))


def enum_tokens(tier):
    n = len(TOKENS)
    for a in range(n):
        for end in (0, 1):
            yield [[a], 96, None, end]
            for b in range(n):
                yield [[a, b], 96, None, end]
    if tier == 'thorough':
        for a in range(n):
            for b in range(n):
                for c in range(n):
                    yield [[a, b, c], 96, None, 1]
    # every status byte, first and as second event, every first data byte
    for s in range(256):
        for d in (0, 1, 0x2F, 0x58, 0x7F, 0x80, 0xFF):
            yield [[[0, s, d]], 96, None, 1]
            yield [[1, [0, s, d, 0x40]], 96, 0, 1]
            yield [[[0, s, d], 2], 96, None, 0]
            yield [[[0, s, d, d], [0, 0x3C, 0x40], [5, 0x3C, 0x00]], 96, None, 1]
    for div in [0, 1, 2, 95, 96, 255, 256, 0x7FFF, 0x8000, 0xE728, 0xFFFF]:
        yield [[1, 2], div, None, 1]
        yield [[1, 2], div, 0, 1]
        yield [[], div, None, 1]


def fuzz_any(data):
    check_any(data, None)
    check_any(data, 0)


def fuzz_valid(data):
    """Differential: what the independent parser accepts as a valid format-0 file must import with exactly its notes."""
    try:
        f = smf.parse(data)
    except smf.Bad:
        return False
    if f['format'] != 0 or f['ntrks'] != 1 or not 1 <= f['division'] <= 0x7FFF:
        return False
    sounding, stamps = set(), []
    for ev in f['events']:
        if ev[1] == 'meta' and ev[2] == 0x20:
            return False
        if ev[1] == 'meta' and ev[2] == 0x58:
            stamps.append(ev[3])
        if ev[1] == 'on' and ev[4] > 0:
            if (ev[2], ev[3]) in sounding:
                return False                        # struck again while sounding: not judged
            sounding.add((ev[2], ev[3]))
        elif ev[1] in ('on', 'off'):
            sounding.discard((ev[2], ev[3]))
    try:
        t = midi.loads(data)
    except Exception as e:                          # noqa: BLE001
        fail(f'a valid file is refused: {type(e).__name__}: {e}; {data[:100].hex()}')
    match_notes(contents(t), [(a, b - a, p, v) for a, b, c, p, v in smf.pair(f['events'])], 36, f['division'], 'import')
    if len(stamps) < 2:
        want = Fraction(stamps[0][0], 1 << stamps[0][1]) if stamps else Fraction(1)
        require(frac(t.signature) == want, 'time signature %s read as %s', want, t.signature)
    return True


FUZZ = {'C18': fuzz_any, 'C16': fuzz_valid}


def fuzzer(prop_id):
    def go(seed, scratch):
        from ..fuzz import run
        return run(prop_id, seed, scratch)
    return go


def run_any_hex(case):
    fuzz_any(bytes.fromhex(case[0]))
    return ['nontrivial']


def run_valid_hex(case):
    return ['nontrivial'] if fuzz_valid(bytes.fromhex(case[0])) else ['not a valid file']


def enum_seeds(tier):
    from ..fuzz import seeds
    for s in seeds():
        yield [s.hex()]
        for i in range(8, len(s)):
            yield [(s[:i] + bytes([s[i] ^ 0x80]) + s[i + 1:]).hex()]
            yield [(s[:i] + bytes([s[i] ^ 0x01]) + s[i + 1:]).hex()]


prop('C18',
     Sub('damaged files', run_mutated, 'valid foreign files with up to five byte-level mutations, lengths re-stated or not; non-trivial: at least one mutation',
         strategy=lambda tier: st.fixed_dictionaries(dict(file=foreign_files(n_channels=3, max_events=8), muts=muts, fix=st.booleans(), channel=chan_arg)),
         quick=4000, thorough=150000, cpu_limit=30),
     Sub('token streams', run_tokens, 'sequences of legal and illegal event fragments in a valid container; non-trivial: two or more fragments',
         strategy=lambda tier: st.tuples(gen.seqs(st.one_of(st.integers(0, len(TOKENS) - 1), st.lists(st.integers(0, 255), max_size=4)), 0, 9),
                                         st.one_of(st.sampled_from([96, 1, 0, 0x7FFF, 0x8000, 0xFFFF]), st.integers(0, 0xFFFF)), chan_arg, st.integers(0, 1)).map(list),
         enumerate=enum_tokens, quick=5000, thorough=150000, cpu_limit=30),
     Sub('raw bytes', run_bytes, 'random bytes, with and without a valid container; non-trivial: container with 3+ random bytes',
         strategy=lambda tier: st.tuples(st.integers(0, 5), st.lists(st.one_of(st.integers(0, 255), st.sampled_from([0, 0x7F, 0x80, 0x90, 0xFF, 0x2F, 0xF0])), max_size=40),
                                         st.lists(st.integers(0, 255), max_size=20), chan_arg).map(list),
         quick=4000, thorough=150000, cpu_limit=30),
     Sub('file bytes', run_any_hex, 'single-bit variations of a corpus of small files; in the thorough tier also the inputs of the coverage-guided fuzzer; all non-trivial', enumerate=enum_seeds, cpu_limit=30),
     assumptions=['inputs up to a few kilobytes; termination means returning within 30 s of CPU time'], fuzz=fuzzer('C18'))


# --- C19 ------------------------------------------------------------------------------------------

def refused(data, what):
    try:
        t = midi.loads(data)
    except MIDIParsingError:
        pass
    except Exception as e:                          # noqa: BLE001
        fail(f'{what}: {type(e).__name__} instead of MIDIParsingError: {str(e)[:200]}')
    else:
        fail(f'{what}: accepted as {t}')
    try:
        midi.load(io.BytesIO(data))
    except MIDIParsingError:
        return
    except Exception as e:                          # noqa: BLE001
        fail(f'{what}: load raised {type(e).__name__}: {e}')
    fail(f'{what}: accepted by load')


def exported(case):
    cfg = case['cfg']
    return writer(cfg).dumps(build(case['sig'], bulk_items(*case['bulk'][:1], cfg, *case['bulk'][1:]) if 'bulk' in case else case['items']))


def run_truncated(case):
    data = exported(case)
    midi.loads(data)
    n = len(data)
    cuts = range(n) if n <= 160 else sorted({*range(60), *range(n - 60, n), *[c % n for c in case['cuts']]})
    for c in cuts:
        refused(data[:c], f'prefix of {c} of {n} bytes')
        if c >= 22:
            # the same prefix with a length field that agrees with it: the end of track is missing
            refused(data[:18] + (c - 22).to_bytes(4, 'big') + data[22:c], f'track cut to {c - 22} bytes, length restated')
    return ['nontrivial'] if case['items'] or 'bulk' in case else ['empty track']


def run_header(case):
    kind, x = case['kind'], case['x']
    data = exported(case)
    b = bytearray(data)

    def put(at, n, v):
        b[at:at + n] = v.to_bytes(n, 'big')

    if kind == 'format':
        put(8, 2, 1 + x % 0xFFFF)
    elif kind == 'tracks':
        put(10, 2, (2 + x) % 0x10000 if (2 + x) % 0x10000 != 1 else 0)
    elif kind == 'timecode':
        put(12, 2, 0x8000 | x % 0x8000)
    elif kind == 'zero resolution':
        put(12, 2, 0)
    elif kind == 'track length':
        put(18, 4, min(0xFFFFFFFF, len(data) - 22 + 1 + x))
    elif kind == 'track length byte':
        i = x % 4
        new = (x >> 2) % 256
        if new <= b[18 + i]:
            new = b[18 + i] + 1
        if new > 255:
            return ['no larger value']
        b[18 + i] = new
    elif kind == 'header length':
        put(4, 4, min(0xFFFFFFFF, len(data) - 8 + 1 + x))
    elif kind == 'header length byte':
        i = x % 3
        b[4 + i] = 1 + (x >> 2) % 255
        if int.from_bytes(b[4:8], 'big') <= len(data) - 8:
            return ['length still within the file']
    elif kind == 'short header':
        n = x % 6
        b = bytearray(smf.chunk(b'MThd', bytes(data[8:8 + n])) + data[14:])
    elif kind == 'no header':
        b = b[14:]
    elif kind == 'no track':
        b = b[:14]
    elif kind == 'other track chunk':
        b[14:18] = b'XTrk'
    elif kind == 'other header chunk':
        b[0:4] = b'RIFF'
    elif kind == 'track first':
        b = b[14:] + b[:14]
    elif kind == 'no end of track':
        b = bytearray(data[:-4])
        b[18:22] = (len(b) - 22).to_bytes(4, 'big')
    elif kind == 'end of track with a body':
        b = bytearray(data[:-1] + bytes([1 + x % 127]) + filler(1 + x % 127))
        b[18:22] = (len(b) - 22).to_bytes(4, 'big')
    elif kind == 'trailing part of a chunk header':
        b += b'MTrk\x00\x00\x00'[:1 + x % 7]
    elif kind == 'trailing incomplete chunk':
        b += b'JUNK' + min(0xFFFFFFFF, 5 + x).to_bytes(4, 'big') + b'abcd'
    refused(bytes(b), f'{kind} ({x})')
    return ['nontrivial', kind]


KINDS = ['format', 'tracks', 'timecode', 'zero resolution', 'track length', 'track length', 'track length byte', 'track length byte', 'header length', 'header length byte',
         'short header', 'no header', 'no track', 'other track chunk', 'other header chunk', 'track first', 'no end of track',
         'trailing incomplete chunk', 'trailing part of a chunk header', 'end of track with a body']


def enum_header(tier):
    d = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    items = [[[36, [1, 2], 0.5, 0], [0, 0]], [[40, [1, 3], 1.0, 0], [1, 2]]]
    for kind in sorted(set(KINDS)):
        for its in ([], items):
            for x in list(range(0, 70)) + [1 << e for e in range(6, 32)] + [(1 << e) - 1 for e in range(6, 33)]:
                yield dict(cfg=d, sig=[4, 2], items=its, kind=kind, x=x)
        # large files
        for n in (500, 9000) if tier == 'quick' else (500, 2100, 9000, 20000, 70000):
            for x in (0, 1, 2, 3, 4, 7, 100, 65535, 65536, 1 << 24) if n < 3000 or tier != 'quick' else (0, 3, 4):
                yield dict(cfg=d, sig=[4, 2], items=[], bulk=[n, x % 10, 5], kind=kind, x=x)


def enum_truncated(tier):
    d = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    for n in (100, 600, 2500, 9000) if tier == 'quick' else (100, 600, 1100, 2500, 4200, 9000, 20000, 70000):
        for k in range(8):
            step = 8 * n // 60 + 1
            yield dict(cfg=d, sig=[4, 2], items=[], bulk=[n, k, 5], cuts=[k * 37 + i * step for i in range(60)] if n < 3000 else [k * 37 + i * step * 8 for i in range(8)])


@st.composite
def damage_cases(draw, header):
    cfg = draw(configs())
    c = dict(cfg=cfg, sig=draw(midi_sigs), items=draw(free_tracks(cfg, max_notes=6)))
    if header:
        c['kind'] = draw(st.sampled_from(KINDS))
        c['x'] = draw(st.one_of(st.integers(0, 1024), gen.ints(0, 0xFFFFFFFE)))
    else:
        c['cuts'] = draw(st.lists(st.integers(0, 5000), max_size=20))
    return c


prop('C19',
     Sub('truncated', run_truncated, 'exported files cut at every byte (sampled for long ones), with and without a restated length; non-trivial: file has notes',
         strategy=lambda tier: damage_cases(False), enumerate=enum_truncated, quick=700, thorough=15000, cpu_limit=150),
     Sub('headers', run_header, 'exported files with one damaged header, length or chunk; all non-trivial', strategy=lambda tier: damage_cases(True), enumerate=enum_header,
         quick=4000, thorough=80000))
