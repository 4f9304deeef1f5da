"""C14, C15, C28: export followed by import, import followed by export."""
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, smf
from ..lib import Signature, Sub, contents, fail, fields, frac, known, midi, prop, require, val, vel127
from ..miditools import (build, bulk_items, chunk_sizes, configs, decode, encode_foreign, foreign_files, late, middle_cs, midi_sigs, model_items, near_tick, pulses, reader,
                         resolutions_4096, separate_tracks, sized_items, writer)


@st.composite
def grid_cases(draw):
    cfg = draw(configs())
    return dict(cfg=cfg, sig=draw(midi_sigs), items=draw(separate_tracks(cfg, True)), form=draw(st.integers(0, 2)), bych=draw(st.booleans()))


def bulk_grid_cases(tier):
    @st.composite
    def go(draw):
        cfg = draw(configs())
        v2 = (cfg['ppq'] & -cfg['ppq']).bit_length() - 1
        return dict(cfg=cfg, sig=draw(midi_sigs), items=[], form=0, bych=draw(st.booleans()),
                    bulk=[draw(gen.sizes(900 if tier == 'quick' else 9000)), draw(st.integers(0, 999)), draw(st.integers(0, min(14, 2 + v2)))])

    return go()


def run_roundtrip(case):
    cfg = case['cfg']
    items = case['items']
    if 'bulk' in case:
        items = bulk_items(case['bulk'][0], cfg, case['bulk'][1], case['bulk'][2])
    if 'sized' in case:
        items = sized_items(*case['sized'], cfg) + items
    t = build(case['sig'], items, case['form'])
    data = writer(cfg).dumps(t)
    back = reader(cfg).loads(data, channel=cfg['ch']) if case['bych'] and items else reader(cfg).loads(data)
    got, want = contents(back), model_items(items)
    if got != want:
        lost = sorted((Counter(want) - Counter(got)).elements())
        new = sorted((Counter(got) - Counter(want)).elements())
        fail(f'after the round trip {len(got)} of {len(want)} notes; lost {show(lost)}, new {show(new)}')
    require(val(case['sig']) == frac(back.signature), 'time signature %s came back as %s', case['sig'], back.signature)
    if case['sig'][0] > 0:
        require(fields(back.signature) == (case['sig'][0], 1 << case['sig'][1]), 'time signature %d/2^%d came back as %s',
                case['sig'][0], case['sig'][1], back.signature)
    require(len(back) == len(items), 'len is %d after the round trip of %d notes', len(back), len(items))
    require(frac(back.length) == max((x[0] + x[2] for x in want), default=Fraction(0)), 'length is %s after the round trip', back.length)
    require(back == t and t == back, 'tracks compare as different after the round trip')
    if cfg.get('default'):
        again = midi.loads(midi.dumps(t))
        require(again == t, 'module-level round trip differs')
    labels = []
    if len(items) >= 2:
        labels.append('nontrivial')
    if not cfg.get('default'):
        labels.append('non-default settings')
    if any(n[1][0] == 0 for n, _ in items):
        labels.append('zero-length note')
    if has_adjacent(items):
        labels.append('back-to-back')
    if len(items) > 100:
        labels.append('more than 100 notes')
    if not items:
        labels.append('empty')
    return labels


def show(xs):
    return [(str(p), n, str(d), round(v * 127, 3)) for p, n, d, v in xs[:4]]


def has_adjacent(items):
    by = {}
    for n, p in items:
        by.setdefault(n[0], []).append((val(p), val(p) + val(n[1])))
    return any(a[1] == b[0] and a != b for ns in by.values() for a, b in zip(sorted(ns), sorted(ns)[1:]))


def enum_round(tier):
    # all pitches x velocities, all small on-grid positions, all channels, sizes crossing 64 KiB
    d = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    for p in range(128):
        yield dict(cfg=d, sig=[4, 2], form=0, bych=False, items=[[[p - 24, [1, 2], (1 + (p + k) % 127) / 127.0, 0], [k, 2]] for k in range(8)])
    for k in range(1, 128):
        yield dict(cfg=d, sig=[k, 3], form=0, bych=False, items=[[[36, [k, 7], k / 127.0, 0], [k, 7]], [[37, [1, 7], (128 - k) / 127.0, 0], [k * k, 7]]])
    for ch in range(16):
        for ppq in (1, 2, 3, 24, 96, 255, 256, 257, 480, 1024, 4096, 8192, 16384, 32767):
            g = min(14, 1 + (ppq & -ppq).bit_length())
            yield dict(cfg=dict(ppq=ppq, mc=48 - ch, mform=ch % 4, bpm=60 + ch, ch=ch, default=False), sig=[ch, ch], form=0, bych=bool(ch % 2),
                       items=[[[48 - ch + i, [1 + i, g], (1 + i) / 127.0, 0], [i * 3, g]] for i in range(5)])
    for e in range(1, 26):
        for dd in (-1, 0, 1):
            n = (1 << e) + dd
            yield dict(cfg=d, sig=[4, 2], form=0, bych=False, items=[[[36, [n, 7], 0.5 * 254 / 254, 0] if False else [36, [n, 7], 64 / 127.0, 0], [n, 7]], [[36, [1, 7], 1.0, 0], [2 * n, 7]]])
    # beyond 2^32 pulses
    for m in (7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 100) + ((5000,) if tier == 'thorough' else ()):
        for ppq in (1, 96, 480, 4096, 12345, 32767):
            cfg = dict(ppq=ppq, mc=36, mform=0, bpm=120.0, ch=0, default=False)
            yield dict(cfg=cfg, sig=[3, 2], form=0, bych=False, items=late([[[36, [1, 0], 64 / 127.0, 0], [1, 0]], [[40, [1, 0], 1.0, 0], [5, 0]]], cfg, m))
    for n in (2100, 6000, 9000, 20000) if tier == 'quick' else (2100, 4200, 6000, 9000, 20000, 33333, 70000, 150000):
        for style in range(6) if n <= 6000 or tier != 'quick' else (5,):
            yield dict(cfg=d, sig=[4, 2], form=0, bych=bool(style % 2), items=[], bulk=[n, n % 10 + 10 * style, 7])
    for nk in chunk_sizes((128, 256, 1 << 14, 1 << 15, 1 << 16) + ((1 << 17, 1 << 20) if tier == 'thorough' else ())):
        yield dict(cfg=d, sig=[4, 2], form=0, bych=False, items=[], sized=nk)


prop('C14',
     Sub('round trip', run_roundtrip, 'non-overlapping on-grid tracks with random writer/reader settings; non-trivial: 2+ notes',
         strategy=lambda tier: grid_cases(), enumerate=enum_round, quick=8000, thorough=120000, cpu_limit=300),
     Sub('many notes', run_roundtrip, 'long tracks, sizes around constants of the code; non-trivial: 2+ notes', strategy=bulk_grid_cases,
         quick=120, thorough=2000, cpu_limit=300),
     assumptions=['notes of equal pitch do not overlap; velocities k/127, k >= 1; times on the grid both of the pulses and of 1/16384'])


# --- C15 ------------------------------------------------------------------------------------------

@st.composite
def offgrid_cases(draw):
    cfg = draw(configs())
    return dict(cfg=cfg, sig=draw(midi_sigs), items=draw(separate_tracks(cfg, False, max_notes=9)), form=0)


def run_offgrid(case):
    cfg, items = case['cfg'], case['items']
    ppq = cfg['ppq']
    t = build(case['sig'], items, case['form'])
    back = reader(cfg).loads(writer(cfg).dumps(t))
    got = contents(back)
    require(len(got) == len(items), '%d notes came back of %d', len(got), len(items))
    mine = {}
    for pos, p, dur, v in got:
        k = (p, round(v * 127))
        require(k not in mine, 'two notes with pitch and velocity %s', k)
        mine[k] = (pos, dur, v)
    bound = Fraction(1, 4 * ppq) + Fraction(1, 16384)
    off = 0
    for n, p in items:
        k = (n[0], int(n[2] * 127 + 1e-9))
        require(k in mine, 'no note with pitch %d and velocity %d/127 came back: %s', n[0], k[1], sorted(mine))
        pos, dur, v = mine[k]
        for name, a, b in (('position', val(p), pos), ('duration', val(n[1]), dur)):
            require(b <= a, '%s %s came back larger: %s', name, a, b)
            require(a - b < bound, '%s %s came back as %s, off by %s, allowed is less than %s', name, a, b, a - b, bound)
            if (a * 4 * ppq).denominator == 1 and (a * 16384).denominator == 1:
                require(a == b, '%s %s is expressible but came back as %s', name, a, b)
            else:
                off += 1
        require(v <= n[2] + 1e-9 and n[2] - v < 1 / 127.0 + 1e-9, 'velocity %r came back as %r', n[2], v)
    require(frac(back.signature) == val(case['sig']), 'time signature came back as %s', back.signature)
    return (['nontrivial'] if off and len(items) > 1 else []) + (['off the grid'] if off else []) + (['back-to-back'] if has_adjacent(items) else [])


def enum_offgrid(tier):
    # exactly at, just above and just below pulses of all magnitudes, at many resolutions
    for ppq in (1, 3, 96, 100, 480, 960, 8192, 12345, 16384, 32767) if tier == 'quick' else (1, 2, 3, 5, 7, 24, 96, 100, 120, 480, 960, 1000, 4097, 8192, 12345, 16384, 24576, 32767):
        cfg = dict(ppq=ppq, mc=36, mform=0, bpm=120.0, ch=0, default=False)
        for e in range(28):
            for add in (-1, 0, 1, 5):
                T = (1 << e) + add
                for k, off in ((60, 0), (60, -1), (18, 0), (18, 1)):
                    yield dict(cfg=cfg, sig=[3, 2], form=0, items=[[[40, near_tick(1 + T % 7, ppq, k, off), 0.5, 0], near_tick(T, ppq, k, off)],
                                                                   [[41, near_tick(T, ppq, k, off), 0.6, 0], near_tick(T // 3, ppq, k + 7, off)]])


prop('C15',
     Sub('off grid', run_offgrid, 'non-overlapping tracks with arbitrary fractions; notes identified by pitch and velocity; non-trivial: 2+ notes, some time not expressible',
         strategy=lambda tier: offgrid_cases(), enumerate=enum_offgrid, quick=7000, thorough=150000),
     assumptions=['notes of equal pitch do not overlap; velocities at least 1/127'])


# --- C28 ------------------------------------------------------------------------------------------

KEY = 'resave-off-grid-tick'


def floorfloor(t, tpq):
    """Where the recorded finding puts a tick that 1/16384 cannot express: rounded down twice."""
    return (4 * tpq * (t * 4096 // tpq)) // 16384


def resave_cases(tpq):
    return foreign_files(n_channels=1, tpq=tpq)


def run_resave(case):
    data, notes, seen = encode_foreign(case)
    if not seen:
        return ['no notes']
    ch = min(seen)
    tpq, mc = case['tpq'], case['mc']
    want = sorted((s, s + d, ch, p, v) for s, d, p, v in notes.get(ch, []))
    labels = set()
    cur = data
    for cycle in range(case.get('cycles', 2)):
        t = midi.MIDIReader(middle_c=mc).loads(cur)
        cur = midi.MIDIWriter(pulses_per_quarter=tpq, middle_c=mc, channel=ch).dumps(t)
        f = decode(cur, max_vlq=5)
        require(f['division'] == tpq, 'resolution changed')
        got = sorted(smf.pair(f['events']))
        if got == want:
            labels.add('identical')
            continue
        # every difference must be the recorded finding, exactly
        drift = sorted((floorfloor(a, tpq), floorfloor(a, tpq) + floorfloor(b - a, tpq), c, p, v) for a, b, c, p, v in want)
        aligned = all((a * 4096) % tpq == 0 and ((b - a) * 4096) % tpq == 0 for a, b, *_ in want)
        if not aligned and got == drift and known(KEY):
            labels.add('known finding: off-grid ticks moved')
            want = drift
            continue
        fail(f'cycle {cycle + 1} at {tpq} ticks per quarter: notes (start, end, channel, pitch, velocity) {got[:4]}, were {want[:4]}')
    if len(want) >= 2:
        labels.add('nontrivial')
    return labels


def aligned_cases():
    """Files whose ticks are all expressible in 1/16384: nothing may move."""
    def scale(case):
        tpq = case['tpq']
        import math
        unit = tpq // math.gcd(tpq, 4096)
        evs = []
        for ev in case['events']:
            inner = ev[2] if ev[0] == 'times' else [ev]
            inner = [[e[0], min(e[1], 0x0FFFFFFF // unit) * unit] + list(e[2:]) for e in inner]
            evs.append([ev[0], ev[1], inner] if ev[0] == 'times' else inner[0])
        return dict(case, events=evs, tsat=case.get('tsat') and [case['tsat'][0], case['tsat'][1] // unit * unit])

    return resave_cases(resolutions_4096).map(scale)


def enum_resave(tier):
    # the recorded failing input, and every small tick at several resolutions
    yield dict(tpq=96, extra=0, ts=[4, 2], chts=[], before=[], after=[], end=0, mc=36, mform=0,
               events=[['note', 1, 0, 60, 64, 0, 0], ['off', 1, 0, 60, 64, 0, 0]])
    for tpq in (1, 2, 3, 5, 24, 32, 96, 100, 120, 128, 480, 960, 1000, 4095, 4096):
        for s in list(range(0, 40)) + [tpq - 1, tpq, tpq + 1, 4 * tpq, 1000, 65536]:
            for d in (0, 1, 2, 3, 7, tpq, 127, 128, 16384):
                yield dict(tpq=tpq, extra=0, ts=[4, 2], chts=[], before=[], after=[], end=0, mc=36, mform=0, cycles=3,
                           events=[['note', s, 3, 60, 1 + s % 127, 0, 0], ['off', d, 3, 60, 64, 0, 0], ['note', 0, 3, 60, 99, 1, 0], ['off', d + 1, 3, 60, 0, 1, 0]])


prop('C28',
     Sub('expressible ticks', run_resave, 'files whose ticks are multiples of 1/16384; imported and re-exported twice; non-trivial: 2+ notes',
         strategy=lambda tier: aligned_cases(), quick=3500, thorough=80000),
     Sub('any ticks', run_resave, 'files with arbitrary ticks; differences must be exactly the recorded finding; non-trivial: 2+ notes',
         strategy=lambda tier: resave_cases(resolutions_4096), enumerate=enum_resave, quick=3500, thorough=80000),
     assumptions=['one channel, no pitch struck again while sounding', 'resolutions up to 4096'])
