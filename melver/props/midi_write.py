"""C12, C13, C20: MIDI export."""
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, smf
from ..lib import Note, Signature, Sub, Track, expect_raises, fail, midi, mk_note, note_val, prop, require, sig_form, snapshot, tone_form, val, vel_byte_ok
from ..miditools import (MAX_DELTA, build, bulk_items, chunk_sizes, configs, decode, free_tracks, late, midi_sigs, ppqs, pulses, sized_items, tick_time, writer)


@st.composite
def export_cases(draw):
    cfg = draw(configs())
    return dict(cfg=cfg, sig=draw(midi_sigs), items=draw(free_tracks(cfg)))


def bulk_export_cases(tier):
    hi = 1200 if tier == 'quick' else 9000

    @st.composite
    def go(draw):
        cfg = draw(configs())
        n = draw(gen.sizes(hi))
        return dict(cfg=cfg, sig=draw(midi_sigs), bulk=[n, draw(st.integers(0, 999)), draw(st.integers(0, 9))],
                    items=draw(free_tracks(cfg, max_notes=2)))

    return go()


def expand(case):
    items = case['items']
    if 'bulk' in case:
        n, seed, gk = case['bulk']
        items = bulk_items(n, case['cfg'], seed, gk) + items
    if 'sized' in case:
        items = sized_items(*case['sized'], case['cfg']) + items
    return items


def case_labels(case, items):
    labels = []
    if items:
        cfg = case['cfg']
        if len(items) >= 2 and (not cfg.get('default')):
            labels.append('nontrivial')
        if cfg['ppq'] > 255:
            labels.append('resolution above 255')
        if any(pulses(val(p), cfg['ppq']) > 0x3FFF for _, p in items):
            labels.append('delta of 3+ bytes')
        if len(items) > 100:
            labels.append('more than 100 notes')
        if len(items) * 8 > 65535:
            labels.append('chunk above 64 KiB')
        if any((4 * cfg['ppq'] * val(p)).denominator > 1 for _, p in items):
            labels.append('off the pulse grid')
    else:
        labels.append('empty track')
    return labels


def run_wellformed(case):
    items = expand(case)
    cfg = case['cfg']
    t = build(case['sig'], items)
    data = writer(cfg).dumps(t)
    require(isinstance(data, bytes), 'dumps returned %s', type(data).__name__)
    f = decode(data)
    require(f['format'] == 0, 'format is %d', f['format'])
    require(f['ntrks'] == 1, 'announces %d tracks', f['ntrks'])
    require(f['division'] == cfg['ppq'], 'division is %d, resolution is %d', f['division'], cfg['ppq'])
    ends = [e for e in f['events'] if e[1] == 'meta' and e[2] == 0x2F]
    require(len(ends) == 1 and f['events'][-1] is ends[0], 'end-of-track events: %d', len(ends))
    return case_labels(case, items)


def enum_sizes(tier):
    """Files whose track chunk crosses 2^8, 2^16 bytes; every resolution once."""
    base = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    for n in list(range(0, 40)) + [1020, 1023, 1024, 4090, 8180, 8190, 8200, 9000]:
        yield dict(cfg=base, sig=[4, 2], bulk=[n, n, 5], items=[])
    for n in (20000, 33333) if tier == 'quick' else (20000, 33333, 70000, 200000):
        yield dict(cfg=base, sig=[4, 2], bulk=[n, n, 5], items=[])
    for nk in chunk_sizes((128, 256, 1 << 14, 1 << 15, 1 << 16) + ((1 << 17, 1 << 20) if tier == 'thorough' else ())):
        yield dict(cfg=base, sig=[4, 2], sized=nk, items=[])
    for ppq in range(1, 32768, 1 if tier == 'thorough' else 3):
        cfg = dict(ppq=ppq, mc=36, mform=0, bpm=120.0, ch=ppq % 16, default=False)
        yield dict(cfg=cfg, sig=[4, 2], items=[[[36, [1, 2], 0.5, 0], [ppq % 50, 3]], [[40, [3, 4], 1.0, 0], [ppq % 50, 4]]])


prop('C12',
     Sub('well-formed', run_wellformed, 'tracks and settings, bytes parsed by a strict independent parser; non-trivial: 2+ notes with non-default settings',
         strategy=lambda tier: export_cases(), quick=4000, thorough=100000),
     Sub('sizes', run_wellformed, 'many notes / every resolution; same rule', strategy=bulk_export_cases, enumerate=enum_sizes, quick=120, thorough=2000, cpu_limit=240),
     assumptions=['gaps between events up to 0x0FFFFFFF pulses (the largest delta time of the format)', 'time signature nominator <= 255, denominator <= 2**255'])


def run_faithful(case):
    items = expand(case)
    cfg = case['cfg']
    t = build(case['sig'], items)
    data = writer(cfg).dumps(t)
    f = decode(data)
    ppq, ch = cfg['ppq'], cfg['ch']
    want_on, want_off = [], Counter()
    for n, p in items:
        on = pulses(val(p), ppq)
        off = on + pulses(val(n[1]), ppq)
        pitch = n[0] - cfg['mc'] + 60
        want_on.append((on, pitch, n[2]))
        want_off[(off, pitch)] += 1
    got_on = [e for e in f['events'] if e[1] == 'on']
    got_off = Counter((e[0], e[3]) for e in f['events'] if e[1] == 'off')
    others = [e for e in f['events'] if e[1] in ('chan', 'sysex')]
    require(not others, 'unexpected events %s', others[:3])
    for e in f['events']:
        if e[1] in ('on', 'off'):
            require(e[2] == ch, 'event on channel %d instead of %d', e[2], ch)
    require(Counter((e[0], e[3]) for e in got_on) == Counter((o, p) for o, p, _ in want_on),
            'note-on (pulse, pitch): %s, expected %s', sorted((e[0], e[3]) for e in got_on)[:8], sorted((o, p) for o, p, _ in want_on)[:8])
    require(got_off == want_off, 'note-off (pulse, pitch): %s, expected %s', sorted(got_off.elements())[:8], sorted(want_off.elements())[:8])
    groups = {}
    for o, p, v in want_on:
        groups.setdefault((o, p), []).append(v)
    mine = {}
    for e in got_on:
        mine.setdefault((e[0], e[3]), []).append(e[4])
    for k, vs in groups.items():
        for v, b in zip(sorted(vs), sorted(mine[k])):
            require(vel_byte_ok(v, b), 'velocity %r is written as %d at %s', v, b, k)
    # a note that ends where another of the same pitch starts is released first
    by_pitch = {}
    for n, p in items:
        by_pitch.setdefault(n[0], []).append((val(p), val(p) + val(n[1]), n[2]))
    for pitch, ns in by_pitch.items():
        ns.sort()
        if any(b[0] < a[1] for a, b in zip(ns, ns[1:])):
            continue
        open_ = False
        for e in f['events']:
            if e[1] == 'on' and e[3] == pitch - cfg['mc'] + 60:
                require(not open_, 'pitch %d is struck again at %d before it is released', e[3], e[0])
                open_ = True
            elif e[1] == 'off' and e[3] == pitch - cfg['mc'] + 60:
                require(open_, 'pitch %d is released at %d without being struck', e[3], e[0])
                open_ = False
        require(not open_, 'pitch %d is never released', pitch)
    # conductor data
    ts = [e for e in f['events'] if e[1] == 'meta' and e[2] == 0x58]
    require(len(ts) == 1 and ts[0][0] == 0, 'time signature events: %s', ts)
    require(ts[0][3][0] == case['sig'][0] and ts[0][3][1] == case['sig'][1], 'time signature written as %d/2^%d, track has %d/2^%d',
            ts[0][3][0], ts[0][3][1], case['sig'][0], case['sig'][1])
    tempo = [e for e in f['events'] if e[1] == 'meta' and e[2] == 0x51]
    require(len(tempo) == 1 and tempo[0][0] == 0, 'tempo events: %s', tempo)
    us = int.from_bytes(tempo[0][3], 'big')
    exact = 60000000 / cfg['bpm']
    require(exact - 1 - 1e-6 < us <= exact + 1e-6, 'tempo written as %d us for bpm %r (%r us)', us, cfg['bpm'], exact)
    labels = case_labels(case, items)
    if any(a[1] == b[0] for ns in by_pitch.values() for a, b in zip(ns, ns[1:])):
        labels.append('back-to-back')
    if len({p[0] / 2 ** p[1] for _, p in items}) < len(items):
        labels.append('simultaneous notes')
    return labels


def enum_faithful(tier):
    # every pitch, every velocity byte, every channel, delta boundaries
    for p in range(128):
        for mc in (36, 48, 0, -7):
            cfg = dict(ppq=96, mc=mc, mform=p % 4, bpm=120.0, ch=p % 16, default=False)
            yield dict(cfg=cfg, sig=[4, 2], items=[[[p - 60 + mc, [1, 2], p / 127.0, 0], [1, 2]], [[p - 60 + mc, [1, 2], (127 - p) / 127.0, 0], [2, 2]]])
    for e in range(0, 29):
        for d in (-2, -1, 0, 1, 2):
            T = (1 << e) + d
            if 0 <= T <= MAX_DELTA:
                for ppq in (1, 96, 480, 960, 32767):
                    cfg = dict(ppq=ppq, mc=36, mform=0, bpm=120.0, ch=0, default=False)
                    yield dict(cfg=cfg, sig=[3, 2], items=[[[36, tick_time(T, ppq), 0.5, 0], tick_time(T, ppq)], [[40, tick_time(1, ppq), 0.5, 0], tick_time(T, ppq)]])
    # beyond 2^32 pulses
    for m in (7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 100) + ((5000,) if tier == 'thorough' else ()):
        for ppq in (1, 96, 480, 4096, 12345, 32767):
            cfg = dict(ppq=ppq, mc=36, mform=0, bpm=120.0, ch=0, default=False)
            yield dict(cfg=cfg, sig=[3, 2], items=late([[[36, [1, 2], 0.5, 0], [1, 0]], [[40, [1, 3], 0.5, 0], [5, 2]]], cfg, m))
    for b in [3.58, 4, 5, 7, 10, 30, 59.94, 60, 61, 99.9, 100, 119.99, 120, 121, 180, 200, 255, 256, 300, 500, 999, 1000, 10000, 60000, 6e6, 6e7]:
        cfg = dict(ppq=96, mc=36, mform=0, bpm=b, ch=0, default=False)
        yield dict(cfg=cfg, sig=[3, 2], items=[])
    for n in range(256):
        yield dict(cfg=dict(ppq=96, mc=36, mform=0, bpm=120, ch=0, default=True), sig=[n, n], items=[])
    for n in (300, 1000, 3000, 8000, 20000) if tier == 'quick' else (300, 1000, 2000, 3000, 5000, 8000, 12000, 20000, 33333, 70000, 150000):
        for style in range(6) if n <= 8000 or tier != 'quick' else (5,):
            yield dict(cfg=dict(ppq=96, mc=36, mform=0, bpm=120, ch=0, default=True), sig=[4, 2], bulk=[n, 7 + 10 * style, 4], items=[])
    for nk in chunk_sizes((128, 256, 1 << 14, 1 << 15, 1 << 16) + ((1 << 17, 1 << 20) if tier == 'thorough' else ())):
        yield dict(cfg=dict(ppq=96, mc=36, mform=0, bpm=120, ch=0, default=True), sig=[4, 2], sized=nk, items=[])


prop('C13',
     Sub('events', run_faithful, 'tracks and settings; events decoded by the independent parser and compared with the model; non-trivial: 2+ notes with non-default settings',
         strategy=lambda tier: export_cases(), enumerate=enum_faithful, quick=8000, thorough=120000),
     Sub('many notes', run_faithful, 'long tracks; same rule', strategy=bulk_export_cases, quick=120, thorough=2000, cpu_limit=240),
     assumptions=['gaps between events up to 0x0FFFFFFF pulses', 'bpm between 3.58 and 6e7'])


# --- C20 ------------------------------------------------------------------------------------------

class Recorder:
    def __init__(self):
        self.data = b''
        self.calls = 0

    def write(self, b):
        self.calls += 1
        self.data += bytes(b)
        return len(b)


REFUSALS = (ValueError, OverflowError, ZeroDivisionError)


def run_refuse(case):
    cfg = dict(case['cfg'], default=False)
    kind = case['kind']
    items = [list(x) for x in (bulk_items(*case['bulk'][:1], cfg, *case['bulk'][1:]) if 'bulk' in case else case['items'])]
    rest = list(items)
    sigv = case['sig']
    if kind == 'pitch':
        bad = [[cfg['mc'] - 60 + case['bad'], case['dur'], case['vel'], 0], case['pos']]
        i = case['where'] % (len(items) + 1)
        items.insert(i, bad)
        types = (ValueError,)
    elif kind == 'nominator':
        sigv = [case['bad'], sigv[1]]
        types = REFUSALS
    elif kind == 'denominator':
        sigv = [sigv[0], case['bad']]
        types = REFUSALS
    else:
        cfg['bpm'] = case['bad']
        types = REFUSALS
    t = build(sigv, items)
    before = snapshot(t)
    w = writer(cfg)
    rec = Recorder()
    expect_raises(types, lambda: w.dump(t, rec), f'exporting a track with {kind} {case["bad"]!r}')
    require(rec.data == b'', 'a refused export (%s %r) wrote %d bytes', kind, case['bad'], len(rec.data))
    expect_raises(types, lambda: w.dumps(t), f'dumps of a track with {kind} {case["bad"]!r}')
    require(snapshot(t) == before, 'a refused export changed the track')
    if kind == 'pitch':
        # the same writer exports the rest of the music
        good = build(case['sig'], rest)
        decode(w.dumps(good))
        # and the same track is fine for a middle C that moves the bad tone into range, if all fit
        ps = [n[0] for n, _ in items]
        if max(ps) - min(ps) <= 127:
            cfg2 = dict(cfg, mc=min(ps) + 60)
            decode(writer(cfg2).dumps(t))
    elif kind == 'tempo':
        decode(writer(dict(cfg, bpm=120.0)).dumps(t))
    return ['nontrivial', kind] if rest else [kind]


@st.composite
def refuse_cases(draw):
    cfg = draw(configs(default_often=False))
    items = draw(free_tracks(cfg, max_notes=6))
    kind = draw(st.sampled_from(['pitch', 'pitch', 'pitch', 'nominator', 'denominator', 'tempo']))
    if kind == 'pitch':
        bad = draw(st.one_of(st.sampled_from([-1, 128]), st.integers(-40, -1), st.integers(128, 300), gen.ints(128, 10 ** 6), gen.ints(-10 ** 6, -1)))
    elif kind == 'nominator':
        bad = draw(st.one_of(st.sampled_from([256, 257, 65536, 1 << 32]), gen.ints(256, 1 << 40)))
    elif kind == 'denominator':
        bad = draw(st.integers(256, 300))
    else:
        bad = draw(st.one_of(st.sampled_from([3.5, 1, 1.0, 0.5, 2, 3, 0.001, -1.0, -120, -60.0]), st.floats(1e-3, 3.57, allow_nan=False)))
    return dict(cfg=cfg, sig=draw(midi_sigs), items=items, kind=kind, bad=bad, where=draw(st.integers(0, 10)),
                dur=draw(gen.times(4, 2)), vel=draw(gen.velocities()), pos=draw(gen.times(4, 8)))


def run_settings(case):
    ppq, ch = case['ppq'], case['ch']
    ok = 1 <= ppq <= 32767 and 0 <= ch <= 15
    make = lambda: midi.MIDIWriter(pulses_per_quarter=ppq, channel=ch, middle_c=case['mc'])   # noqa: E731
    if not ok:
        expect_raises(ValueError, make, f'MIDIWriter(pulses_per_quarter={ppq}, channel={ch})')
        if not 0 <= ch <= 15:
            expect_raises(ValueError, lambda: midi.dumps(Track(), channel=ch), f'dumps(channel={ch})')
            expect_raises(ValueError, lambda: midi.dump(Track(), Recorder(), channel=ch), f'dump(channel={ch})')
        return ['nontrivial', 'refused']
    t = Track(content=[(Note(case['mc']), (1, 4)), (Note(case['mc'] - 60), (1, 4)), (Note(case['mc'] + 67, (3, 8), 1.0), (1, 2))])
    f = decode(make().dumps(t))
    require(f['division'] == ppq, 'division %d for resolution %d', f['division'], ppq)
    require(sum(e[1] == 'on' for e in f['events']) == 3, 'notes are missing with resolution %d, channel %d', ppq, ch)
    return ['nontrivial', 'accepted']


def enum_settings(tier):
    for ppq in range(-2, 32771, 1):
        yield dict(ppq=ppq, ch=ppq % 16, mc=36)
    for ch in range(-20, 40):
        for ppq in (0, 1, 96, 255, 256, 32767, 32768):
            yield dict(ppq=ppq, ch=ch, mc=ch)


def enum_refuse(tier):
    # long tracks: the part that cannot be written may come late
    cfg = dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=3, default=False)
    for n in (150, 600, 2500, 9000) if tier == 'quick' else (150, 600, 1100, 2500, 4200, 9000, 20000, 70000):
        for kind, bad in (('pitch', 128), ('pitch', -1), ('pitch', 188), ('nominator', 256), ('denominator', 256), ('tempo', 3.0)):
            for pos in ([0, 0], [n, 5], [1 << 19, 0]) if kind == 'pitch' else ([0, 0],):
                yield dict(cfg=cfg, sig=[4, 2], items=[], bulk=[n, n % 10, 5], kind=kind, bad=bad, where=n // 2, dur=[1, 2], vel=0.5, pos=pos)


prop('C20',
     Sub('refused', run_refuse, 'tracks with one unrepresentable property at any place, written to a recording file; non-trivial: other notes present',
         strategy=lambda tier: refuse_cases(), enumerate=enum_refuse, quick=4000, thorough=80000),
     Sub('settings', run_settings, 'all resolutions and channels in and around the accepted range; all non-trivial',
         strategy=lambda tier: st.fixed_dictionaries(dict(ppq=gen.ints(-70000, 70000), ch=gen.ints(-300, 300), mc=gen.ints(-1000, 1000))),
         enumerate=enum_settings, quick=2000, thorough=20000),
     assumptions=['the error type is only prescribed for tones, resolutions and channels'])
