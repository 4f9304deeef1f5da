"""Generators and models for MIDI checks."""
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from . import dictionary, gen, smf
from .lib import Note, Track, fail, midi, mk_note, note_val, require, sig_form, tone_form, val

MAX_DELTA = 0x0FFFFFFF


def tick_time(T: int, ppq: int):
    """A signature value [n, k] that the rounding-down writer puts exactly on pulse T."""
    k = (4 * ppq - 1).bit_length()
    return [-(-(T << k) // (4 * ppq)), k]


def near_tick(T: int, ppq: int, k: int, off: int):
    """A value [n, k'] with a large denominator, just below (off < 0), at or just above pulse T."""
    k = max(k, (4 * ppq).bit_length())
    return [max(0, -(-(T << k) // (4 * ppq)) + off), k]


def near_ticks(ppq: int, hi: int):
    return st.tuples(st.one_of(st.integers(1, 8), deltas(hi)), st.one_of(st.sampled_from([52, 53, 54, 55, 56, 60, 63, 64, 70]), st.integers(17, 200)),
                     st.integers(-2, 2)).map(lambda t: near_tick(t[0], ppq, t[1], t[2]))


def pulses(v: Fraction, ppq: int) -> int:
    return (4 * ppq * v.numerator) // v.denominator


ppqs = st.one_of(st.sampled_from([96, 1, 24, 480, 960, 32767, 255, 256, 128, 4096, 8192, 16384]), gen.ints(1, 32767))
resolutions_4096 = st.one_of(st.sampled_from([96, 1, 24, 480, 960, 120, 192, 384, 4096]), gen.ints(1, 4096))
middle_cs = st.one_of(st.sampled_from([36, 48]), st.integers(-30, 100), gen.ints(-10 ** 6, 10 ** 6))
mforms = gen.mix(st.integers(0, 3), st.integers(0, 3), st.integers(-800, -2))
channels = st.one_of(st.integers(0, 15), st.sampled_from([0, 9, 15]))
bpms = st.one_of(st.sampled_from([120.0, 60, 90, 3.6, 59.5, 127.0, 128, 240.0, 1000]), st.floats(3.58, 1000.0, allow_nan=False),
                 gen.ints(4, 60000), st.floats(3.58, 6e7, allow_nan=False), st.integers(1, 0xFFFFFF).map(lambda t: 60000000 / t))
midi_sigs = st.one_of(st.sampled_from([[4, 2], [3, 2], [6, 3], [7, 3], [5, 4], [0, 0], [0, 4], [255, 255], [128, 7], [2, 1]]),
                      st.tuples(gen.ints(0, 255), st.one_of(st.integers(0, 6), gen.ints(0, 255))).map(list))


@st.composite
def configs(draw, default_often=True):
    if default_often and draw(st.integers(0, 3)) == 0:
        return dict(ppq=96, mc=36, mform=0, bpm=120.0, ch=0, default=True)
    return dict(ppq=draw(ppqs), mc=draw(middle_cs), mform=draw(mforms), bpm=draw(bpms), ch=draw(channels), default=False)


def writer(cfg):
    if cfg.get('default'):
        return midi.MIDIWriter()
    return midi.MIDIWriter(pulses_per_quarter=cfg['ppq'], middle_c=tone_form(cfg['mc'], cfg['mform']), bpm=cfg['bpm'],
                           channel=cfg['ch'])


def reader(cfg):
    if cfg.get('default'):
        return midi.MIDIReader()
    return midi.MIDIReader(middle_c=tone_form(cfg['mc'], cfg['mform'] + 1))


# pitches are generated as MIDI values 0..127 and stored relative to middle C
midi_pitches = st.one_of(st.integers(0, 127), st.sampled_from([0, 1, 59, 60, 61, 126, 127]), st.integers(60, 62))


def deltas(hi=MAX_DELTA):
    bounds = [b for b in (0, 1, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153,
                          16777215, 16777216, MAX_DELTA - 1, MAX_DELTA) if b <= hi]
    return gen.mix(st.integers(0, 40), st.integers(0, 40), st.integers(0, 2000), st.sampled_from(bounds), gen.ints(0, hi))


def tile(items, times):
    """The notes again and again, each time after everything before."""
    end = max((val(p) + val(x[1]) for x, p in items), default=Fraction(0))
    return [[list(x), frac_nk(val(p) + end * k) if k else p] for k in range(times) for x, p in items]


def late(items, cfg, m):
    """The notes after m notes of nearly the longest time an event can wait for the next: times far beyond 2^32 pulses."""
    whole = MAX_DELTA // (4 * cfg['ppq'])
    p = items[0][0][0] if items else cfg['mc']
    first = [[[p, [whole, 0], (127 - i % 60) / 127.0, 0], [i * whole, 0]] for i in range(m)]
    return first + [[x, frac_nk(val(q) + m * whole, 0)] for x, q in items]


@st.composite
def free_tracks(draw, cfg, max_notes=10):
    """Any notes: overlapping, chords, zero-length, arbitrary fractions; gaps within the format limit."""
    ppq = cfg['ppq']
    limit = MAX_DELTA
    n = draw(st.integers(0, max_notes))
    cur = 0
    items = []
    pitch, vel, dur_mode, pos_mode = midi_pitches, gen.velocities(), st.integers(0, 4), st.integers(0, 5)
    if draw(st.integers(0, 2)) == 0:
        # a few special values only, so that they occur together
        pitch = st.sampled_from(draw(st.lists(midi_pitches, min_size=1, max_size=2)))
        vel = st.sampled_from(draw(st.lists(gen.special_velocities(), min_size=1, max_size=2)))
        dur_mode, pos_mode = st.just(draw(st.sampled_from([0, 1, 3, 4, 5]))), st.just(draw(pos_mode))
    repeats = draw(st.integers(0, 3)) == 0
    for _ in range(n):
        p = draw(pitch) - 60 + cfg['mc']
        mode = draw(pos_mode)
        if mode == 0:
            pos = draw(gen.times(12, 16))
            if pulses(val(pos), ppq) > limit:
                pos = [pos[0] % (16 << pos[1]), pos[1]]
        elif mode == 1:
            cur += draw(deltas(limit))
            pos = tick_time(cur, ppq)
        elif mode == 2 and items:
            pos = items[draw(st.integers(0, len(items) - 1))][1]
        elif mode == 3 and items:
            # exactly at the end of an earlier note, as an exact fraction
            o = items[draw(st.integers(0, len(items) - 1))]
            e = val(o[1]) + val(o[0][1])
            pos = [e.numerator, e.denominator.bit_length() - 1]
            if draw(st.booleans()):
                p = o[0][0]
        elif mode == 5:
            pos = draw(near_ticks(ppq, limit - 1))
        else:
            pos = draw(gen.times(9, 4))
        dm = draw(dur_mode)
        dur = [0, 0] if dm == 5 else draw(near_ticks(ppq, limit - 1)) if dm == 4 else tick_time(draw(deltas(limit)), ppq) if dm == 0 else draw(gen.times(9, 2)) if dm < 3 else draw(gen.times(20, 1))
        if repeats and items and draw(st.booleans()):
            items.append([list(items[draw(st.integers(0, len(items) - 1))][0]), pos])
            continue
        items.append([[p, dur, draw(vel), 0], pos])
    if items and draw(st.integers(0, 11)) == 0:
        items = tile(items, 1 + draw(st.integers(8, 90)) // len(items))
    if items and draw(st.integers(0, 19)) == 0:
        items = late(items, cfg, draw(st.sampled_from([1, 7, 8, 9, 15, 16, 17, 20, 33])))
    # no gap between consecutive events may exceed the largest delta time
    evs = sorted([0] + [pulses(val(q), ppq) for x, q in items] + [pulses(val(q), ppq) + pulses(val(x[1]), ppq) for x, q in items])
    if any(b - a > limit for a, b in zip(evs, evs[1:])):
        items = items[:1]
        if items and pulses(val(items[0][1]), ppq) > limit:
            items = []
    return items


@st.composite
def separate_tracks(draw, cfg, grid: bool, max_notes=10):
    """Notes of one pitch never overlap (back-to-back allowed)."""
    ppq = cfg['ppq']
    v2 = (ppq & -ppq).bit_length() - 1
    g = min(14, 2 + v2)
    n = draw(st.integers(0, max_notes))
    pitches = draw(st.lists(midi_pitches, min_size=1, max_size=4))
    cursor = {}
    front = Fraction(0)
    items = []
    level = st.integers(1, 127)
    few = None
    if draw(st.integers(0, 2)) == 0:
        level = st.sampled_from(draw(st.lists(st.one_of(level, st.sampled_from([1, 2, 64, 126, 127])), min_size=1, max_size=2)))
        few = []
    for i in range(n):
        p = draw(st.sampled_from(pitches)) - 60 + cfg['mc']
        if grid:
            u = st.one_of(st.integers(0, 4), gen.ints(0, 4 << g), gen.ints(0, 1 << 22))
            gap, dur = Fraction(draw(u), 1 << g), Fraction(draw(u), 1 << g)
        else:
            u = gen.mix(gen.times(16, 4), gen.times(24, 1), deltas(1 << 27).map(lambda T: tick_time(T, ppq)),
                        st.tuples(st.integers(0, 3), st.integers(7, 40)).map(list), near_ticks(ppq, 1 << 20), near_ticks(ppq, 1 << 27))
            gap, dur = val(draw(u)), val(draw(u))
        if few is not None:
            few = few or [(gap, dur), (dur, Fraction(0))]
            gap, dur = few[draw(st.integers(0, 1))]
        start = cursor.get(p, Fraction(0))
        how = draw(st.integers(0, 3))
        if how == 0:
            pos = start                                   # back-to-back
        elif how == 1:
            pos = max(start, front)                       # appended at the end of everything
        elif how == 2 and items:
            pos = max(start, val(items[-1][1]))           # chord with the previous note
        else:
            pos = start + gap
        cursor[p] = pos + dur
        front = max(front, pos + dur)
        k = draw(level) if grid else 1 + i % 127          # off the grid the velocity tells the notes apart
        extra = draw(st.integers(0, 2))
        items.append([[p, frac_nk(dur, extra), k / 127.0 if grid else spread(k, draw(st.integers(0, 9))), 0], frac_nk(pos, extra)])
    if grid and items and draw(st.integers(0, 11)) == 0:
        items = tile(items, 1 + draw(st.integers(8, 90)) // len(items))
    if items and draw(st.integers(0, 19)) == 0:
        items = late(items, cfg, draw(st.sampled_from([1, 7, 8, 9, 15, 16, 17, 20, 33])))
    order = draw(st.integers(0, 2))
    if order == 1:
        items.reverse()
    elif order == 2:
        items = items[1::2] + items[0::2]
    return items


def spread(k, tenth):
    """A velocity whose scaled value rounds down to k."""
    return min(1.0, (k + tenth / 10.5) / 127.0) if k < 127 else 1.0


def frac_nk(f: Fraction, extra=0):
    k = f.denominator.bit_length() - 1
    return [f.numerator << extra, k + extra]


def bulk_items(n, cfg, seed, grid_k):
    """n sequential notes, two voices, deterministic from the arguments; by seed also below one long note, doubled by a third voice, or added in another order."""
    out = []
    t = [0, 0]
    style = seed // 10 % 6
    for i in range(n):
        v = (i * 7 + seed) % 2
        d = 1 + (i * 5 + seed) % 9
        gap = (i * 11) % 4
        p = 40 + v * 30 + (i + seed) % 13
        t[v] += gap
        out.append([[p - 60 + cfg['mc'], [d, grid_k], (1 + (i * 17 + seed) % 127) / 127.0, 0], [t[v], grid_k]])
        if style in (2, 5) and v:
            out.append([[p - 50 - 60 + cfg['mc'], [d, grid_k], (1 + (i * 3 + seed) % 127) / 127.0, 0], [t[v], grid_k]])
        t[v] += d
    if style in (1, 5) and n:
        # two notes that sound through (nearly) everything
        total = max(t)
        out.append([[15 - 60 + cfg['mc'], [total + 3, grid_k], 99 / 127.0, 0], [0, grid_k]])
        out.append([[99 - 60 + cfg['mc'], [total // 2, grid_k], 1.0, 0], [total // 5, grid_k]])
    if style == 3:
        out.reverse()
    if style in (4, 5):
        m = len(out)
        out = [out[i] for i in sorted(range(m), key=lambda i: (i * 7919 + seed) % (m + 1))]
    return out


def sized_items(n, k, cfg):
    """n sequential notes of 8 bytes each; before k of them a rest that takes one more byte (at 96 pulses per quarter)."""
    out, t = [], 0
    for i in range(n):
        t += 100 if 1 <= i <= k else 0
        out.append([[40 + i % 50 - 60 + cfg['mc'], [1, 7], (1 + i % 127) / 127.0, 0], [t, 7]])
        t += 1
    return out


def chunk_sizes(limits):
    """Cases [n, k] whose track chunk has every size from a few bytes below to a few above each limit."""
    for limit in limits:
        for size in range(limit - 5, limit + 6):
            yield [(size - 19) // 8, (size - 19) % 8]


def build(sigv, items, form=0):
    t = Track(signature=sig_form(sigv, form))
    for n, p in items:
        t.add(mk_note(n), sig_form(p, form))
    return t


def model_items(items):
    return sorted((val(p),) + note_val(n) for n, p in items)


def decode(data, max_vlq=4):
    try:
        return smf.parse(data, max_vlq)
    except smf.Bad as e:
        fail(f'exported bytes are not a well-formed MIDI file: {e}; {bytes(data)[:60].hex()}')


# --- foreign files --------------------------------------------------------------------------------

FIXED_META = {0x00: 2, 0x21: 1, 0x51: 3, 0x54: 5, 0x59: 2}
# system common and real-time messages and their data bytes; not part of the file format, but some recorders leave them in
SYSTEM = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}
FREE_META = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0F, 0x7F, 0x60]


def filler(n, seed=0):
    if n > 4096:
        return (bytes((i * 73 + seed) & 0xFF for i in range(4096)) * (n // 4096 + 1))[:n]
    return bytes((i * 73 + seed) & 0xFF for i in range(n))


def flattened(events):
    for e in events:
        if e[0] == 'times':
            for _ in range(e[1]):
                yield from flattened(e[2])
        else:
            yield e


def encode_foreign(case):
    """-> (bytes, {channel: [(start, duration, pitch, velocity)]}, channels with note events)

    case: tpq, extra (header bytes), ts ([nn, dd] or None), tsm (more of them), ccbb (last two bytes of time signatures), chts [[ch, nn, dd]...], chunks before/after,
          events [[kind, delta, ...], ...], end (delta before the end of track); ['times', n, [events]] repeats, a chunk may have a count
    """
    ccbb = list(case.get('ccbb', [24, 8]))
    body = bytearray()
    running = None
    pending = 0
    ts_at = case['tsat'] if case.get('tsat') and case.get('ts') is not None else None
    if case.get('ts') is not None and not ts_at:
        body += b'\x00\xff\x58\x04' + bytes([case['ts'][0], case['ts'][1]] + ccbb)
        for nn, dd in case.get('tsm', []):
            body += b'\x00\xff\x58\x04' + bytes([nn, dd] + ccbb)
    for ch, nn, dd in case.get('chts', []):
        body += b'\x00\xff\x20\x01' + bytes([ch]) + b'\x00\xff\x58\x04' + bytes([nn, dd] + ccbb)
    tick = 0
    sounding = {}
    notes = {}
    seen = set()

    def channel_event(delta, status, data, use_running):
        nonlocal running
        body.extend(smf.vlq(delta))
        if not (use_running and running == status):
            body.append(status)
        running = status
        body.extend(data)

    for i, ev in enumerate(flattened(case['events'])):
        kind, delta = ev[0], ev[1]
        if ts_at and i == ts_at[0]:
            body += smf.vlq(ts_at[1]) + b'\xff\x58\x04' + bytes(case['ts'] + ccbb)
            tick += ts_at[1]
            running = ts_at = None
        tick += delta
        if kind in ('note', 'off'):
            _, _, ch, pitch, vel, style, run = ev
            seen.add(ch)
            key = (ch, pitch)
            if kind == 'note' and key not in sounding:
                sounding[key] = (tick, vel)
                channel_event(delta, 0x90 | ch, [pitch, vel], run)
            else:
                if key in sounding:
                    t0, v0 = sounding.pop(key)
                    notes.setdefault(ch, []).append((t0, tick - t0, pitch, v0))
                if style:
                    channel_event(delta, 0x90 | ch, [pitch, 0], run)
                else:
                    channel_event(delta, 0x80 | ch, [pitch, vel], run)
        elif kind == 'chan':
            _, _, hi, ch, d1, d2, run = ev
            channel_event(delta, hi << 4 | ch, [d1] if hi in (0xC, 0xD) else [d1, d2], run)
        elif kind == 'sysex':
            running = None
            payload = filler(ev[3], ev[3])
            body += smf.vlq(delta) + bytes([ev[2]]) + smf.vlq(len(payload)) + payload
        elif kind == 'system':
            running = None
            body += smf.vlq(delta) + bytes([ev[2]]) + bytes(ev[3:3 + SYSTEM[ev[2]]])
        elif kind == 'meta':
            running = None
            payload = bytes(ev[4]) if len(ev) > 4 else filler(FIXED_META.get(ev[2], ev[3]), ev[2])
            body += smf.vlq(delta) + bytes([0xFF, ev[2]]) + smf.vlq(len(payload)) + payload
    if ts_at:
        body += smf.vlq(ts_at[1]) + b'\xff\x58\x04' + bytes(case['ts'] + ccbb)
    body += smf.vlq(case.get('end', 0)) + b'\xff\x2f\x00'
    data = smf.header(division=case['tpq'], extra=filler(case.get('extra', 0)))
    for name, n, *count in case.get('before', []):
        data += smf.chunk(name.encode('latin-1'), filler(n, 1)) * (count[0] if count else 1)
    data += smf.chunk(b'MTrk', bytes(body))
    for name, n, *count in case.get('after', []):
        data += smf.chunk(name.encode('latin-1'), filler(n, 2)) * (count[0] if count else 1)
    return data, notes, seen


def foreign_events(n_channels=3, max_events=18):
    @st.composite
    def go(draw):
        chs = draw(st.lists(st.integers(0, 15), min_size=1 if n_channels <= 3 else 2, max_size=n_channels, unique=True))
        pits = draw(st.lists(midi_pitches, min_size=1, max_size=4, unique=True))
        run_bias = draw(st.booleans())
        ch, pt = st.sampled_from(chs), st.sampled_from(pits)
        d = st.one_of(st.integers(0, 3), st.sampled_from([0, 24, 48, 96, 32, 480]), deltas())
        run = st.just(1) if run_bias else st.integers(0, 1)
        b7 = st.one_of(st.integers(0, 127), st.sampled_from([0, 1, 64, 127, 120, 121, 123]))
        vel = st.one_of(st.integers(1, 127), st.sampled_from([1, 2, 64, 126, 127]))
        if draw(st.integers(0, 1)):
            vel = st.sampled_from(draw(st.lists(vel, min_size=1, max_size=2)))
        if draw(st.integers(0, 1)):
            d = st.sampled_from(draw(st.lists(gen.mix(d, st.just(0), st.just(0)), min_size=1, max_size=3)))
        note = st.tuples(st.just('note'), d, ch, pt, vel, st.integers(0, 1), run)
        off = st.tuples(st.just('off'), d, ch, pt, st.integers(0, 127), st.integers(0, 1), run)
        chan = st.tuples(st.just('chan'), d, st.sampled_from([0xA, 0xB, 0xC, 0xD, 0xE]), st.one_of(ch, st.integers(0, 15)), b7, b7, run)
        sizes = st.one_of(st.integers(0, 5), st.sampled_from([0, 126, 127, 128, 129, 300]), gen.ints(0, 20000))
        sysex = st.tuples(st.just('sysex'), d, st.sampled_from([0xF0, 0xF7]), sizes)
        meta = st.tuples(st.just('meta'), d, st.sampled_from(FREE_META + list(FIXED_META)), sizes)
        stated = gen.mix(
            st.tuples(st.just(0x51), gen.ints(1, 0xFFFFFF).map(lambda x: list(x.to_bytes(3, 'big')))),
            st.tuples(st.just(0x59), st.tuples(st.integers(-7, 7).map(lambda x: x & 0xFF), st.integers(0, 1)).map(list)),
            st.tuples(st.just(0x54), st.tuples(st.integers(0, 3).flatmap(lambda r: st.integers(0, 23).map(lambda h: r << 5 | h)), st.integers(0, 59), st.integers(0, 59), st.integers(0, 23), st.integers(0, 99)).map(list)),
            st.tuples(st.just(0x21), st.integers(0, 127).map(lambda x: [x])),
            st.tuples(st.just(0), st.one_of(st.just([]), st.lists(st.integers(0, 255), min_size=2, max_size=2))),
            st.tuples(st.sampled_from(FREE_META), st.lists(st.integers(0, 255), max_size=9)))
        meta2 = st.tuples(st.just('meta'), d, stated).map(lambda x: ['meta', x[1], x[2][0], len(x[2][1]), x[2][1]])
        event = gen.mix(note, note, note, note, note, off, chan, sysex, meta, meta2).map(list)
        if draw(st.integers(0, 3)) == 0:
            # notes only, few channels, many sounding at once, struck and released together
            pits = draw(st.lists(midi_pitches, min_size=2, max_size=7, unique=True))
            one_ch = st.sampled_from(chs[:draw(st.integers(1, len(chs)))])
            d = st.sampled_from(draw(st.sampled_from([[0], [0], [0, 0, 0, 1], [0, 0, 12000], [1], [0, 0, 96]])))
            event = st.tuples(st.just('note'), d, one_ch, st.sampled_from(pits), vel, st.integers(0, 1), run).map(list)
        evs = draw(gen.seqs(event, 0, max_events))
        if n_channels > 3 and draw(st.integers(0, 5)) == 0:
            # all channels play
            order, gap = draw(st.permutations(range(16))), draw(st.integers(0, 9))
            evs += [['note', gap, c, draw(st.sampled_from(pits)), 1 + c, 0, 1] for c in order[:draw(st.integers(10, 16))]]
        if draw(st.integers(0, 14)) == 0:
            # very many voices at once
            first, count, gap, c = draw(st.integers(0, 127)), draw(st.sampled_from([9, 17, 33, 65, 127, 128])), draw(st.integers(0, 2)), draw(ch)
            evs += [['note', gap, c, (first + i * 37) % 128, 1 + i % 127, 0, 1] for i in range(count)]
        if evs and draw(st.integers(0, 3)) == 0:
            evs[0][1] = draw(st.one_of(deltas(), st.sampled_from([10001, 70000])))
        if draw(st.integers(0, 14)) == 0:
            # late: far beyond 2^32 ticks
            evs.insert(draw(st.integers(0, len(evs))), ['times', draw(st.sampled_from([1, 7, 8, 9, 15, 16, 17, 20, 33])), [['chan', MAX_DELTA, 0xB, chs[0], 7, 64, draw(st.integers(0, 1))]]])
        if draw(st.integers(0, 3)):
            # release what is still sounding, in the order it was struck
            sounding = []
            for e in evs:
                if e[0] in ('note', 'off'):
                    k = (e[2], e[3])
                    if k in sounding:
                        sounding.remove(k)
                    elif e[0] == 'note':
                        sounding.append(k)
            gap, style = draw(st.integers(0, 50)), draw(st.integers(0, 1))
            for c, q in sounding:
                evs.append(['off', gap, c, q, 64, style, 1])
        return evs

    return go()


alien_names = gen.mix(st.sampled_from(['XFIH', 'JUNK', 'RIFF', 'mtrk', 'AAAA', 'MTRK', 'MTrK', 'MThe', 'Mthd', 'MTxx', 'xTrk', '    ', '\x00\x00\x00\x00', '\xff\x2f\x00\x00', '\xa9cpy']),
                      st.lists(st.integers(0, 255), min_size=4, max_size=4).map(lambda x: ''.join(map(chr, x))).filter(lambda x: x not in ('MThd', 'MTrk')))
alien_chunks = st.lists(st.tuples(alien_names, st.one_of(st.integers(0, 20), gen.ints(0, 3000))).map(list),
                        max_size=2)


def foreign_files(n_channels=3, tpq=None, chts=False, max_events=18):
    return st.fixed_dictionaries(dict(
        tpq=tpq if tpq is not None else ppqs, extra=gen.mix(st.just(0), st.just(0), st.sampled_from([0, 1, 2, 10, 26, 58, 250]), gen.ints(0, 5000)),
        ccbb=gen.mix(st.just([24, 8]), st.just([24, 8]), st.tuples(st.sampled_from([0, 1, 12, 24, 36, 96, 255]), st.sampled_from([0, 1, 4, 8, 16, 24, 32, 255])).map(list), st.lists(st.integers(0, 255), min_size=2, max_size=2)),
        ts=st.one_of(st.none(), midi_sigs, st.sampled_from([[3, 2], [3, 3], [6, 3], [2, 2], [5, 2]])),
        chts=st.lists(st.tuples(st.integers(0, 15), gen.ints(0, 255), st.integers(0, 8)).map(list), max_size=3) if chts else st.just([]),
        tsm=gen.mix(st.just([]), st.just([]), st.lists(midi_sigs, min_size=1, max_size=2)) if chts else st.just([]),
        tsat=st.none() if chts else gen.mix(st.none(), st.none(), st.tuples(st.integers(0, 12), deltas()).map(list)),
        before=alien_chunks, after=alien_chunks, events=foreign_events(n_channels, max_events), end=st.one_of(st.just(0), deltas()),
        mc=middle_cs, mform=mforms))


def time_ok(got: Fraction, ticks: int, tpq: int) -> bool:
    exact = Fraction(ticks, 4 * tpq)
    if (ticks * 4096) % tpq == 0:
        return got == exact
    return 0 <= exact - got < Fraction(1, 16384)


def match_notes(got, want, mc, tpq, what):
    """got: [(pos, pitch, dur, vel)] of the code; want: [(start, dur, midi pitch, vel byte)] in ticks."""
    require(len(got) == len(want), '%s: %d notes instead of %d (got %s, file has %s)', what, len(got), len(want), got[:4], want[:4])
    groups = {}
    for s, d, p, v in want:
        groups.setdefault((p - 60 + mc, v), []).append((s, d))
    mine = {}
    for pos, p, dur, vel in got:
        b = round(vel * 127)
        require(vel == b / 127.0, '%s: velocity %r is not k/127', what, vel)
        mine.setdefault((p, b), []).append((pos, dur))
    require({k: len(v) for k, v in groups.items()} == {k: len(v) for k, v in mine.items()},
            '%s: (pitch, velocity) of the notes are %s, the file has %s', what, sorted(mine)[:8], sorted(groups)[:8])
    for key, ws in groups.items():
        gs = sorted(mine[key])
        ws = sorted(ws)
        if all(time_ok(g[0], w[0], tpq) and time_ok(g[1], w[1], tpq) for g, w in zip(gs, ws)):
            continue
        # any assignment of notes to notes is acceptable
        used = [None] * len(gs)

        def augment(i, seen):
            for j, g in enumerate(gs):
                if j not in seen and time_ok(g[0], ws[i][0], tpq) and time_ok(g[1], ws[i][1], tpq):
                    seen.add(j)
                    if used[j] is None or augment(used[j], seen):
                        used[j] = i
                        return True
            return False

        for i in range(len(ws)):
            require(augment(i, set()), '%s: no note at tick %d lasting %d (resolution %d, pitch %d); got %s', what, ws[i][0], ws[i][1],
                    tpq, key[0], [(str(a), str(b)) for a, b in gs[:6]])
