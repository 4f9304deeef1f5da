"""C29: histories over several tracks, chords, processing, export and import against one model."""
import random
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..lib import (Note, Sub, Track, chord, contents, expect_raises, fail, fields, frac, midi, mk_note, note_key, note_val, prop, randomize_velocities, require,
                   sig_form, tone_form, val, vel_byte_ok)
from .chord import NAMES, STEPS
from .track import bulk_specs

MAX_NOTES = 60


class M:
    """Model of a track."""

    def __init__(self, sig, items=()):
        self.sig, self.items = tuple(sig), list(items)

    @property
    def length(self):
        return max((p + d for p, _, d, _ in self.items), default=Fraction(0))

    def copy(self):
        return M(self.sig, self.items)

    def sorted(self):
        return sorted(self.items)


def overlaps(items):
    """Some pitch is struck while it sounds."""
    ends = {}
    for p, q, d, v in sorted(items):
        if q in ends and p < ends[q]:
            return True
        ends[q] = max(ends.get(q, Fraction(0)), p + d)
    return False


def compare(t, m, what):
    got, want = contents(t), m.sorted()
    require(len(t) == len(want), '%s: %d notes instead of %d', what, len(t), len(want))
    require(got == want, '%s: contents are %s, the model has %s', what, got[:6], want[:6])
    require(fields(t.signature) == m.sig, '%s: signature %s, the model has %d/%d', what, t.signature, *m.sig)
    require(frac(t.length) == m.length, '%s: length %s, the model has %s', what, t.length, m.length)


def run_history(case):
    ts, ms = [Track()], [M((4, 4))]
    bulked = False
    exports = []            # (bytes, model at that time)
    labels = set()

    for step, op in enumerate(case):
        kind, a, b, c, d, e, f = op
        i = a % len(ts)
        t, m = ts[i], ms[i]
        what = f'step {step} ({kind})'
        full = len(m.items) > MAX_NOTES
        if kind == 'new':
            if len(ts) < 5:
                s = [[4, 2], [3, 2], [6, 3], [7, 3], [2, 1], [5, 4], [12, 3], [0, 0], [255, 2]][b % 9]
                ts.append(Track(sig_form(s, c)))
                ms.append(M((s[0], 1 << s[1])))
        elif kind == 'add' and not full:
            spec, pos = d, e
            p = m.length if pos is None else val(pos)
            t.add(mk_note(spec), None if pos is None else sig_form(pos, c))
            m.items.append((p,) + note_val(spec))
        elif kind == 'bulk' and not full and not bulked:
            # once per history: many notes, in any order of position, one by one or as the content of a new track
            specs = [(x, p) for x, p in bulk_specs(['bulk', b + 20, d[0] % 60, c, 4, f + 3 * (b % 4)])]
            if f % 2 and len(ts) < 5:
                ts.append(Track(sig_form([3, 2], c), [(mk_note(x), sig_form(p, c % 3)) for x, p in specs]))
                ms.append(M((3, 4), [(val(p),) + note_val(x) for x, p in specs]))
            else:
                for x, p in specs:
                    t.add(mk_note(x), sig_form(p, c % 3))
                m.items += [(val(p),) + note_val(x) for x, p in specs]
            bulked = True
            labels.add('many notes')
        elif kind == 'chord' and not full:
            name = NAMES[b % len(NAMES)]
            base = mk_note(d) if c % 2 else tone_form(d[0], c // 2)
            dur, vel = (None, d[1], None, d[1])[f % 4], (None, None, d[2], d[2])[f % 4]
            notes = getattr(chord, name)(base, None if dur is None else sig_form(dur, c), vel)
            md = val(dur) if dur is not None else val(d[1]) if c % 2 else Fraction(1, 4)
            mv = vel if vel is not None else d[2] if c % 2 else 0.75
            p = m.length if e is None else val(e)
            t.add(notes if f % 2 else list(notes), None if e is None else sig_form(e, c))
            m.items += [(p, d[0] + s, md, mv) for s in STEPS[name]]
            labels.add('chord')
        elif kind == 'derive' and m.items and not full:
            # a note taken out of a track, changed, and put into another one
            k = b % len(m.items)
            _, note = list(t)[k]
            mp, mq, md, mv = m.sorted()[k]
            if f % 3 == 0:
                n2, k2 = note.transposed(c - 6), (mq + c - 6, md, mv)
            elif f % 3 == 1:
                n2, k2 = note.with_duration(sig_form(d[1], c)), (mq, val(d[1]), mv)
            else:
                n2, k2 = note.with_velocity(d[2]), (mq, md, d[2])
            require(note_key(note) == (mq, md, mv), '%s: the original note changed', what)
            j = (a + c) % len(ts)
            p = ms[j].length if e is None else val(e)
            ts[j].add(n2, None if e is None else sig_form(e, c))
            ms[j].items.append((p,) + k2)
            labels.add('derived note')
        elif kind == 'share' and m.items and not full:
            # the very same note object in two tracks
            j = (a + 1 + c) % len(ts)
            k = b % len(m.items)
            _, note = list(t)[k]
            p = ms[j].length if e is None else val(e)
            ts[j].add(note, None if e is None else sig_form(e, c))
            ms[j].items.append((p,) + m.sorted()[k][1:])
            labels.add('shared note')
        elif kind == 'copy':
            new = Track(t.signature, [(n, p) for p, n in t])
            nm = m.copy()
            compare(new, nm, what)
            require(new == t, '%s: the copy is not equal to the original', what)
            if len(ts) < 5:
                ts.append(new), ms.append(nm)
            else:
                j = b % len(ts)
                ts[j], ms[j] = new, nm
            labels.add('copy')
        elif kind == 'merge' and not full and len(ts) > 1:
            j = (a + 1) % len(ts)
            if len(ms[j].items) + len(m.items) <= MAX_NOTES and i != j:
                for p, n in ts[j]:
                    t.add(n, p)
                m.items += ms[j].items
                labels.add('merge')
        elif kind == 'randomize':
            random.seed(b * 31 + c)
            lo, hi = sorted((d[2], (c % 11) / 10.0))
            var = (0.0, 0.01, 0.3)[f % 3]
            r = randomize_velocities(t, lo, hi, mean=0.6, variance=var)
            got = contents(r)
            require([x[:3] for x in got] == [x[:3] for x in m.sorted()], '%s: notes changed', what)
            for x in got:
                require(lo <= x[3] <= hi, '%s: velocity %r outside [%r, %r]', what, x[3], lo, hi)
                require(var or x[3] == min(hi, max(lo, 0.6)), '%s: velocity %r with zero variance', what, x[3])
            nm = M(m.sig, got)
            compare(r, nm, what)
            if len(ts) < 5:
                ts.append(r), ms.append(nm)
            else:
                ts[i], ms[i] = r, nm
            labels.add('randomize')
        elif kind == 'export':
            if all(-24 <= x[1] <= 103 for x in m.items):
                data = midi.MIDIWriter(bpm=60 + b, channel=c).dumps(t) if f % 2 else midi.dumps(t, bpm=60 + b, channel=c)
                exports.append((data, m.copy(), c))
                labels.add('export')
            else:
                expect_raises(ValueError, lambda: midi.dumps(t), f'{what}: tone out of the MIDI range')
        elif kind == 'import' and exports:
            data, em, ch = exports[b % len(exports)]
            r = midi.loads(data, channel=ch if f % 2 and em.items else None)
            if importable(em):
                nm = check_import(r, em, what)
                if len(ts) < 5:
                    ts.append(r), ms.append(nm)
                else:
                    ts[i], ms[i] = r, nm
                labels.add('import')
                if exports.index((data, em, ch)) < len(exports) - 1 or em.items != m.items:
                    labels.add('import of an older state')
        elif kind == 'observe':
            compare(t, m, what)
            str(t), repr(t)
        elif kind == 'equal':
            j = b % len(ts)
            want = (Fraction(*m.sig), m.sorted()) == (Fraction(*ms[j].sig), ms[j].sorted())
            require((t == ts[j]) is want and (t != ts[j]) is (not want), '%s: tracks %d and %d compare %s', what, i, j, not want)
        # whatever was touched, all tracks agree with their models
        if c % 4 == 0:
            for k, (x, y) in enumerate(zip(ts, ms)):
                compare(x, y, f'{what}, track {k}')
    for k, (x, y) in enumerate(zip(ts, ms)):
        compare(x, y, f'at the end, track {k}')
    for data, em, ch in exports:
        if importable(em):
            check_import(midi.loads(data), em, 'import of an earlier export at the end')
    if len(labels) >= 3:
        labels.add('nontrivial')
    return labels


def importable(m):
    return not overlaps(m.items) and all(v * 127 >= 1 for _, _, _, v in m.items)


def check_import(r, em, what):
    got, want = contents(r), em.sorted()
    require(fields(r.signature) == em.sig, '%s: signature %s instead of %d/%d', what, r.signature, *em.sig)
    require([x[:3] for x in got] == [x[:3] for x in want], '%s: imported %s, exported %s', what, got[:5], want[:5])
    for x, y in zip(got, want):
        b = round(x[3] * 127)
        require(x[3] == b / 127.0 and vel_byte_ok(y[3], b), '%s: velocity %r came back as %r', what, y[3], x[3])
    nm = M(em.sig, got)
    compare(r, nm, what)
    return nm


# multiples of 1/128: exact at the default resolution
times = st.one_of(st.tuples(st.integers(0, 8), st.integers(0, 3)).map(list), st.tuples(st.integers(0, 600), st.integers(0, 7)).map(list))
durs = st.one_of(st.tuples(st.integers(0, 4), st.integers(1, 4)).map(list), st.tuples(st.integers(0, 40), st.integers(3, 7)).map(list))
notes = st.tuples(st.one_of(st.integers(-24, 103), st.integers(34, 42), st.integers(-40, 120)), durs, gen.velocities(), gen.forms).map(list)
OPS = ['new', 'add', 'add', 'add', 'chord', 'chord', 'derive', 'derive', 'share', 'copy', 'merge', 'randomize', 'export', 'export', 'import', 'import', 'import', 'observe', 'equal', 'bulk']


few = gen.palettes(st.integers(-24, 103), durs, times, far=False)


def history(tier):
    def ops(note, time):
        op = st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 99), st.integers(0, 15), note, gen.mix(st.none(), st.none(), time), st.integers(0, 5)).map(list)
        return gen.seqs(op, 2, 16 if tier == 'quick' else 40)

    return gen.mix(ops(notes, times), ops(notes, times), few.flatmap(lambda pal: ops(gen.palette_notes(pal), st.sampled_from(pal[3]))))


prop('C29',
     Sub('histories', run_history, 'operation sequences over up to five tracks and their exports against a list model; non-trivial: 3+ kinds of operation took effect',
         strategy=history, quick=5000, thorough=120000),
     assumptions=['times are multiples of 1/128', 'exports with overlapping equal pitches or silent notes are not compared after import'])
