"""C06, C07: notes."""
import math

from hypothesis import strategies as st

from .. import gen
from ..lib import (Note, Signature, Sub, Tone, expect_raises, fields, mk_note, note_key, note_val, pitch_of, prop, require,
                   sig_form, tone_form)
from .tone import OPS

any_notes = gen.notes(pitch=gen.pitches, dur=st.one_of(gen.times(), gen.wild_times()))


def run_forms(case):
    pitch, dur, vel, form, how = case
    t, d = tone_form(pitch, form), sig_form(dur, form // 4)
    if how == 0:
        n = Note(t, d, vel)
    elif how == 1:
        n = Note(tone=t, duration=d, velocity=vel)
    elif how == 2:
        n, vel = Note(t, d), 0.75
    elif how == 3:
        n, dur = Note(t, velocity=vel), [1, 2]
    elif how == 4:
        n, dur, vel = Note(t), [1, 2], 0.75
    else:
        n = Note(velocity=vel, tone=t, duration=tuple(d) if isinstance(d, list) else d)
    require(pitch_of(n.tone) == pitch, 'tone is %r, given %d', n.tone, pitch)
    require(fields(n.duration) == (dur[0], 1 << dur[1]), 'duration is %s, given %r', n.duration, dur)
    require(n.velocity == vel and isinstance(n.velocity, type(vel)), 'velocity is %r, given %r', n.velocity, vel)
    require(n == Note(Tone(pitch), Signature(dur[0], 1 << dur[1]), vel), 'forms give different notes')
    return (['nontrivial'] if form or how else []) + ['how %d' % how]


def run_derive(case):
    spec, ops = case
    note = mk_note(spec)
    model = [spec[0], (spec[1][0], 1 << spec[1][1]), spec[2]]
    trail = []
    for op in ops:
        trail.append((note, list(model)))
        if op[0] == 'transposed':
            note, model = note.transposed(op[1]), [model[0] + op[1], model[1], model[2]]
        elif op[0] == 'duration':
            note, model = note.with_duration(sig_form(op[1], op[2])), [model[0], (op[1][0], 1 << op[1][1]), model[2]]
        elif op[0] == 'velocity':
            note, model = note.with_velocity(op[1]), [model[0], model[1], op[1]]
        elif op[0] == 'bad velocity':
            expect_raises(ValueError, lambda: note.with_velocity(bad_float(op[1])), f'with_velocity({op[1]})')
        elif op[0] == 'bad duration':
            expect_raises((ValueError, TypeError), lambda: note.with_duration(bad_duration(op[1])), f'with_duration({op[1]!r})')
        trail.append((note, list(model)))
    for n, m in trail:
        note_key(n)
        got = [n.tone.pitch, fields(n.duration), n.velocity]
        require(got == m, 'note is %r, expected %r', got, m)
    return (['nontrivial'] if len({o[0] for o in ops}) > 1 else []) + [o[0] for o in ops]


def bad_float(x):
    return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(x, x)


def bad_duration(x):
    return None if x == 'none' else 3 if x == 'int' else 0.25 if x == 'float' else x


bad_velocities = st.one_of(st.sampled_from(['nan', 'inf', '-inf', 2, -1, 127, math.nextafter(1.0, 2.0), -5e-324]),
                           st.floats(min_value=math.nextafter(1.0, 2.0), allow_infinity=False, allow_nan=False),
                           st.floats(max_value=-5e-324, allow_infinity=False, allow_nan=False))
bad_durations = st.one_of(st.sampled_from(['none', 'int', 'float', '1/4', [1], [1, 2, 3], [], [1, 0], [1, 3], [-1, 4], [0, -2]]),
                          st.tuples(st.integers(-10, -1), st.sampled_from([1, 2, 4])).map(list),
                          st.tuples(st.integers(0, 20), st.sampled_from([0, 3, 5, 6, 7, 9, 10, 12, -1, -4, 100])).map(list))


def derive_strategy(tier):
    op = st.one_of(
        st.tuples(st.just('transposed'), st.one_of(st.integers(-24, 24), gen.ints(-10 ** 6, 10 ** 6))),
        st.tuples(st.just('duration'), st.one_of(gen.times(), gen.wild_times()), st.integers(0, 2)),
        st.tuples(st.just('velocity'), gen.velocities()),
        st.tuples(st.just('bad velocity'), bad_velocities),
        st.tuples(st.just('bad duration'), bad_durations)).map(list)
    return st.tuples(any_notes, st.lists(op, max_size=8)).map(list)


def run_invalid(case):
    kind, x, spec = case
    pitch, dur, vel, form = spec
    t, d = tone_form(pitch, form), sig_form(dur, form // 4)
    if kind == 'velocity':
        expect_raises(ValueError, lambda: Note(t, d, bad_float(x)), f'velocity {x}')
        expect_raises(ValueError, lambda: Note(t, velocity=bad_float(x)), f'velocity {x}')
    elif kind == 'duration':
        expect_raises((ValueError, TypeError), lambda: Note(t, bad_duration(x), vel), f'duration {x!r}')
    else:
        bad = {'float': 1.5, 'none': None, 'list': [60], 'bytes': b'C4', 'tuple': (60,), 'name': 're', 'empty': ''}[x]
        expect_raises((ValueError, TypeError), lambda: Note(bad, d, vel), f'tone {bad!r}')
    return ['nontrivial', kind]


def invalid_strategy(tier):
    return st.one_of(
        st.tuples(st.just('velocity'), bad_velocities, any_notes),
        st.tuples(st.just('duration'), bad_durations, any_notes),
        st.tuples(st.just('tone'), st.sampled_from(['float', 'none', 'list', 'bytes', 'tuple', 'name', 'empty']), any_notes)).map(list)


prop('C06',
     Sub('forms', run_forms, 'all argument forms and call styles; non-trivial: any but positional Tone/Signature',
         strategy=lambda tier: st.tuples(gen.pitches, st.one_of(gen.times(), gen.wild_times()), gen.velocities(), gen.forms, st.integers(0, 5)).map(list),
         quick=4000, thorough=80000),
     Sub('derivations', run_derive, 'chains of derived notes, every note of the chain re-checked at the end; non-trivial: two kinds of step',
         strategy=derive_strategy, quick=3000, thorough=60000),
     Sub('invalid', run_invalid, 'invalid velocities, durations and tones; all non-trivial', strategy=invalid_strategy,
         quick=3000, thorough=40000))


def run_compare(case):
    a, b = case
    x, y = mk_note(a), mk_note(b)
    u, v = note_val(a), note_val(b)
    for s, t, p, q in ((x, y, u, v), (y, x, v, u)):
        for name, op in OPS:
            got = op(s, t)
            require(got is op(p, q), '%s %s %s is %r', s, name, t, got)
    require(note_key(x) == u and note_key(y) == v, 'comparison changed a note')
    labels = []
    if u[0] == v[0]:
        labels.append('same pitch')
        if u[1] == v[1]:
            labels.append('same pitch and duration')
        if a[1][1] != b[1][1]:
            labels.append('different duration denominators')
        labels.append('nontrivial')
    return labels


def compare_strategy(tier):
    def mutate(t):
        spec, what, other, dk, dn = t
        n = list(spec)
        if what == 'rewrite':
            n[1] = [spec[1][0] << dk, spec[1][1] + dk]
        elif what == 'duration':
            n[1] = [max(0, (spec[1][0] << dk) + dn), spec[1][1] + dk]
        elif what == 'velocity':
            n[2] = other[2]
        elif what == 'pitch':
            n[0] = spec[0] + dn
        elif what == 'pitch and duration':
            n[0], n[1] = spec[0] + dn, other[1]
        elif what == 'duration and velocity':
            n[1], n[2] = other[1], other[2]
        return [list(spec), n]

    rel = st.tuples(any_notes, st.sampled_from(['rewrite', 'duration', 'velocity', 'pitch', 'pitch and duration',
                                                'duration and velocity']),
                    any_notes, st.integers(0, 8), st.sampled_from([-1, 1])).map(mutate)
    return st.one_of(rel, rel.map(lambda p: [p[1], p[0]]), st.tuples(gen.notes(), gen.notes()).map(list))


def run_sort(case):
    xs = [mk_note(c) for c in case]
    got = [note_key(n) for n in sorted(xs)]
    require(got == sorted(note_val(c) for c in case), 'sorted notes are %s', [str(n) for n in sorted(xs)])
    if xs:
        require(note_key(max(xs)) == max(note_val(c) for c in case), 'max(notes) is wrong')
        require(note_key(min(xs)) == min(note_val(c) for c in case), 'min(notes) is wrong')
    return ['nontrivial'] if len({c[0] for c in case}) < len(case) and len(case) > 2 else []


prop('C07',
     Sub('pairs', run_compare, 'pairs of notes, mostly differing in one or two components; non-trivial: equal pitch',
         strategy=compare_strategy, quick=6000, thorough=150000),
     Sub('sorting', run_sort, 'lists of notes; non-trivial: three or more with a shared pitch',
         strategy=lambda tier: st.lists(gen.notes(pitch=st.integers(0, 2), dur=st.one_of(gen.times(), gen.times(3, 2))), max_size=10),
         quick=2500, thorough=50000))
