"""C23, C24, C25: chords."""
import importlib.util
import inspect
import math
import os
import subprocess
import sys
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..lib import REPO, Note, Signature, Sub, Tone, chord, expect_raises, fail, fields, mk_note, note_key, prop, require, sig_form, tone_form, val

# name groups -> semitones above the base
TABLE = {
    ('major', 'maj'): [0, 4, 7],
    ('minor', 'min'): [0, 3, 7],
    ('augmented', 'aug'): [0, 4, 8],
    ('diminished', 'dim'): [0, 3, 6],
    ('suspended4', 'sus4'): [0, 5, 7],
    ('suspended2', 'sus2'): [0, 2, 7],
    ('major7', 'maj7'): [0, 4, 7, 11],
    ('minor7', 'min7'): [0, 3, 7, 10],
    ('dominant7', 'dom7'): [0, 4, 7, 10],
    ('dominant7b5', 'dom7b5'): [0, 4, 6, 10],
    ('diminished7', 'dim7'): [0, 3, 6, 9],
    ('minor7b5', 'min7b5'): [0, 3, 6, 10],
    ('diminished_major7',): [0, 3, 6, 11],
    ('minor_major7',): [0, 3, 7, 11],
    ('augmented_major7', 'major7s5', 'maj7s5'): [0, 4, 8, 11],
    ('augmented_minor7', 'augmented7', 'aug7'): [0, 4, 8, 10],
    ('major9', 'maj9'): [0, 4, 7, 11, 14],
    ('minor9', 'min9'): [0, 3, 7, 10, 14],
    ('dominant9', 'dom9'): [0, 4, 7, 10, 14],
    ('dominant_minor9', 'min7b9'): [0, 4, 7, 10, 13],
    ('minor69', 'min69'): [0, 4, 7, 9, 14],
    ('added9', 'add9'): [0, 4, 14],
    ('major11', 'maj11'): [0, 4, 7, 11, 14, 17],
    ('minor11', 'min11'): [0, 3, 7, 10, 14, 17],
    ('dominant11', 'dom11'): [0, 4, 7, 10, 14, 17],
}
NAMES = sorted(n for g in TABLE for n in g)
STEPS = {n: v for g, v in TABLE.items() for n in g}
GROUP = {n: g for g in TABLE for n in g}

# a case: [name, base form 0..4, pitch, note [dur, vel] of the base, dur or None, dur form, vel or None, call form]


def make_base(form, pitch, bd, bv):
    if form < 4:
        return tone_form(pitch, form)
    return Note(pitch, sig_form(bd, 0), bv)


def call(fn, base, dur, dform, vel, how):
    d = None if dur is None else sig_form(dur, dform)
    if how == 0:
        return fn(base, d, vel)
    if how == 1:
        return fn(base=base, duration=d, velocity=vel)
    kw = {}
    if d is not None:
        kw['duration'] = d
    if vel is not None:
        kw['velocity'] = vel
    return fn(base, **kw)


def expected(name, form, pitch, bd, bv, dur, vel):
    d = val(dur) if dur is not None else val(bd) if form == 4 else Fraction(1, 4)
    v = vel if vel is not None else bv if form == 4 else 0.75
    return [(pitch + s, d, v) for s in STEPS[name]]


def get(name):
    fn = getattr(chord, name, None)
    require(callable(fn), 'there is no chord function %s', name)
    return fn


def notes_of(r, name):
    require(isinstance(r, tuple), '%s returned %s', name, type(r).__name__)
    return [note_key(n) for n in r]


def run_intervals(case):
    name, form, pitch, bd, bv, dur, dform, vel, how, shift = case
    fn = get(name)
    got = notes_of(call(fn, make_base(form, pitch, bd, bv), dur, dform, vel, how), name)
    want = [pitch + s for s in STEPS[name]]
    require([n[0] for n in got] == want, '%s(%d) has tones %s, expected %s', name, pitch, [n[0] for n in got], want)
    require(all(a[0] < b[0] for a, b in zip(got, got[1:])), 'tones not ascending')
    for other in GROUP[name]:
        r = call(get(other), make_base(form, pitch, bd, bv), dur, dform, vel, how)
        require(notes_of(r, other) == got, '%s and %s differ on base %d', name, other, pitch)
        require(r == call(fn, make_base(form, pitch, bd, bv), dur, dform, vel, how), '%s != %s', name, other)
    # transposing the base transposes the chord
    moved = notes_of(call(fn, make_base(form, pitch + shift, bd, bv), dur, dform, vel, how), name)
    require(moved == [(p + shift, d, v) for p, d, v in got], '%s: transposing the base by %d gives %s', name, shift, moved)
    orig = call(fn, make_base(form, pitch, bd, bv), dur, dform, vel, how)
    require([note_key(n.transposed(shift)) for n in orig] == moved, '%s: chord transposed by %d differs from the chord on the transposed base', name, shift)
    return ['nontrivial', f'base form {max(form, -1)}']


def run_values(case):
    name, form, pitch, bd, bv, dur, dform, vel, how, shift = case
    fn = get(name)
    base = make_base(form, pitch, bd, bv)
    before = (note_key(base), repr(base)) if isinstance(base, Note) else repr(base)
    made = call(fn, base, dur, dform, vel, how)
    got = notes_of(made, name)
    want = expected(name, form, pitch, bd, bv, dur, vel)
    require(got == want, '%s: (pitch, duration, velocity) are %s, expected %s', name, got, want)
    written = dur if dur is not None else bd if form == 4 else [1, 2]
    require({fields(n.duration) for n in made} == {(written[0], 1 << written[1])}, '%s: duration given as %d/2^%d is written %s', name, written[0], written[1], [str(n.duration) for n in made])
    after = (note_key(base), repr(base)) if isinstance(base, Note) else repr(base)
    require(before == after, 'the base changed from %s to %s', before, after)
    # a second call with other arguments first: nothing is remembered
    call(fn, base, [3, 4], 0, 0.25, 0)
    require(notes_of(call(fn, base, dur, dform, vel, how), name) == want, '%s: the second call differs', name)
    labels = ['base note' if form == 4 else 'base tone', 'dur given' if dur is not None else 'dur default', 'vel given' if vel is not None else 'vel default']
    if form == 4 or dur is not None or vel is not None:
        labels.append('nontrivial')
    if vel == 0.0 or (form == 4 and bv == 0.0):
        labels.append('zero velocity')
    if (dur is not None and dur[0] == 0) or (form == 4 and bd[0] == 0):
        labels.append('zero duration')
    return labels


BAD = {
    'base none': lambda f: f(None), 'base float': lambda f: f(1.5), 'base list': lambda f: f([1]), 'base tuple': lambda f: f((0, 1)), 'base bytes': lambda f: f(b'C3'),
    'base empty text': lambda f: f(''), 'base lowercase': lambda f: f('c3'), 'base space': lambda f: f(' C3'), 'base rest': lambda f: f('C3x'), 'base h': lambda f: f('H3'),
    'base newline': lambda f: f('C3\n'), 'base signature': lambda f: f(Signature(1, 4)), 'base chord': lambda f: f((Note(1), Note(2))),
    'velocity high': lambda f: f(0, None, math.nextafter(1.0, 2)), 'velocity low': lambda f: f(0, None, -math.ulp(0.0)), 'velocity nan': lambda f: f(0, None, math.nan),
    'velocity inf': lambda f: f(0, None, math.inf), 'velocity 127': lambda f: f(Note(3), None, 127), 'velocity text': lambda f: f(0, None, '0.5'),
    'duration int': lambda f: f(0, 1), 'duration float': lambda f: f(0, 0.25), 'duration 1/3': lambda f: f(0, (1, 3)), 'duration negative': lambda f: f(Note(0), (-1, 4)),
    'duration 1/0': lambda f: f(0, (1, 0)), 'duration long': lambda f: f(0, (1, 2, 4)), 'duration short': lambda f: f(0, (1,)), 'duration text': lambda f: f(0, '1/4'),
    'duration -4': lambda f: f(0, (1, -4)),
}


def run_bad(case):
    name, kind = case
    expect_raises((ValueError, TypeError), lambda: BAD[kind](get(name)), f'{name} with {kind}')
    require([note_key(n) for n in get(name)(0)] == [(s, Fraction(1, 4), 0.75) for s in STEPS[name]], '%s differs after a refused call', name)
    return ['nontrivial', kind]


def enum_bad(tier):
    for n in NAMES:
        for k in BAD:
            yield [n, k]


def enum_chords(tier):
    """All functions on all bases of two octaves beyond the MIDI range, in all base forms."""
    for name in NAMES:
        for pitch in range(-40, 140, 7 if tier == 'quick' else 1):
            for form in range(5):
                yield [name, form, pitch, [3, 4], 0.3, None, 0, None, 0, 1 + pitch % 13]
        for seed in range(1, 800, 11 if tier == 'quick' else 1):
            yield [name, -seed, seed % 50 - 20, [3, 4], 0.3, None, 0, None, 0, 12]


def enum_values(tier):
    durs = [None, [0, 0], [1, 2], [3, 3], [0, 5]]
    vels = [None, 0.0, 1.0, 0.75, 0.2, 0, 1]
    for name in NAMES:
        for form in (0, 1, 2, 4):
            for d in durs:
                for v in vels:
                    for bd, bv in (([3, 4], 0.3), ([0, 2], 0.0)) if form == 4 else (([3, 4], 0.3),):
                        yield [name, form, 5, bd, bv, d, 1, v, 2, 0]


def cases(tier):
    return st.tuples(st.sampled_from(NAMES), gen.mix(st.integers(0, 4), st.integers(0, 4), st.integers(-800, -1)), gen.pitches, st.one_of(gen.times(), gen.wild_times()), gen.velocities(),
                     st.one_of(st.none(), gen.times(), gen.wild_times()), st.integers(0, 2), gen.mix(st.none(), gen.velocities(), st.sampled_from([0.0, 0, 1])),
                     st.integers(0, 2), st.one_of(st.integers(-24, 24), gen.ints(-10 ** 6, 10 ** 6))).map(list)


prop('C23',
     Sub('intervals', run_intervals, 'every chord function with every base form on generated pitches, against an independent interval table; all cases are non-trivial',
         strategy=cases, enumerate=enum_chords, quick=5000, thorough=100000),
     assumptions=['the interval table (including "minor69" and "added9") is the documented one of the shipped module'])

prop('C24',
     Sub('values', run_values, 'chords with given or inherited duration and velocity; non-trivial: something is given or inherited', strategy=cases, enumerate=enum_values,
         quick=5000, thorough=100000),
     Sub('refusals', run_bad, 'invalid bases, durations and velocities for every chord function; all non-trivial', enumerate=enum_bad))


# --- C25 ------------------------------------------------------------------------------------------

SCRIPT = os.path.join(REPO, 'scripts', 'generate_chords.py')
_cache = {}


def generate(how):
    """Runs the generator in one of several ways and imports what it wrote."""
    if how in _cache:
        return _cache[how]
    with tempfile.TemporaryDirectory(dir=os.environ.get('MELVER_SCRATCH')) as d:
        out = os.path.join(d, 'regenerated_chords.py')
        arg, cwd, env = out, d, dict(os.environ)
        if how == 'relative path':
            arg = 'regenerated_chords.py'
        elif how == 'over a longer file':
            with open(out, 'w') as f:
                f.write('raise RuntimeError("left over")\n' * 5000)
        elif how == 'twice':
            subprocess.run([sys.executable, SCRIPT, arg], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        elif how == 'without the package':
            env.pop('PYTHONPATH', None)
            env['PYTHONHASHSEED'] = '77'
        elif how == 'isolated':
            env = {k: v for k, v in env.items() if k in ('PATH', 'HOME', 'PYTHONDONTWRITEBYTECODE')}
            env['LC_ALL'] = 'C'
        p = subprocess.run([sys.executable, SCRIPT, arg], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        require(p.returncode == 0, 'the generator failed (%s): %s', how, p.stdout.decode(errors='replace')[-500:])
        require(os.path.exists(out), 'the generator wrote no file (%s)', how)
        name = 'melodia.music._regenerated_' + how.replace(' ', '_')
        spec = importlib.util.spec_from_file_location(name, out)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        try:
            spec.loader.exec_module(mod)
        except Exception as e:                      # noqa: BLE001
            fail(f'the generated module cannot be imported ({how}): {type(e).__name__}: {e}')
    _cache[how] = mod
    return mod


def public_chords(mod):
    out = {}
    for n, f in inspect.getmembers(mod, callable):
        if n.startswith('_') or inspect.isclass(f):
            continue
        try:
            r = f(0)
        except Exception:                           # noqa: BLE001
            continue
        if isinstance(r, tuple) and r and all(isinstance(x, Note) for x in r):
            out[n] = f
    return out


HOWS = ['absolute path', 'relative path', 'over a longer file', 'twice', 'without the package', 'isolated']


def run_generator(case):
    how, rest = case[0], case[1:]
    mod = generate(how)
    if not rest:
        a, b = public_chords(chord), public_chords(mod)
        require(set(a) == set(b), 'functions only in the shipped module: %s; only in the generated one: %s', sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        return ['nontrivial', how]
    name, form, pitch, bd, bv, dur, dform, vel, hw, shift = rest
    names = sorted(public_chords(chord)) if '_names' not in _cache else _cache['_names']
    _cache['_names'] = names
    name = names[NAMES.index(name) % len(names)]
    results = []
    for m in (chord, mod):
        f = getattr(m, name, None)
        require(callable(f), '%s is missing', name)
        results.append(notes_of(call(f, make_base(form, pitch, bd, bv), dur, dform, vel, hw), name))
    require(results[0] == results[1], '%s(%d): shipped %s, generated %s', name, pitch, results[0], results[1])
    for kind in list(BAD)[shift % 7::7]:
        errs = []
        for m in (chord, mod):
            try:
                BAD[kind](getattr(m, name))
                errs.append(None)
            except Exception as e:                  # noqa: BLE001
                errs.append(type(e).__name__)
        require((errs[0] is None) == (errs[1] is None), '%s with %s: shipped %s, generated %s', name, kind, errs[0], errs[1])
    return ['nontrivial', how]


def enum_generator(tier):
    for how in HOWS:
        yield [how]
    for c in enum_values(tier):
        yield ['absolute path'] + c


prop('C25',
     Sub('generator', run_generator, 'the module written by scripts/generate_chords.py (run in six ways) against the shipped one on generated arguments; all non-trivial',
         strategy=lambda tier: st.tuples(st.sampled_from(HOWS), cases(tier)).map(lambda t: [t[0]] + t[1]), enumerate=enum_generator, quick=2500, thorough=50000))
