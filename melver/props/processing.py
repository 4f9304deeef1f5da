"""C26, C27: randomize_velocities."""
import math
import random

from hypothesis import strategies as st

from .. import gen
from ..lib import Note, Signature, Sub, Track, contents, expect_raises, fields, frac, midi, mk_note, prop, randomize_velocities, require, sig_form, snapshot
from .track import few, positions, short_notes, wild_notes, wild_pos, bulk_specs

# settings: [minimum, maximum, mean, variance] or None for the defaults, plus the calling style


def invoke(track, s, style=0):
    if s is None:
        return randomize_velocities(track)
    mi, ma, me, va = s
    if style % 3 == 0:
        return randomize_velocities(track, mi, ma, me, va)
    if style % 3 == 1:
        return randomize_velocities(track=track, minimum=mi, maximum=ma, mean=me, variance=va)
    return randomize_velocities(track, variance=va, maximum=ma, mean=me, minimum=mi)


def make(case):
    t = Track(signature=sig_form(case['sig'], 0))
    for k in range(case.get('times', 1)):
        for i, (n, p) in enumerate(case['items']):
            t.add(mk_note(n), None if p is None else sig_form([p[0] + (k << p[1]), p[1]], i))
    if case.get('bulk'):
        for spec, pos in bulk_specs(case['bulk']):
            t.add(mk_note(spec), sig_form(pos, 0))
    return t


def shape(track):
    return [(p, q, d) for p, q, d, v in contents(track)]


def run_preserve(case):
    t = make(case)
    if case['observe'] & 1:
        list(t)
    before = snapshot(t)
    random.seed(case['seed'])
    r = invoke(t, case['set'], case['style'])
    require(isinstance(r, Track), 'returned %s', type(r).__name__)
    require(r is not t, 'the given track itself was returned')
    require(snapshot(t) == before, 'the given track changed')
    require(fields(r.signature) == fields(t.signature), 'signature %s became %s', t.signature, r.signature)
    require(len(r) == len(t), '%d notes became %d', len(t), len(r))
    require(shape(r) == shape(t), 'positions, tones or durations changed')
    require(frac(r.length) == frac(t.length), 'length %s became %s', t.length, r.length)
    # independence, in both directions
    after = snapshot(r)
    t.add(Note(5, (1, 8), 0.5), (case['seed'] % 9, 4))
    t.add(Note(6))
    require(snapshot(r) == after, 'editing the given track changed the result')
    grown = snapshot(t)
    r.add(Note(7, (1, 8), 0.5), (case['seed'] % 9, 4))
    r.add([Note(8), Note(9)])
    require(snapshot(t) == grown, 'editing the result changed the given track')
    require(len(r) == before[2] + 3, 'the result does not accept additions')
    # randomising the result again, and the given track once more: still the same shape
    r2 = invoke(t, case['set'], case['style'])
    require(shape(r2) == shape(t) and snapshot(t) == grown, 'second randomisation changed something else')
    labels = []
    if before[2] >= 2:
        labels.append('nontrivial')
    if case.get('bulk'):
        labels.append('bulk')
    return labels


unit = st.one_of(st.floats(0.0, 1.0, allow_nan=False), st.sampled_from([0.0, 1.0, 0.5, 0.75, 0, 1]))


@st.composite
def settings_strategy(draw):
    if draw(st.integers(0, 4)) == 0:
        return None
    a, b = draw(unit), draw(unit)
    va = draw(st.one_of(st.sampled_from([0.0, 0, 0.01, 1.0, 1e6, 1e-12]), st.floats(0.0, 2.0, allow_nan=False)))
    return [min(a, b), max(a, b), draw(unit), va]


@st.composite
def tracks(draw):
    wild = draw(st.integers(0, 3)) == 0
    note, pos = (wild_notes, wild_pos) if wild else (short_notes, positions)
    if draw(st.booleans()):
        pal = draw(few)
        note, pos = gen.palette_notes(pal), st.sampled_from(pal[3])
    c = dict(sig=draw(st.one_of(gen.times(5, 4), gen.signatures())), items=draw(gen.seqs(st.tuples(note, gen.mix(st.none(), pos, pos)).map(list), 0, 8)),
             observe=draw(st.integers(0, 1)), seed=draw(st.integers(0, 2 ** 32)), set=draw(settings_strategy()), style=draw(st.integers(0, 2)))
    if c['items'] and draw(st.integers(0, 3)) == 0:
        c['times'] = 2 + draw(st.integers(8, 60)) // len(c['items'])
    elif draw(st.integers(0, 8)) == 0:
        c['bulk'] = ['bulk', draw(gen.sizes(400)), 10, draw(st.integers(0, 5)), draw(st.integers(0, 6)), draw(st.integers(0, 15))]
    return c


def enum_large(tier):
    for n in (500, 1100, 2500, 6000) if tier == 'quick' else (500, 1100, 2500, 6000, 12000, 20000, 70000):
        for order in range(0, 16, 1 if n < 2000 else 5):
            yield dict(sig=[3, 3], items=[[[60, [1, 2], 0.5, 0], [0, 0]]], observe=order % 2, seed=n + order, set=None if order % 3 == 0 else [0.2, 0.9, 0.5, (0.0, 0.3)[order % 2]], style=order % 3,
                       bulk=['bulk', n, 10, order % 3, order % 5, order])


prop('C26',
     Sub('preserved', run_preserve, 'random tracks and settings; shape, signature, length and the input are compared before and after; non-trivial: 2+ notes',
         strategy=lambda tier: tracks(), enumerate=enum_large, quick=4000, thorough=100000, cpu_limit=200))


# --- C27 ------------------------------------------------------------------------------------------

def run_bounds(case):
    t = make(case)
    random.seed(case['seed'])
    s = case['set']
    r = invoke(t, s, case['style'])
    mi, ma, me, va = s if s is not None else (0.5, 1.0, 0.75, 0.01)
    vs = [c[3] for c in contents(r)]
    for v in vs:
        require(mi <= v <= ma, 'velocity %r outside [%r, %r]', v, mi, ma)
    if va == 0:
        want = min(ma, max(mi, me))
        for v in vs:
            require(v == want, 'variance 0: velocity %r, the mean limited to the bounds is %r', v, want)
    # settings left out have their documented defaults
    for kw, want in ((dict(variance=0), 0.75), (dict(minimum=mi, maximum=ma, variance=0.0), min(ma, max(mi, 0.75))), (dict(mean=me, variance=0.0), min(1.0, max(0.5, me)))):
        for c in contents(randomize_velocities(t, **kw)):
            require(c[3] == want, '%s: velocity %r instead of %r', kw, c[3], want)
    again = invoke(t, s, case['style'])
    ws = vs + [c[3] for c in contents(again)]
    if va > 0 and len(ws) ** 2 * 1e-16 < 1e-9 * math.sqrt(va):
        # independent draws of a continuous distribution do not repeat (probability below 1e-9 per case)
        inside = [v for v in ws if mi < v < ma]
        require(len(set(inside)) == len(inside), 'two notes got the same velocity %r', next((v for v in inside if inside.count(v) > 1), None))
    labels = ['zero variance' if va == 0 else 'positive variance']
    if len(vs) >= 1:
        labels.append('nontrivial')
    if mi == ma:
        labels.append('equal bounds')
    return labels


BADS = ['below', 'above', 'nan', 'inf', '-inf', 'far']


def bad_value(kind, which):
    if which == 3:
        return {'below': -math.ulp(0.0), 'above': -1e-9, 'nan': math.nan, 'inf': -1.0, '-inf': -math.inf, 'far': -0.01}[kind]
    return {'below': -math.ulp(0.0), 'above': math.nextafter(1.0, 2.0), 'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, 'far': 2}[kind]


def run_invalid(case):
    t = make(dict(sig=[4, 2], items=case['items']))
    before = snapshot(t)
    s = list(case['set'])
    for which, kind in case['bad']:
        s[which] = bad_value(kind, which)
    expect_raises(ValueError, lambda: invoke(t, s, case['style']), f'settings {s}')
    require(snapshot(t) == before, 'a refused call changed the track')
    if len(case['bad']) == 1:
        kw = {['minimum', 'maximum', 'mean', 'variance'][case['bad'][0][0]]: s[case['bad'][0][0]]}
        expect_raises(ValueError, lambda: randomize_velocities(t, **kw), f'settings {kw}')
        expect_raises(ValueError, lambda: randomize_velocities(Track(), **kw), f'settings {kw} with an empty track')
    return ['nontrivial'] + [k for _, k in case['bad']]


def enum_invalid(tier):
    for which in range(4):
        for kind in BADS:
            for items in ([], [[[36, [1, 2], 0.5, 0], [0, 0]]]):
                for s in ([0.5, 1.0, 0.75, 0.01], [0.0, 1.0, 0.0, 0.0], [0, 1, 1, 1]):
                    for style in range(3):
                        yield dict(items=items, set=s, bad=[[which, kind]], style=style)


def stat_track(n, seed):
    """n distinct notes: chords of three, different durations, velocities and pitches."""
    t = Track()
    for i in range(n):
        t.add(Note((i * 7 + seed) % 60 if i % 3 == 0 else 60 + (i % 3) * 20 + (i + seed) % 19, Signature(1 + (i // 3) % 4, 8), ((i * 37 + seed) % 101) / 100.0), Signature(i // 3, 8))
    return t


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def unlikely(seen, p, n):
    """The observed frequency has a probability below e**-25 = 1.4e-11 (Chernoff bound for any binomial distribution)."""
    kl = 0.0
    for a, b in ((seen, p), (1 - seen, 1 - p)):
        if a > 0:
            if b <= 0:
                return True
            kl += a * math.log(a / b)
    return n * kl > 25


LIMIT = 6.5          # standard errors; a false alarm has probability below 1e-10 per comparison


def check_sample(vs, mi, ma, me, va, what, points=40):
    n = len(vs)
    sd = math.sqrt(va)
    # distribution function of the clamped normal at many points
    for k in range(1, points):
        x = mi + (ma - mi) * k / points
        p = phi((x - me) / sd)
        seen = sum(v <= x for v in vs) / n
        require(not unlikely(seen, p, n), '%s: a fraction %.4f of %d velocities is <= %.3f, expected %.4f', what, seen, n, x, p)
    low, high = sum(v == mi for v in vs) / n, sum(v == ma for v in vs) / n
    for seen, p, nm in ((low, phi((mi - me) / sd), 'minimum'), (high, phi((me - ma) / sd), 'maximum')):
        require(not unlikely(seen, p, n), '%s: a fraction %.4f of the velocities sits at the %s, expected %.4f', what, seen, nm, p)
    inner = phi((ma - me) / sd) - phi((mi - me) / sd)
    if inner > 0.999999:
        m = sum(vs) / n
        require(abs(m - me) <= LIMIT * sd / math.sqrt(n), '%s: mean %.5f, expected %.5f', what, m, me)
        var = sum((v - me) ** 2 for v in vs) / n
        x = max(var / va, 1e-9)
        require(n / 2 * (x - 1 - math.log(x)) <= 25, '%s: variance %.6f, expected %.6f', what, var, va)
    distinct = len({v for v in vs if mi < v < ma})
    require(distinct > 0.99 * (n * (1 - low - high)) - 1, '%s: only %d different velocities among %d', what, distinct, n)


KINDS = [('pitch', [-13, -1, 0, 36, 36, 37, 60, 127, 128, 240]), ('duration', [[0, 0], [1, 2], [2, 3], [3, 4], [9, 1], [1, 70]]), ('velocity', [0.0, 1.0, 0.5, 0.75, 1e-300, 0.2]),
         ('position', [[0, 0], [1, 2], [2, 3], [1, 30], [70, 0]])]


def kinds_track(n, seed):
    """n notes of a few kinds each, mixed at random: special values, repetitions, chords, back-to-back notes."""
    rng = random.Random(seed)
    t = Track()
    at = [0, 0]
    for i in range(n):
        pitch, dur, vel, step = (rng.choice(k[1]) for k in KINDS)
        how = rng.randrange(4)
        t.add(Note(pitch, sig_form(dur, 0), vel), None if how == 0 and i % 9 == 0 else sig_form([i * 4 + step[0], step[1]] if how == 1 else at, 0))
        if how == 2:
            at = [rng.randrange(n), 4]
    return t


FEATURES = [
    ('a negative pitch', lambda p, q, pp, pq: q[0] < 0), ('a pitch above 127', lambda p, q, pp, pq: q[0] > 127), ('a natural tone', lambda p, q, pp, pq: q[0] % 12 in (0, 2, 4, 5, 7, 9, 11)),
    ('no length', lambda p, q, pp, pq: q[1] == 0), ('a long duration', lambda p, q, pp, pq: q[1] > 4), ('a duration of 1/4', lambda p, q, pp, pq: q[1] * 4 == 1),
    ('velocity 0', lambda p, q, pp, pq: q[2] == 0), ('velocity 1', lambda p, q, pp, pq: q[2] == 1), ('velocity 0.75', lambda p, q, pp, pq: q[2] == 0.75),
    ('the position of the note before', lambda p, q, pp, pq: p == pp), ('a position after the note before', lambda p, q, pp, pq: p > pp),
    ('the pitch of the note before', lambda p, q, pp, pq: q[0] == pq[0]), ('the duration of the note before', lambda p, q, pp, pq: q[1] == pq[1]),
    ('the velocity of the note before', lambda p, q, pp, pq: q[2] == pq[2]), ('a higher pitch than the note before', lambda p, q, pp, pq: q[0] > pq[0]),
    ('a lower velocity than the note before', lambda p, q, pp, pq: q[2] < pq[2]), ('an overlap with the note before', lambda p, q, pp, pq: pp + pq[1] > p),
    ('position 0', lambda p, q, pp, pq: p == 0), ('a far position', lambda p, q, pp, pq: p > 100), ('a whole position', lambda p, q, pp, pq: p.denominator == 1),
    ('an odd position', lambda p, q, pp, pq: p.numerator % 2 == 1),
]


def run_kinds(case):
    s = case['set']
    mi, ma, me, va = s if s is not None else (0.5, 1.0, 0.75, 0.01)
    t = kinds_track(case['n'], case['seed'])
    random.seed(case['seed'])
    c0, c1 = contents(t), contents(invoke(t, s, case['style']))
    require([x[:3] for x in c0] == [x[:3] for x in c1], 'the notes changed')
    groups = {}
    for i in range(1, len(c0)):
        p, q, pp, pq = c0[i][0], c0[i][1:], c0[i - 1][0], c0[i - 1][1:]
        have = [k for k, (_, f) in enumerate(FEATURES) if f(p, q, pp, pq)]
        for a in range(len(have)):
            for b in range(a, len(have)):
                groups.setdefault((have[a], have[b]), []).append(c1[i][3])
    for (a, b), vs in groups.items():
        if len(vs) >= 100:
            check_sample(vs, mi, ma, me, va, f'settings {[mi, ma, me, va]}, notes with {FEATURES[a][0]} and {FEATURES[b][0]}', 8)
    return ['nontrivial']


def enum_kinds(tier):
    for i, s in enumerate([None, [0.0, 1.0, 0.5, 0.01], [0.3, 0.7, 0.5, 0.04]]):
        yield dict(n=4000 if tier == 'quick' else 20000, seed=77 + i, set=s, style=i)


def corr(a, b):
    n = len(a)
    ma, mb = sum(a) / n, sum(b) / n
    sa = sum((x - ma) ** 2 for x in a)
    sb = sum((x - mb) ** 2 for x in b)
    if sa == 0 or sb == 0:
        return 0.0
    return sum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def run_distribution(case):
    s = case['set']
    mi, ma, me, va = s if s is not None else (0.5, 1.0, 0.75, 0.01)
    n = case['n']
    t = stat_track(n, case['seed'] % 1000)
    random.seed(case['seed'])
    r1, r2 = invoke(t, s, case['style']), invoke(t, s, case['style'])
    c0, c1, c2 = contents(t), contents(r1), contents(r2)
    require([x[:3] for x in c0] == [x[:3] for x in c1] == [x[:3] for x in c2], 'the notes changed')
    a, b = [x[3] for x in c1], [x[3] for x in c2]
    check_sample(a, mi, ma, me, va, f'settings {[mi, ma, me, va]}')
    check_sample(b, mi, ma, me, va, f'settings {[mi, ma, me, va]}, second call')
    half = n // 2
    check_sample(a[:half], mi, ma, me, va, f'settings {[mi, ma, me, va]}, first half of the track')
    check_sample(a[half:], mi, ma, me, va, f'settings {[mi, ma, me, va]}, second half of the track')
    sd = math.sqrt(va)
    if phi((ma - me) / sd) - phi((mi - me) / sd) < 0.2:
        return ['nontrivial', 'mostly at the bounds']           # correlations of rare values are not normally distributed
    lim = LIMIT / math.sqrt(n / 2)
    for lag in (1, 2, 3, 4, 5, 6, 8, 12, 16, 32, 64, 100, 128):
        require(abs(corr(a[:-lag], a[lag:])) <= lim, 'velocities of notes %d apart are correlated', lag)
    require(abs(corr(a, b)) <= lim, 'two calls give correlated velocities')
    for name, cov in (('original velocity', [x[3] for x in c0]), ('pitch', [float(x[1]) for x in c0]), ('duration', [float(x[2]) for x in c0]),
                      ('position', [float(x[0]) for x in c0]), ('place in the chord', [float(i % 3) for i in range(n)])):
        require(abs(corr(a, cov)) <= lim, 'velocities are correlated with the %s', name)
        require(abs(corr([(v - me) ** 2 for v in a], cov)) <= lim * 1.5, 'the spread of velocities depends on the %s', name)
    return ['nontrivial', 'defaults' if s is None else 'explicit']


def enum_distribution(tier):
    n = 6000 if tier == 'quick' else 40000
    sets = [None, [0.0, 1.0, 0.5, 0.01], [0.0, 1.0, 0.5, 0.0025], [0.0, 1.0, 0.25, 0.001], [0.0, 1.0, 0.8, 0.0009], [0.0, 1.0, 0.5, 1.0], [0.2, 0.6, 0.5, 0.04],
            [0.0, 1.0, 1.0, 0.01], [0.0, 1.0, 0.0, 0.09], [0.4, 0.9, 0.3, 0.01], [0, 1, 0.5, 4.0], [0.5, 1.0, 0.75, 0.0001], [0.0, 0.5, 0.7, 0.02]]
    for i, s in enumerate(sets):
        for rep in range(2 if tier == 'quick' else 6):
            yield dict(n=n, seed=1000 + 17 * i + rep, set=s, style=rep)


@st.composite
def distribution_cases(draw, n=4000):
    mi = draw(st.floats(0.0, 0.6))
    ma = draw(st.floats(min(1.0, mi + 0.2), 1.0))
    return dict(n=n, seed=draw(st.integers(0, 2 ** 31)), set=[mi, ma, draw(st.floats(0.0, 1.0)), draw(st.floats(1e-4, 0.5))], style=draw(st.integers(0, 2)))


prop('C27',
     Sub('bounds', run_bounds, 'random tracks and settings with minimum <= maximum, exact clamping for zero variance; non-trivial: 1+ notes', strategy=lambda tier: tracks(),
         quick=4000, thorough=100000),
     Sub('refusals', run_invalid, 'settings with one or more invalid values; all non-trivial', enumerate=enum_invalid,
         strategy=lambda tier: st.fixed_dictionaries(dict(
             items=st.lists(st.tuples(short_notes, st.none()).map(list), max_size=2), set=settings_strategy().filter(lambda s: s is not None),
             bad=st.lists(st.tuples(st.integers(0, 3), st.sampled_from(BADS)).map(list), min_size=1, max_size=3), style=st.integers(0, 2))), quick=800, thorough=10000),
     Sub('distribution', run_distribution, 'samples of thousands of notes against the clamped normal distribution (values, mean, variance, correlations); all non-trivial',
         enumerate=enum_distribution, strategy=lambda tier: distribution_cases(), quick=24, thorough=600, cpu_limit=300),
     Sub('kinds of notes', run_kinds, 'thousands of notes of special kinds; the distribution must be the same for the notes with each pair of 21 features; all non-trivial',
         enumerate=enum_kinds, strategy=lambda tier: distribution_cases(3000), quick=8, thorough=300, cpu_limit=300),
     assumptions=['minimum <= maximum', 'statistical comparisons allow 6.5 standard errors; draws are seeded through the random module'])
