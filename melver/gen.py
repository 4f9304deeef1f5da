"""Hypothesis strategies. Every case is plain JSON data (ints, floats, strings, lists, None)."""
import math

from hypothesis import strategies as st

from . import dictionary


def ints(lo: int, hi: int):
    """Integers in [lo, hi]: uniform, small, and values near constants of the code / powers of two."""
    pool = dictionary.ints_between(lo, hi)
    parts = [st.integers(lo, hi)]
    slo, shi = max(lo, -16), min(hi, 16)
    if slo <= shi and hi - lo > 40:
        parts.append(st.integers(slo, shi))
    if pool:
        parts.append(st.sampled_from(pool))
    return st.one_of(*parts)


def mix(*alternatives):
    """One of the alternatives with equal probability; repeat one to give it weight (st.one_of drops repetitions and flattens nesting)."""
    return st.integers(0, len(alternatives) - 1).flatmap(alternatives.__getitem__)


def small(lo, hi):
    return st.integers(lo, hi)


# pitches of any magnitude
pitches = mix(st.integers(-30, 140), ints(-1000, 1000), ints(-10 ** 6, 10 ** 6), ints(-2 ** 70, 2 ** 70))


def times(max_k: int = 12, max_whole: int = 64):
    """[n, k] = n / 2**k, mostly musical values, sometimes extreme."""
    k = st.one_of(st.integers(0, min(5, max_k)), st.integers(0, max_k))

    def with_k(kk):
        return st.one_of(
            st.integers(0, 3 << min(kk, 4)),
            ints(0, max_whole << kk),
        ).map(lambda n: [n, kk])

    return k.flatmap(with_k)


def wild_times():
    """Any valid signature value: nominators and denominators of any magnitude."""
    huge = st.one_of(st.sampled_from([1023, 1024, 1025, 1074, 1075]), st.integers(201, 2200))  # beyond what a float can hold
    k = mix(st.integers(0, 8), st.integers(0, 8), st.integers(0, 40), st.integers(0, 40), st.sampled_from([52, 53, 54, 63, 64, 65, 100, 200]), huge)
    n = mix(st.integers(0, 20), st.integers(0, 20), ints(0, 10 ** 5), ints(0, 2 ** 80), st.integers(0, 2 ** 210),
            st.tuples(st.integers(1, 40), huge, st.integers(-1, 2)).map(lambda t: max(0, (t[0] << t[1]) + t[2])))
    return st.tuples(n, k).map(list)


def velocities(lo: float = 0.0):
    pool = [f for f in dictionary.FLOATS if lo <= f <= 1.0]
    near = set(pool)
    for f in pool:
        for g in (math.nextafter(f, 2.0), math.nextafter(f, -1.0)):
            if lo <= g <= 1.0:
                near.add(g)
    near |= {lo, 1.0, math.nextafter(1.0, 0.0)}
    return st.one_of(
        st.integers(1 if lo > 0 else 0, 127).map(lambda k: k / 127.0).filter(lambda v: v >= lo),
        st.floats(lo, 1.0, allow_nan=False),
        st.sampled_from(sorted(near)),
        st.integers(0, 100).map(lambda k: max(lo, k / 100.0)),
    )


forms = st.integers(0, 11)


def notes(pitch=None, dur=None, vel=None):
    return st.tuples(pitch if pitch is not None else st.integers(-24, 96),
                     dur if dur is not None else times(),
                     vel if vel is not None else velocities(),
                     forms).map(list)


def special_velocities(lo: float = 0.0):
    return mix(velocities(lo), st.sampled_from([v for v in (0.0, 0.0, 1.0, 1.0, 0.75, 1 / 127, 0.01, 126.5 / 127) if v >= lo]))


def palettes(pitch, dur, pos, vel=None, far=True):
    """A few values of each component; cases made from them combine special values far more often than independent draws do."""
    vel = special_velocities() if vel is None else vel
    zero = st.just([0, 0])
    large = st.tuples(st.integers(1, 400), st.integers(0, 9)).map(lambda t: [t[0] + (17 << t[1]), t[1]]) if far else dur
    return st.tuples(*(st.lists(x, min_size=1, max_size=3) for x in (pitch, mix(dur, dur, dur, dur, zero, large), vel, mix(pos, pos, pos, pos, zero, large if far else pos))))


def palette_notes(pal):
    return st.tuples(st.sampled_from(pal[0]), st.sampled_from(pal[1]), st.sampled_from(pal[2]), forms).map(list)


def palette_items(pal, pos=None):
    """[note, position] from a palette."""
    return st.tuples(palette_notes(pal), st.sampled_from(pal[3]) if pos is None else pos).map(list)


def signatures():
    """Track time signatures representable in MIDI."""
    return st.one_of(st.sampled_from([[4, 2], [3, 2], [6, 3], [7, 3], [2, 1], [0, 0], [17, 4]]),
                     st.tuples(ints(0, 255), st.one_of(st.integers(0, 6), st.integers(0, 60))).map(list))


def sizes(hi: int):
    """Collection sizes around constants of the code (for thresholds)."""
    pool = dictionary.ints_between(1, hi, source_only=True) or [1]
    return st.one_of(st.sampled_from(pool), st.integers(1, hi))


def seqs(elements, lo: int, hi: int):
    """Lists whose length is uniform in [lo, hi] (the library's own lists are mostly short)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elements, min_size=n, max_size=n))
