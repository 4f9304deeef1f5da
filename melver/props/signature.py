"""C04, C05: signatures."""
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..lib import Signature, Sub, expect_raises, fields, frac, prop, require, sig, val
from .tone import OPS


def pair_strategy(tier):
    def related(t):
        # same or neighbouring value written with another denominator
        (n, k), dk, dn = t
        return [[n, k], [max(0, (n << dk) + dn), k + dk]]

    rel = st.tuples(gen.wild_times(), st.integers(0, 12), st.sampled_from([0, 0, 1, -1])).map(related)
    far = st.tuples(st.one_of(gen.times(), gen.wild_times()), st.one_of(st.integers(13, 70), st.integers(13, 220)),
                    st.one_of(st.sampled_from([0, 0, 1, -1]), st.integers(-20, 20), st.integers(0, 66).map(lambda e: 1 << e), st.integers(0, 66).map(lambda e: -(1 << e)))).map(related)
    rel = st.one_of(rel, far)
    both = st.one_of(rel, rel.map(lambda p: [p[1], p[0]]))
    return st.one_of(both, st.tuples(gen.times(), gen.times()).map(list),
                     st.tuples(gen.wild_times(), gen.wild_times()).map(list))


def run_compare(case):
    a, b = case
    x, y = sig(a), sig(b)
    u, v = val(a), val(b)
    for s, t, p, q in ((x, y, u, v), (y, x, v, u)):
        for name, op in OPS:
            got = op(s, t)
            require(got is op(p, q), '%s %s %s is %r', s, name, t, got)
    require(fields(x) == (a[0], 1 << a[1]) and fields(y) == (b[0], 1 << b[1]), 'comparison changed an operand')
    labels = []
    if a[1] != b[1]:
        labels.append('nontrivial')
        labels.append('left denominator smaller' if a[1] < b[1] else 'right denominator smaller')
    labels.append('equal value' if u == v else 'different value')
    return labels


def enum_compare(tier):
    n, k = (9, 4) if tier == 'quick' else (20, 6)
    sigs = [[i, j] for j in range(k) for i in range(n)]
    for a in sigs:
        for b in sigs:
            yield [a, b]


def run_sort(case):
    xs = [sig(c) for c in case]
    vals = [val(c) for c in case]
    got = [frac(s) for s in sorted(xs)]
    require(got == sorted(vals), 'sorted(%s) gives %s', [str(x) for x in xs], [str(x) for x in got])
    if xs:
        require(frac(max(xs)) == max(vals) and frac(min(xs)) == min(vals), 'max/min wrong for %s', [str(x) for x in xs])
    return ['nontrivial'] if len({c[1] for c in case}) > 1 and len(case) > 2 else []


prop('C04',
     Sub('pairs', run_compare, 'pairs of signatures, half re-written or one-off versions of each other; non-trivial: different denominators',
         strategy=pair_strategy, enumerate=enum_compare, quick=8000, thorough=200000),
     Sub('sorting', run_sort, 'lists of signatures; non-trivial: three or more with mixed denominators',
         strategy=lambda tier: st.lists(st.one_of(gen.times(), gen.times(3, 2), gen.wild_times()), max_size=12), quick=3000, thorough=60000),
     assumptions=['denominators up to 2**2420'])


def run_arith(case):
    a, b = case
    x, y = sig(a), sig(b)
    u, v = val(a), val(b)
    r = x + y
    require(frac(r) == u + v, '%s + %s == %s', x, y, r)
    require(frac(y + x) == u + v, '%s + %s == %s', y, x, y + x)
    r = x * y
    require(frac(r) == u * v, '%s * %s == %s', x, y, r)
    require(frac(y * x) == u * v, '%s * %s == %s', y, x, y * x)
    require(frac(abs(x)) == u, 'abs(%s) == %s', x, abs(x))
    # augmented assignment gives a new value to the name and leaves the object alone
    p = q = x
    p += y
    q *= y
    require(frac(p) == u + v and frac(q) == u * v, '%s += or *= %s gave %s, %s', x, y, p, q)
    total = sum([x, y, x], Signature(0, 1))
    require(frac(total) == 2 * u + v, 'sum of %s, %s, %s is %s', x, y, x, total)
    require(fields(x) == (a[0], 1 << a[1]) and fields(y) == (b[0], 1 << b[1]), 'augmented assignment changed the object')
    n = x.normalized()
    require(frac(n) == u, '%s.normalized() == %s', x, n)
    require(fields(n) == (u.numerator, u.denominator), '%s.normalized() == %s is not in lowest terms', x, n)
    require(fields(x) == (a[0], 1 << a[1]) and fields(y) == (b[0], 1 << b[1]), 'arithmetic changed an operand')
    require(str(x) == f'{a[0]}/{1 << a[1]}', 'str is %r', str(x))
    return (['nontrivial'] if a[1] != b[1] and a[0] and b[0] else []) + (['big'] if max(a[0], b[0]) > 1 << 53 else [])


def enum_arith(tier):
    n, k = (9, 4) if tier == 'quick' else (20, 6)
    sigs = [[i, j] for j in range(k) for i in range(n)]
    for a in sigs:
        for b in sigs:
            yield [a, b]


def run_to(case):
    (n, k), d = case
    x = sig([n, k])
    pow2 = d > 0 and d & (d - 1) == 0
    if pow2 and d >= x.denominator:
        r = x.to(d)
        require(frac(r) == Fraction(n, 1 << k), '%s.to(%d) == %s', x, d, r)
        require(r.denominator == d, '%s.to(%d) has denominator %d', x, d, r.denominator)
        lab = ['nontrivial', 'rescaled'] if d > x.denominator else ['same denominator']
    else:
        expect_raises(ValueError, lambda: x.to(d), f'{x}.to({d})')
        lab = ['nontrivial', 'refused: not a power of two' if not pow2 else 'refused: smaller']
    require(fields(x) == (n, 1 << k), 'to() changed the signature')
    return lab


def to_strategy(tier):
    d = st.one_of(st.integers(0, 70).map(lambda k: 1 << k), gen.ints(-100, 10 ** 6), gen.ints(-2 ** 70, 2 ** 70))
    rel = st.tuples(gen.wild_times(), st.integers(-3, 40)).map(lambda t: [t[0], 1 << max(0, t[0][1] + t[1])])
    return st.one_of(rel, st.tuples(gen.wild_times(), d).map(list))


def run_ctor(case):
    n, d = case
    ok = n >= 0 and d > 0 and bin(d).count('1') == 1
    if ok:
        require(fields(Signature(n, d)) == (n, d), 'Signature(%d, %d) has fields %r', n, d, fields(Signature(n, d)))
        return ['accepted']
    expect_raises(ValueError, lambda: Signature(n, d), f'Signature({n}, {d})')
    return ['nontrivial', 'refused']


def ctor_strategy(tier):
    n = st.one_of(st.integers(-3, 20), gen.ints(-10 ** 6, 10 ** 6), gen.ints(-2 ** 70, 2 ** 70))
    d = st.one_of(st.integers(-8, 40), st.integers(0, 80).map(lambda k: 1 << k),
                  st.tuples(st.integers(1, 80), st.sampled_from([-1, 1])).map(lambda t: (1 << t[0]) + t[1]),
                  st.tuples(st.integers(0, 60), st.integers(0, 60)).map(lambda t: (1 << t[0]) | (1 << t[1])),
                  st.integers(0, 70).map(lambda k: -(1 << k)), gen.ints(-2 ** 70, 2 ** 70))
    return st.tuples(n, d).map(list)


def enum_ctor(tier):
    r = 70 if tier == 'quick' else 400
    for n in range(-4, 5):
        for d in range(-r, r * 4):
            yield [n, d]


def run_chain(case):
    start, ops = case
    x, v = sig(start), val(start)
    trail = []
    for op, arg in ops:
        if op == 'add':
            y, w = x + sig(arg), v + val(arg)
        elif op == 'radd':
            y, w = sig(arg) + x, v + val(arg)
        elif op == 'mul':
            y, w = x * sig(arg), v * val(arg)
        elif op == 'norm':
            y, w = x.normalized(), v
        elif op == 'to':
            y, w = x.to(x.denominator << arg[1]), v
        elif op == 'double':
            y, w = x + x, 2 * v
        else:
            y, w = abs(x), v
        require(frac(y) == w, 'chain step %s on %s gave %s, expected value %s', op, x, y, w)
        trail.append((x, fields(x)))
        x, v = y, w
    for s, f in trail:
        require(fields(s) == f, 'a later operation changed %s/%s to %s', f[0], f[1], s)
    total = sum((s for s, _ in trail), Signature(0, 1)) if trail else None
    if total is not None:
        require(frac(total) == sum((frac(s) for s, _ in trail), Fraction(0)), 'sum() of a chain is wrong')
    return ['nontrivial'] if len(ops) > 2 else []


def chain_strategy(tier):
    op = st.tuples(st.sampled_from(['add', 'radd', 'mul', 'norm', 'to', 'double', 'abs']),
                   st.tuples(st.integers(0, 40), st.integers(0, 8)).map(list)).map(list)
    return st.tuples(gen.times(), st.lists(op, max_size=10)).map(list)


prop('C05',
     Sub('arithmetic', run_arith, 'pairs against exact fractions; non-trivial: non-zero with different denominators',
         strategy=pair_strategy, enumerate=enum_arith, quick=5000, thorough=150000),
     Sub('rescale', run_to, 'signature and requested denominator; non-trivial: real rescaling or refusal',
         strategy=to_strategy, quick=4000, thorough=80000),
     Sub('construction', run_ctor, 'integer pairs; non-trivial: invalid pairs', strategy=ctor_strategy, enumerate=enum_ctor,
         quick=4000, thorough=80000),
     Sub('chains', run_chain, 'chains of operations against exact fractions, operands re-checked at the end; non-trivial: 3+ steps',
         strategy=chain_strategy, quick=2500, thorough=60000),
     assumptions=['integer arguments'])
