"""C01, C02, C03: tones."""
import math
import re

from hypothesis import strategies as st

from .. import dictionary, gen
from ..lib import (Note, Sub, Tone, chord, expect_raises, fail, midi, notation, pitch_of, prop, require)

NATURAL = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
GRAMMAR = re.compile(r'([A-G])([#b]*)(-?[0-9]+)?')


# --- C01 ------------------------------------------------------------------------------------------

def run_roundtrip(p):
    t = Tone(p)
    up, down, default = t.to_notation(transpose_down=False), t.to_notation(transpose_down=True), t.to_notation()
    require(default == up, 'default spelling %r is not the sharp spelling %r', default, up)
    require(up == notation(p), 'Tone(%d).to_notation() == %r, expected %r', p, up, notation(p))
    require(down == notation(p, flat=True), 'Tone(%d).to_notation(transpose_down=True) == %r, expected %r', p, down,
            notation(p, flat=True))
    require(str(t) == up, 'str(Tone(%d)) == %r, expected %r', p, str(t), up)
    for s in (up, down):
        back = Tone.from_notation(s)
        require(pitch_of(back) == p, 'Tone(%d) -> %r -> pitch %r', p, s, back.pitch)
        require(back == t, 'Tone(%d) != Tone.from_notation(%r)', p, s)
    require(t.pitch == p, 'formatting changed the tone')
    labels = ['nontrivial'] if not 0 <= p < 30 else []
    labels.append('black key' if up != down else 'white key')
    if p < 0:
        labels.append('negative')
    if abs(p) > 10 ** 6:
        labels.append('huge')
    return labels


def enum_pitches(tier):
    r = 2500 if tier == 'quick' else 60000
    yield from range(-r, r + 1)


prop('C01',
     Sub('round-trip', run_roundtrip, 'pitch -> both spellings -> parse; non-trivial: pitch outside the 0..29 the tests sample',
         strategy=lambda tier: gen.pitches, enumerate=enum_pitches, quick=4000, thorough=100000),
     assumptions=['pitches up to 2**70 in magnitude'])


# --- C02 ------------------------------------------------------------------------------------------

def run_grammar(case):
    letter, acc, octave = case
    s = letter + acc + (octave if octave is not None else '')
    expected = 12 * (int(octave) if octave is not None else 0) + NATURAL[letter] + acc.count('#') - acc.count('b')
    t = Tone.from_notation(s)
    require(pitch_of(t) == expected, 'from_notation(%r).pitch == %d, expected %d', s, t.pitch, expected)
    require(Note(s).tone.pitch == expected, 'Note(%r) has pitch %d, expected %d', s, Note(s).tone.pitch, expected)
    labels = []
    if len(acc) != 1 or (octave or '').startswith('-') or len(octave or '') > 1:
        labels.append('nontrivial')
    labels.append('accidentals: %s' % ('0' if not acc else '1' if len(acc) == 1 else '2+'))
    labels.append('octave: ' + ('none' if octave is None else 'negative' if octave[0] == '-' else 'given'))
    if len(acc) < 3 and -3 < int(octave or 0) < 8:
        require(chord.major(s)[0].tone.pitch == expected, 'chord.major(%r) starts at another tone', s)
        w = midi.MIDIWriter(middle_c=s)
        from ..lib import Track
        data = w.dumps(Track(content=[(Note(expected), (0, 1))]))
        back = midi.MIDIReader(middle_c=s).loads(data)
        require([pitch_of(n.tone) for _, n in back] == [expected], 'middle_c=%r is not pitch %d for reader/writer', s,
                expected)
        require(b'\x90\x3c' in data, 'middle_c=%r: middle C is not written as 60', s)
        labels.append('as middle C')
    return labels


accidentals = st.one_of(st.text('#b', max_size=3), st.text('#b', max_size=40),
                        st.tuples(st.sampled_from('#b'), gen.sizes(400)).map(lambda t: t[0] * t[1]))
octaves = st.one_of(st.none(), st.integers(-10, 12).map(str), gen.ints(-10 ** 6, 10 ** 6).map(str),
                    gen.ints(-2 ** 70, 2 ** 70).map(str),
                    st.tuples(st.sampled_from(['', '-']), st.text('0123456789', min_size=1, max_size=8)).map(''.join))


def grammar_strategy(tier):
    return st.tuples(st.sampled_from('ABCDEFG'), accidentals, octaves).map(list)


def enum_grammar(tier):
    import itertools
    for letter in 'ABCDEFG':
        for n in range(0, 5 if tier == 'quick' else 8):
            for acc in itertools.product('#b', repeat=n):
                for o in [None, '0', '1', '4', '9', '10', '12', '-1', '-2', '-10', '00', '007', '-0']:
                    yield [letter, ''.join(acc), o]


def run_refused(s):
    if GRAMMAR.fullmatch(s) is not None:
        return ['in the grammar']
    if any(ch.isdigit() and not '0' <= ch <= '9' for ch in s):
        return ['non-ASCII digits: not judged']
    expect_raises(ValueError, lambda: Tone.from_notation(s), f'Tone.from_notation({s!r})')
    expect_raises(ValueError, lambda: Note(s), f'Note({s!r})')
    expect_raises(ValueError, lambda: chord.min7(s), f'chord.min7({s!r})')
    expect_raises(ValueError, lambda: midi.MIDIWriter(middle_c=s), f'MIDIWriter(middle_c={s!r})')
    expect_raises(ValueError, lambda: midi.MIDIReader(middle_c=s), f'MIDIReader(middle_c={s!r})')
    labels = ['nontrivial']
    if GRAMMAR.match(s):
        labels.append('valid prefix')
    if GRAMMAR.search(s) and not GRAMMAR.match(s):
        labels.append('valid notation inside')
    return labels


DECOR = [lambda s: ' ' + s, lambda s: s + ' ', lambda s: s + '\n', lambda s: '\t' + s, lambda s: s + '\r\n', lambda s: s.lower(), lambda s: s + '#', lambda s: '#' + s,
         lambda s: s + '-', lambda s: s + '.0', lambda s: s + s, lambda s: s + ' ' + s, lambda s: s.swapcase(), lambda s: s + '\0', lambda s: '\ufeff' + s, lambda s: s + '\u200b',
         lambda s: s[0] + ' ' + s[1:], lambda s: s.replace('-', '--'), lambda s: s.replace('-', '+'), lambda s: s.replace('#', '+'), lambda s: s.replace('#', '♯'), lambda s: s + '_0']
PARSERS = [lambda s: Tone.from_notation(s).pitch, lambda s: Note(s).tone.pitch, lambda s: chord.major(s)[0].tone.pitch,
           lambda s: midi.MIDIReader(middle_c=s).loads(MIDDLE).__iter__().__next__()[1].tone.pitch]
MIDDLE = bytes.fromhex('4d546864 00000006 0000 0001 0060 4d54726b 0000000c 00903c40 60803c40 00ff2f00')


def run_mixture(case):
    """A history of parsing related good and bad texts: each is judged by the grammar alone."""
    labels, seen = set(), set()
    for letter, acc, octave, d, how in case:
        s = letter + acc + ('' if octave is None else str(octave))
        if d is not None:
            s = DECOR[d % len(DECOR)](s)
        m = GRAMMAR.fullmatch(s)
        parse = PARSERS[how % len(PARSERS)]
        if m is None:
            expect_raises(ValueError, lambda: parse(s), f'{s!r} after {sorted(seen)[:8]}')
            labels.add('refused')
        else:
            letter2, acc2, oct2 = s[0], ''.join(c for c in s[1:] if c in '#b'), s[1:].lstrip('#b')
            want = 12 * (int(oct2) if oct2 else 0) + NATURAL[letter2] + acc2.count('#') - acc2.count('b')
            got = parse(s)
            require(got == want, '%r parses to %r, expected %d (after %s)', s, got, want, sorted(seen)[:8])
            labels.add('again' if s in seen else 'accepted')
        seen.add(s)
    if {'refused', 'accepted'} <= labels:
        labels.add('nontrivial')
    return labels


def mixture_strategy(tier):
    # few different texts, so that a history meets the same ones again, plain and spoiled
    item = st.tuples(st.sampled_from('CFB'), st.sampled_from(['', '#', 'b', '#b']), st.sampled_from([None, 0, 4, -1]),
                     st.one_of(st.none(), st.integers(0, len(DECOR) - 1)), st.integers(0, 3)).map(list)
    return gen.seqs(item, 2, 24)


def enum_mixture(tier):
    for letter in 'ABCDEFG':
        for acc in ('', '#', 'b', '##'):
            for octave in (None, 0, 3, 10, -1):
                for how in range(4):
                    case = [[letter, acc, octave, None, how]]
                    for d in range(len(DECOR)):
                        case += [[letter, acc, octave, d, how], [letter, acc, octave, None, (how + d) % 4], [letter, acc, octave, d, how + 1]]
                    yield case


def refused_strategy(tier):
    valid = st.tuples(st.sampled_from('ABCDEFG'), st.text('#b', max_size=3),
                      st.one_of(st.just(''), st.integers(-3, 12).map(str))).map(''.join)
    junk = st.text('ABCDEFGHabcdefgh#b-+0123456789 \t\n._/xs♯♭', min_size=1, max_size=3)
    return st.one_of(
        st.tuples(valid, junk).map(lambda t: t[0] + t[1]),
        st.tuples(junk, valid).map(lambda t: t[0] + t[1]),
        st.tuples(valid, st.integers(0, 4), junk).map(lambda t: t[0][:t[1]] + t[2] + t[0][t[1]:]),
        valid.map(str.lower),
        st.tuples(st.sampled_from('ABCDEFG'), st.sampled_from(['-', '--1', '+1', '1.0', '1e1', '1_0', ' 1', '1 ', '#-', '4#', '4b', 'is4', 'es', 'x4', '♯4', '♭', '4\n', '\n', '4-', '- 1'])).map(''.join),
        st.text(max_size=6),
        st.sampled_from(dictionary.STRS or ['x']),
        st.just(''),
    )


prop('C02',
     Sub('grammar', run_grammar, 'strings of the grammar; non-trivial: other than exactly one accidental and a one-digit octave',
         strategy=grammar_strategy, enumerate=enum_grammar, quick=4000, thorough=80000),
     Sub('refused', run_refused, 'near-miss strings, most with a valid notation inside; non-trivial: outside the grammar',
         strategy=refused_strategy, quick=6000, thorough=150000),
     Sub('histories', run_mixture, 'sequences of related good and spoiled texts through all entry points; non-trivial: some accepted and some refused',
         strategy=mixture_strategy, enumerate=enum_mixture, quick=2000, thorough=40000),
     assumptions=['strings containing non-ASCII digits are not judged'])


# --- C03 ------------------------------------------------------------------------------------------

OPS = [('==', lambda a, b: a == b), ('!=', lambda a, b: a != b), ('<', lambda a, b: a < b),
       ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)]


def run_order(case):
    p, q = case
    a, b = Tone(p), Tone(q)
    for x, y, u, v in ((a, b, p, q), (b, a, q, p)):
        for name, op in OPS:
            require(op(x, y) is op(u, v), 'Tone(%d) %s Tone(%d) is %r', u, name, v, op(x, y))
    require(a.octave == p // 12 and isinstance(a.octave, int), 'Tone(%d).octave == %r', p, a.octave)
    return (['nontrivial'] if abs(p - q) > 0 else []) + ['equal' if p == q else 'adjacent' if abs(p - q) == 1 else 'apart']


def order_strategy(tier):
    near = st.tuples(gen.pitches, st.integers(-13, 13)).map(lambda t: [t[0], t[0] + t[1]])
    return st.one_of(near, st.tuples(gen.pitches, gen.pitches).map(list))


def run_transpose(case):
    p, ts = case
    t = Tone(p)
    total, cur = p, t
    seen = []
    for d in ts:
        nxt = cur.transposed(d)
        total += d
        require(pitch_of(nxt) == total, 'transposing %d by %d gave %d, expected %d', cur.pitch, d, nxt.pitch, total)
        require(pitch_of(nxt.transposed(-d)) == total - d, 'transposing back by %d does not undo', d)
        seen.append((cur, total - d))
        cur = nxt
    for x, want in seen:
        require(x.pitch == want, 'transposition changed the original tone to %d', x.pitch)
    require(pitch_of(t.transposed(sum(ts))) == total, 'transpositions do not compose')
    n = Note(p, (3, 8), 0.3)
    require(n.transposed(sum(ts)).tone == cur and n.tone.pitch == p, 'note transposition differs from tone transposition')
    return ['nontrivial'] if len(ts) > 1 else []


def transpose_strategy(tier):
    return st.tuples(gen.pitches, st.lists(st.one_of(st.integers(-24, 24), gen.ints(-10 ** 6, 10 ** 6)), max_size=6)).map(list)


def run_frequency(case):
    p, q, base = case
    a, b = Tone(p), Tone(q)
    fa, fb = a.to_frequency(base), b.to_frequency(base)
    require(isinstance(fa, float), 'frequency is %r', fa)
    want = math.exp2((p - 57) / 12)
    if base <= 0:
        # proportional for every base; only the order of frequencies is another one
        require(math.isclose(fa, base * want, rel_tol=1e-9), 'Tone(%d).to_frequency(%r) == %r, expected about %r', p, base, fa, base * want)
        require(fa == -a.to_frequency(-base), 'Tone(%d).to_frequency(%r) == %r', p, base, fa)
        require(math.isclose(a.to_frequency(base=440), 440.0 * want, rel_tol=1e-9), 'default base is not 440 for %d', p)
        return ['nontrivial', 'base not positive']
    require(math.isclose(fa / base, want, rel_tol=1e-9), 'Tone(%d).to_frequency(%r) == %r, expected about %r', p, base,
            fa, base * want)
    require((p < q) == (fa < fb) and (p > q) == (fa > fb), 'frequencies of %d and %d are ordered %r, %r', p, q, fa, fb)
    require(math.isclose(a.transposed(12).to_frequency(base), 2 * fa, rel_tol=1e-9), 'an octave does not double %d', p)
    require(math.isclose(a.to_frequency(), 440.0 * want, rel_tol=1e-9), 'default base is not 440 for %d', p)
    require(math.isclose(a.to_frequency(2 * base), 2 * fa, rel_tol=1e-9), 'frequency is not proportional to the base')
    if (p - 57) % 12 == 0:
        require(fa == base * 2.0 ** ((p - 57) // 12), 'A in octave %d is %r, expected exactly %r', p // 12, fa,
                base * 2.0 ** ((p - 57) // 12))
    return (['nontrivial'] if (p - 57) % 12 else ['an A']) + (['base given'] if base != 440.0 else [])


def frequency_strategy(tier):
    p = st.one_of(st.integers(-60, 140), gen.ints(-3000, 3000))
    q = st.one_of(p, st.none())
    base = gen.mix(st.sampled_from([440.0, 432.0, 442.0, 415.0, 1.0, 440, 1, 27.5, 0.5]), st.floats(1e-3, 1e6, allow_nan=False), st.floats(1e-3, 1e6, allow_nan=False), st.floats(1e-30, 1e30, allow_nan=False),
                   st.integers(1, 20000), st.sampled_from([0, 0.0, -1.0, -440.0]))

    def fix(t):
        a, b, c = t
        return [a, a + 1 if b is None else b, c]

    return st.tuples(p, q, base).map(fix)


def enum_frequency(tier):
    for p in range(-700, 701):
        yield [p, p + 1, 440.0]
        yield [p, p - 12, 432.0]


def run_bad_pitch(x):
    kind, v = x
    bad = {'float': float(v), 'str': str(v), 'none': None, 'list': [v], 'bytes': b'C4'}[kind]
    expect_raises((ValueError, TypeError), lambda: Tone(bad), f'Tone({bad!r})')
    return ['nontrivial']


prop('C03',
     Sub('order', run_order, 'pairs of pitches, half of them within an octave; non-trivial: pitches differ',
         strategy=order_strategy, quick=4000, thorough=80000),
     Sub('transpose', run_transpose, 'chains of transpositions; non-trivial: two or more steps',
         strategy=transpose_strategy, quick=3000, thorough=60000),
     Sub('frequency', run_frequency, 'pitch pairs and base; non-trivial: not an A',
         strategy=frequency_strategy, enumerate=enum_frequency, quick=4000, thorough=80000),
     Sub('bad pitch', run_bad_pitch, 'non-integer pitches are refused; all non-trivial',
         strategy=lambda tier: st.tuples(st.sampled_from(['float', 'str', 'none', 'list', 'bytes']), st.integers(-20, 200)).map(list),
         quick=200, thorough=2000),
     assumptions=['frequencies compared with relative tolerance 1e-9 and pitches within +-3000'])
