"""C33: refused calls."""
import io

from hypothesis import strategies as st

from .. import gen
from ..lib import (Note, Signature, Sub, Tone, Track, contents, expect_raises, fields, frac, midi, mk_note, note_key, note_val, prop, require, sig_form, snapshot, val)
from .track import maybe_pos, positions, short_notes

BAD_TIMES = {
    'int': 3, 'float': 0.5, 'zero denominator': (1, 0), 'denominator three': (1, 3), 'negative denominator': (1, -4), 'negative': (-1, 4), 'three numbers': (1, 2, 4),
    'one number': (1,), 'no number': (), 'text': 'C4', 'texts': ('1', '4'), 'nothing inside': (None, 4), 'object': object(), 'set': {1, 3, 5}, 'tone': Tone(3), 'note': Note(3),
}
BAD_NOTES = {
    'int': 60, 'float': 1.5, 'tone': Tone(60), 'text': 'C4', 'letter': 'C', 'empty text': None, 'signature': Signature(1, 4), 'none': None, 'object': object(), 'bytes': b'\x01\x02',
    'ints': [60, 64], 'texts': ['C4', 'E4'], 'pair': (Note(1), (0, 4)), 'numbers': range(3), 'nested text': [['C4']],
}
BAD_CALLS = {
    'Track signature': lambda x: Track(x),
    'Track signature keyword': lambda x: Track(signature=x, content=[(Note(1), None)]),
    'Note duration': lambda x: Note(1, x),
    'with_duration': lambda x: Note(1).with_duration(x),
}
OTHERS = {
    'Tone(1.5)': lambda: Tone(1.5), "Tone('C4')": lambda: Tone('C4'), 'Tone(None)': lambda: Tone(None), 'from_notation(60)': lambda: Tone.from_notation(60),
    'from_notation(None)': lambda: Tone.from_notation(None), "from_notation('')": lambda: Tone.from_notation(''), 'transposed(0.5)': lambda: Tone(1).transposed(0.5),
    "transposed('1')": lambda: Tone(1).transposed('1'), 'note transposed(0.5)': lambda: Note(1).transposed(0.5), 'Note(1.5)': lambda: Note(1.5), 'Note(None)': lambda: Note(None),
    "Note('H')": lambda: Note('H'), 'Note([1])': lambda: Note([1]), 'velocity 1.5': lambda: Note(1, (1, 4), 1.5), 'velocity -0.1': lambda: Note(1, (1, 4), -0.1),
    'velocity nan': lambda: Note(1, (1, 4), float('nan')), 'velocity inf': lambda: Note(1).with_velocity(float('inf')), 'velocity text': lambda: Note(1, (1, 4), 'x'),
    'velocity None': lambda: Note(1).with_velocity(None), 'to(3)': lambda: Signature(1, 4).to(3), 'to(2)': lambda: Signature(1, 4).to(2), 'to(0)': lambda: Signature(1, 4).to(0),
    'to(-8)': lambda: Signature(1, 4).to(-8), "to('8')": lambda: Signature(1, 4).to('8'), 'Signature(-1, 4)': lambda: Signature(-1, 4), 'Signature(1, 3)': lambda: Signature(1, 3),
    'Signature(1, 0)': lambda: Signature(1, 0), 'Signature(1, -4)': lambda: Signature(1, -4), "Signature('1', 4)": lambda: Signature('1', 4), 'Signature(1, None)': lambda: Signature(1, None),
    'writer middle c 1.5': lambda: midi.MIDIWriter(middle_c=1.5), 'writer middle c None': lambda: midi.MIDIWriter(middle_c=None), "writer middle c 'H2'": lambda: midi.MIDIWriter(middle_c='H2'),
    'writer middle c note': lambda: midi.MIDIWriter(middle_c=Note(36)), 'reader middle c 1.5': lambda: midi.MIDIReader(middle_c=1.5), 'reader middle c None': lambda: midi.MIDIReader(middle_c=None),
    "reader middle c 'c3'": lambda: midi.MIDIReader(middle_c='c3'), 'reader middle c note': lambda: midi.MIDIReader(middle_c=Note(36)), 'resolution 0': lambda: midi.MIDIWriter(0),
    'resolution 32768': lambda: midi.MIDIWriter(32768), 'resolution text': lambda: midi.MIDIWriter('96'), 'channel -1': lambda: midi.MIDIWriter(channel=-1),
    'channel 16': lambda: midi.MIDIWriter(channel=16), 'channel text': lambda: midi.MIDIWriter(channel='1'), 'dumps channel 16': lambda: midi.dumps(Track(), channel=16),
    'content note only': lambda: Track(content=[Note(1)]), 'content int': lambda: Track(content=[(60, None)]), 'content bad position': lambda: Track(content=[(Note(1), 4)]),
    'content int itself': lambda: Track(content=5), 'content swapped': lambda: Track(content=[(Signature(0, 1), Note(1))]),
}
REFUSED = (TypeError, ValueError)


class Stop(Exception):
    pass


def broken(notes, at, how):
    """An iterable that goes wrong in the middle."""
    for i, n in enumerate(notes):
        if i == at:
            if how == 'raises':
                raise Stop('given up')
            yield BAD_NOTES[how]
        yield n
    if at >= len(notes):
        if how == 'raises':
            raise Stop('given up')
        yield BAD_NOTES[how]


def run_refusals(case):
    s = case['sig']
    t = Track(signature=sig_form(s, 0))
    valid = []                                        # (specs, position) in order

    def fresh(extra=()):
        x = Track(signature=sig_form(s, 0))
        for specs, p in valid + list(extra):
            for spec in specs:
                x.add(mk_note(spec), None if p is None else sig_form(p, 0))
        return x

    refused = 0
    labels = set()
    for op in case['ops']:
        kind = op[0]
        if kind == 'add':
            t.add(mk_note(op[1]), None if op[2] is None else sig_form(op[2], 0))
            valid.append(([op[1]], op[2]))
            continue
        if kind == 'look':
            require(snapshot(t) == snapshot(fresh()), 'after %d refused calls the track differs from one without them', refused)
            continue
        if kind == 'bad position':
            x = BAD_TIMES[op[1]]
            n = mk_note(op[2])
            for what in (n, [n], (n, n)):
                expect_raises(REFUSED, lambda: t.add(what, x), f'add at {op[1]}')
        elif kind == 'bad note':
            expect_raises(REFUSED, lambda: t.add(BAD_NOTES[op[1]], None if op[2] is None else sig_form(op[2], 1)), f'add of {op[1]}') \
                if op[1] != 'pair' else None
        elif kind == 'broken':
            specs, at, how, p = op[1:]
            # whatever was added before the failure was reported may be there or not, but only that
            p = p if p is not None else [0, 0]
            try:
                t.add(broken([mk_note(x) for x in specs], at, how), sig_form(p, 0))
            except Stop:
                require(how == 'raises', 'another error appeared')
            except REFUSED:
                require(how != 'raises', 'the error of the iterable was replaced')
            else:
                require(False, 'adding %d notes and %s was accepted', len(specs), how)
            got = snapshot(t)
            if got == snapshot(fresh([(specs[:at], p)])):
                valid.append((specs[:at], p))
            else:
                require(got == snapshot(fresh()), 'after a failed addition the track has %s notes', len(t))
        elif kind == 'bad pair':
            pair = (op[1], op[2])
            for how, fn in (('Signature', lambda: Signature(*pair)), ('add', lambda: t.add(Note(0), pair)), ('Note', lambda: Note(0, pair)), ('Track', lambda: Track(pair)),
                            ('with_duration', lambda: Note(0).with_duration(pair))):
                expect_raises(REFUSED, fn, f'{how} given {pair}')
            if op[2] > 0 and op[2] & (op[2] - 1):
                expect_raises(REFUSED, lambda: Signature(1, 1).to(op[2]), f'to({op[2]})')
        elif kind == 'bad time':
            expect_raises(REFUSED, lambda: BAD_CALLS[op[2]](BAD_TIMES[op[1]]), f'{op[2]} given {op[1]}')
        else:
            expect_raises(REFUSED, OTHERS[op[1]], op[1])
        refused += 1
        labels.add(kind)
        require(len(t) == sum(len(x) for x, _ in valid), 'after %s the track reports %d notes', op, len(t))
    want = fresh()
    require(snapshot(t) == snapshot(want) and t == want and want == t, 'after %d refused calls the track differs from one without them', refused)
    t.add(Note(7, (1, 8), 0.5))
    want.add(Note(7, (1, 8), 0.5))
    require(snapshot(t) == snapshot(want), 'after refused calls a track grows differently')
    try:
        data = midi.dumps(want)
    except (ValueError, OverflowError, midi.MIDIError):
        pass
    else:
        require(midi.dumps(t) == data, 'after refused calls a track exports differently')
    # nothing that all objects share was changed
    require(note_key(Note(0)) == (0, val([1, 2]), 0.75) and fields(Track().signature) == (4, 4) and len(Track()) == 0, 'defaults changed')
    if refused and valid:
        labels.add('nontrivial')
    return sorted(labels)


def invalid_pair(t):
    n, d, k, how = t
    if how == 0:
        return ['bad pair', -1 - n, 1 << k]                    # negative
    if how == 1:
        return ['bad pair', n, -d]                             # no positive denominator
    if how == 2:
        return ['bad pair', n, (1 << k + 2) + (1 << d % (k + 2))]   # two bits
    return ['bad pair', n, d if d & (d - 1) else d + 5 if (d + 5) & (d + 4) else 0]


pairs = st.tuples(gen.ints(0, 2 ** 70), gen.ints(0, 2 ** 70), st.one_of(st.integers(0, 12), st.integers(0, 200)), st.integers(0, 3)).map(invalid_pair)


def ops(tier):
    notes = sorted(k for k in BAD_NOTES if k not in ('pair', 'empty text'))
    return gen.mix(
        st.tuples(st.just('add'), short_notes, maybe_pos), st.tuples(st.just('add'), short_notes, maybe_pos), st.just(['look']),
        st.tuples(st.just('bad position'), st.sampled_from(sorted(BAD_TIMES)), short_notes),
        st.tuples(st.just('bad note'), st.sampled_from(notes), maybe_pos), st.tuples(st.just('bad note'), st.sampled_from(notes), maybe_pos),
        st.tuples(st.just('broken'), st.lists(short_notes, max_size=3), st.integers(0, 3), st.sampled_from(['raises', 'int', 'none', 'tone', 'text']), positions),
        pairs, st.tuples(st.just('bad time'), st.sampled_from(sorted(BAD_TIMES)), st.sampled_from(sorted(BAD_CALLS))),
        st.tuples(st.just('other'), st.sampled_from(sorted(OTHERS)))).map(list)


def enum_refusals(tier):
    n = [40, [1, 2], 0.5, 0]
    good = ['add', [50, [3, 3], 0.25, 0], [1, 3]]
    for k in OTHERS:
        yield dict(sig=[4, 2], ops=[good, ['other', k]])
    for k in BAD_TIMES:
        for c in BAD_CALLS:
            yield dict(sig=[3, 2], ops=[good, ['bad time', k, c]])
        yield dict(sig=[3, 2], ops=[good, ['bad position', k, n], good])
        yield dict(sig=[3, 2], ops=[['bad position', k, n], good])
    for k in BAD_NOTES:
        if k in ('pair', 'empty text'):
            continue
        for p in (None, [0, 0], [1, 5], [9, 0]):
            yield dict(sig=[4, 2], ops=[good, ['bad note', k, p], good])
            yield dict(sig=[4, 2], ops=[['bad note', k, p], ['look'], good, ['bad note', k, p]])
    for how in ('raises', 'int', 'none', 'tone', 'text'):
        for at in range(4):
            yield dict(sig=[4, 2], ops=[good, ['broken', [n, n, [41, [9, 1], 1.0, 0]], at, how, [1, 6]], good])


prop('C33',
     Sub('refused calls', run_refusals, 'valid additions mixed with wrong arguments to every constructor and method, and iterables that fail in the middle, against a track built without the refused calls; '
         'non-trivial: at least one refusal and one note',
         strategy=lambda tier: st.fixed_dictionaries(dict(sig=st.one_of(st.just([4, 2]), gen.signatures()), ops=st.lists(ops(tier), min_size=1, max_size=10))),
         enumerate=enum_refusals, quick=3000, thorough=60000),
     assumptions=['when an iterable given to add fails in the middle, the notes before the failure may have been added or not'])
