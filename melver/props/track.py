"""C08, C09, C10, C11: tracks."""
import math
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..lib import (Note, Signature, Sub, Tone, Track, contents, expect_raises, fail, fields, frac, midi, mk_note, note_key,
                   note_val, prop, require, sig_form, snapshot, val)

# A track history is {"sig": [n, k], "content": [[note, pos|None], ...], "ops": [...]}, see drive().


class Model:
    def __init__(self):
        self.items = []           # (position, pitch, duration, velocity)
        self.length = Fraction(0)
        self.last = None          # position and duration of the last addition

    def add(self, specs, pos):
        p = self.length if pos is None else val(pos)
        for s in specs:
            k = note_val(s)
            self.items.append((p,) + k)
            self.last = p, k[1]
        for s in specs:
            self.length = max(self.length, p + note_val(s)[1])
        return p


def container(notes, kind):
    k = kind % 6
    if k == 0:
        return list(notes)
    if k == 1:
        return tuple(notes)
    if k == 2:
        return (n for n in notes)
    if k == 3:
        return iter(list(notes))
    if k == 4:
        return dict(enumerate(notes)).values()
    return map(lambda n: n, notes)


def bulk_specs(op):
    """['bulk', number, lowest pitch, step, k, order?]: many notes, in rising, falling or scrambled order of position."""
    _, n, base, step, denom_k = op[:5]
    order = op[5] if len(op) > 5 else 0
    for i in range(n):
        j = (i, n - 1 - i, (i * 7919 + 13) % n, (i * 7919 + 13) % (n // 3 + 1))[order % 4]
        dur = [n * step + 5, denom_k] if order >= 4 and i == (n * order) // 13 else [1 + i % 3, 3]
        yield [base + (i * 7) % 25, dur, ((i * 31) % 128) / 127.0], [j * step, denom_k]


def check_contents(track, model, when):
    got = contents(track)
    want = sorted(model.items)
    require(len(track) == len(want), '%s: len(track) == %r, %d notes were added', when, len(track), len(want))
    if got != want:
        gc, wc = Counter(got), Counter(want)
        require(not (wc - gc), '%s: lost %s', when, list((wc - gc).items())[:3])
        require(not (gc - wc), '%s: invented %s', when, list((gc - wc).items())[:3])
        for a, b in zip(got, got[1:]):
            require(a[0] <= b[0], '%s: positions out of order: %s before %s', when, a[0], b[0])
        fail(f'{when}: notes at one position out of order: {got[:6]}')


def check_length(track, model, when):
    require(frac(track.length) == model.length, '%s: length is %s, latest ending is %s', when, track.length, model.length)


def drive(case, what):
    """Runs a history; what: set of aspects checked at every observation ('contents', 'length')."""
    m = Model()
    content = case.get('content')
    if case.get('bulk content'):
        content = (content or []) + [[n, p] for n, p in bulk_specs(case['bulk content'])]
    s = case['sig']
    if content is None:
        t = Track(signature=sig_form(s, case.get('form', 0)))
    else:
        t = Track(sig_form(s, case.get('form', 0)),
                  container([(mk_note(n), None if p is None else sig_form(p, case.get('pform', i))) for i, (n, p) in enumerate(content)],
                            case.get('kind', 0)))
        for n, p in content:
            m.add([n], p)
    labels = set()
    observed = False

    def obs(when):
        if 'contents' in what:
            check_contents(t, m, when)
        if 'length' in what:
            check_length(t, m, when)

    denoms = set()
    for i, op in enumerate(case['ops']):
        kind = op[0]
        when = f'step {i} ({kind})'
        if kind == 'add':
            before = frac(t.length) if 'length' in what else None
            if before is not None:
                require(before == m.length, '%s: length was %s, latest ending is %s', when, before, m.length)
            if op[2] is None and op[3] % 2:
                t.add(mk_note(op[1]))
            elif op[3] % 3 == 0:
                t.add(what=mk_note(op[1]), where=None if op[2] is None else sig_form(op[2], op[3]))
            else:
                t.add(mk_note(op[1]), None if op[2] is None else sig_form(op[2], op[3]))
            m.add([op[1]], op[2])
            labels.add('append' if op[2] is None else 'explicit')
            if observed:
                labels.add('add after observation')
            if op[2] is not None:
                if denoms and op[2][1] > max(denoms):
                    labels.add('denominator grows')
                denoms.add(op[2][1])
        elif kind == 'many':
            notes = [mk_note(n) for n in op[1]]
            t.add(container(notes, op[3]), None if op[2] is None else sig_form(op[2], op[3]))
            m.add(op[1], op[2])
            labels.add('empty chord' if not op[1] else 'chord')
        elif kind == 'again':
            # the same note object twice or more often, alone or between others: all copies must be kept
            n = mk_note(op[1])
            times = op[4] if len(op) > 4 else 2
            specs = [op[1] if op[3] % 2 else [op[1][0] + i % 3 * (i % 2)] + op[1][1:] for i in range(times)]
            t.add(container([n if x is op[1] or x == op[1] else mk_note(x) for x in specs], op[3]), None if op[2] is None else sig_form(op[2], op[3]))
            m.add(specs, op[2])
            labels.add('duplicate')
        elif kind == 'near':
            # a position given by what is there already: at, finer written, just before or after the last note, its ending, the length or the first note
            last = m.last or (Fraction(0), Fraction(0))
            base = (last[0], last[0] + last[1], m.length, min((x[0] for x in m.items), default=Fraction(0)), last[0] / 2)[op[2] % 5]
            step = Fraction(1, 1 << op[3])
            pos = (base, base, base + step, base - step if base >= step else base)[op[4] % 4]
            k = pos.denominator.bit_length() - 1
            extra = op[3] if op[4] % 2 else 0
            where = [pos.numerator << extra, k + extra]
            t.add(mk_note(op[1]), sig_form(where, op[4] // 4))
            m.add([op[1]], where)
            labels.add('near')
        elif kind == 'bulk':
            for spec, pos in bulk_specs(op):
                t.add(mk_note(spec), sig_form(pos, 0))
                m.add([spec], pos)
            labels.add('bulk')
        elif kind == 'big chord':
            specs = [spec for spec, _ in bulk_specs(['bulk'] + op[1:])]
            t.add(container([mk_note(x) for x in specs], op[1]))
            m.add(specs, None)
            labels.add('bulk')
        elif kind == 'iter':
            obs(when)
            observed = True
        elif kind == 'partial':
            it = iter(t)
            for _ in range(op[1]):
                if next(it, None) is None:
                    break
            observed = True
        elif kind == 'two iterators':
            # one iterator abandoned in the middle of another, both started before either ends
            a, b = iter(t), iter(t)
            got_a = [x for _, x in zip(range(op[1]), a)]
            got_b = list(b)
            got_a += list(a)
            want = sorted(m.items)
            for got in (got_a, got_b):
                require([(frac(p),) + note_key(n) for p, n in got] == want or 'contents' not in what, '%s: interleaved iterations yield %s', when, got[:6])
            if len(m.items) <= 6 and 'contents' in what:
                require(sum(1 for _ in t for _ in t) == len(m.items) ** 2, '%s: nested iteration', when)
            observed = True
        elif kind == 'len':
            require(len(t) == len(m.items), '%s: len is %r, %d notes were added', when, len(t), len(m.items))
        elif kind == 'length':
            if 'length' in what:
                check_length(t, m, when)
            else:
                t.length
        elif kind == 'print':
            str(t), repr(t)
            observed = True
        elif kind == 'compare':
            require(t == t, '%s: track is not equal to itself', when)
            observed = True
        elif kind == 'export':
            try:
                midi.dumps(t)
            except (ValueError, OverflowError):
                pass
            observed = True
        elif kind == 'bad add':
            before = (len(t), frac(t.length))
            expect_raises((TypeError, ValueError), lambda: t.add(Note(0), {'int': 3, 'float': 0.5, 'zero': (1, 0), 'three': (1, 3),
                                                                          'neg': (-1, 4), 'long': (1, 2, 4)}[op[1]]),
                          f'{when}: position {op[1]}')
            require((len(t), frac(t.length)) == before, '%s: a refused addition changed the track', when)
            labels.add('refused addition')
    obs('at the end')
    obs('observed again')
    require(fields(t.signature) == (s[0], 1 << s[1]), 'signature changed to %s', t.signature)
    if len({k for k in denoms}) > 1:
        labels.add('mixed denominators')
    if len(m.items) > 100:
        labels.add('more than 100 notes')
    if len(m.items) >= 3 and ('mixed denominators' in labels or 'chord' in labels or 'append' in labels or 'bulk' in labels):
        labels.add('nontrivial')
    return labels


positions = gen.mix(gen.times(6, 8), gen.times(12, 64), gen.times(2, 2), gen.times(2, 2))
maybe_pos = gen.mix(st.none(), positions, positions)
short_notes = gen.notes(pitch=gen.mix(st.integers(0, 3), st.integers(-40, 120), st.integers(30, 60)), dur=st.one_of(gen.times(3, 2), gen.times(12, 8)))
wild_notes = gen.notes(pitch=gen.pitches, dur=st.one_of(gen.times(), gen.wild_times()))
wild_pos = st.one_of(positions, gen.wild_times())
few = gen.palettes(st.one_of(st.integers(-24, 130), gen.pitches), st.one_of(gen.times(12, 8), gen.times(3, 2), gen.wild_times()), st.one_of(positions, wild_pos))


mix_times = gen.mix(st.just(2), st.just(2), st.integers(3, 8), st.integers(9, 70))


def op_strategy(note, pos, tier):
    mp = gen.mix(st.none(), pos, pos)
    return gen.mix(
        st.tuples(st.just('add'), note, mp, st.integers(0, 5)),
        st.tuples(st.just('add'), note, pos, st.integers(0, 5)),
        st.tuples(st.just('add'), note, st.none(), st.integers(0, 5)),
        st.tuples(st.just('many'), st.lists(note, max_size=4), mp, st.integers(0, 5)),
        st.tuples(st.just('again'), note, mp, st.integers(0, 5), mix_times),
        st.tuples(st.just('near'), note, st.integers(0, 4), st.integers(0, 12), st.integers(0, 11)),
        st.tuples(st.just('near'), note, st.integers(0, 4), st.integers(0, 12), st.integers(0, 11)),
        st.sampled_from([['iter'], ['len'], ['length'], ['print'], ['compare'], ['export'], ['iter']]),
        st.tuples(st.sampled_from(['partial', 'two iterators']), st.integers(0, 3)),
        st.tuples(st.just('bad add'), st.sampled_from(['int', 'float', 'zero', 'three', 'neg', 'long'])),
    ).map(list)


def crowd(ops):
    """The same operations after (or around) some dozens of notes."""
    return st.tuples(st.integers(7, 70), st.integers(-20, 80), st.integers(0, 9), st.integers(0, 6), st.integers(0, 15), st.integers(0, 3)).map(
        lambda t: ops[:t[5]] + [['bulk', *t[:5]]] + ops[t[5]:])


def history_strategy(tier):
    def build(note, pos):
        return st.fixed_dictionaries(dict(
            sig=st.one_of(gen.times(5, 4), gen.signatures()),
            form=st.integers(0, 2), kind=st.integers(0, 5),
            content=st.one_of(st.none(), st.lists(st.tuples(note, st.one_of(st.none(), pos)).map(list), max_size=5)),
            ops=gen.mix(*[gen.seqs(op_strategy(note, pos, tier), 0, 14)] * 5, gen.seqs(op_strategy(note, pos, tier), 1, 14).flatmap(crowd))))

    return gen.mix(build(short_notes, positions), build(short_notes, positions), build(wild_notes, wild_pos),
                     few.flatmap(lambda pal: build(gen.palette_notes(pal), st.sampled_from(pal[3]))), few.flatmap(lambda pal: build(gen.palette_notes(pal), st.sampled_from(pal[3]))))


def big_strategy(tier):
    """Histories with many notes: sizes around constants of the code, interleaved with observations."""
    hi = 1500 if tier == 'quick' else 12000
    def bulk(what):
        return st.tuples(st.just(what), gen.sizes(hi), st.integers(-20, 80), gen.ints(0, 300), st.integers(0, 9), st.integers(0, 15)).map(list)

    ops = st.lists(st.one_of(bulk('bulk'), bulk('big chord'), op_strategy(short_notes, positions, tier)), min_size=1, max_size=6)
    added = st.tuples(bulk('bulk'), ops, st.integers(0, 3)).map(lambda t: dict(sig=[4, 2], form=0, content=None, ops=t[1][:t[2]] + [t[0]] + t[1][t[2]:]))
    given = st.tuples(bulk('bulk'), ops, st.integers(0, 2), st.integers(0, 5)).map(
        lambda t: {'sig': [4, 2], 'form': 0, 'content': None, 'bulk content': t[0], 'pform': t[2], 'kind': t[3], 'ops': t[1]})
    return st.one_of(added, given)


def enum_big(tier):
    """Tracks with thousands of notes, in several orders, looked at in the middle."""
    for n in (2100, 5000, 12000) if tier == 'quick' else (2100, 3000, 5000, 8500, 12000, 20000, 33333, 70000):
        for order in (0, 1, 2, 3, 6, 7) if n < 4000 or tier != 'quick' else (2, 7):
            for given in (0, 1):
                ops = [['iter'], ['len'], ['add', [50, [3, 2], 0.5, 0], [n, 3], 0], ['again', [7, [1, 3], 0.25, 0], None, 0, 20], ['near', [60, [1, 1], 1.0, 0], 3, 2, 3], ['iter']]
                bulk = ['bulk', n, 10, 5, 4, order]
                yield {'sig': [4, 2], 'form': 0, 'content': None, 'ops': ops, 'bulk content': bulk} if given else dict(sig=[4, 2], form=0, content=None, ops=[ops[2], bulk] + ops)
                if order in (0, 7):
                    yield dict(sig=[4, 2], form=0, content=None, ops=[['big chord', n, 3, 1, 2, order], ['iter'], ['add', [0, [1, 2], 0.5, 0], None, 0]])


HIST_RULE = ('histories of additions and observations against a list model; non-trivial: 3+ notes with mixed denominators, '
             'chords, implicit positions or bulk additions')


def enum_small_histories(tier):
    """All orders of a few colliding additions, with an observation after each possible prefix."""
    import itertools
    notes = [[0, [1, 1], 0.5], [0, [1, 2], 0.5], [0, [1, 1], 0.25], [2, [3, 3], 1.0]]
    pos = [None, [0, 0], [1, 1], [3, 2], [5, 3]]
    length = 3 if tier == 'quick' else 4
    for combo in itertools.product(range(len(pos)), repeat=length):
        for ns in itertools.product(range(len(notes)), repeat=length) if tier != 'quick' else [
                (0, 1, 2), (1, 0, 3), (2, 2, 2), (3, 1, 0)]:
            for mask in range(1 << (length - 1)):
                ops = []
                for i, c in enumerate(combo):
                    ops.append(['add', notes[ns[i]] + [0], pos[c], 1])
                    if mask >> i & 1:
                        ops.append(['iter'])
                yield dict(sig=[4, 2], form=0, content=None, ops=ops)


prop('C08',
     Sub('histories', lambda c: drive(c, {'contents'}), HIST_RULE, strategy=history_strategy, enumerate=enum_small_histories,
         quick=6000, thorough=150000),
     Sub('many notes', lambda c: drive(c, {'contents'}), HIST_RULE, strategy=big_strategy, enumerate=enum_big, quick=320, thorough=3000, cpu_limit=120),
     assumptions=['a track is not modified while it is being iterated'])


prop('C09',
     Sub('histories', lambda c: drive(c, {'length', 'contents'}), HIST_RULE, strategy=history_strategy, enumerate=enum_small_histories,
         quick=6000, thorough=150000),
     Sub('length only', lambda c: drive(c, {'length'}), HIST_RULE + ' (contents are never iterated by the check)',
         strategy=history_strategy, quick=4000, thorough=80000),
     Sub('many notes', lambda c: drive(c, {'length'}), HIST_RULE, strategy=big_strategy, enumerate=enum_big, quick=240, thorough=3000, cpu_limit=120),
     assumptions=['a track is not modified while it is being iterated'])


# --- C10 ------------------------------------------------------------------------------------------

def build_track(sigv, items, how=0):
    t = Track(signature=sig_form(sigv, how))
    if how % 2:
        t = Track(signature=sig_form(sigv, how), content=[(mk_note(n), sig_form(p, how)) for n, p in items])
    else:
        for n, p in items:
            t.add(mk_note(n), sig_form(p, how))
    return t


def rewrite(x, dk):
    return [x[0] << dk, x[1] + dk]


def apply_change(items, sigv, ch):
    items = [[list(n), list(p)] for n, p in items]
    sigv = list(sigv)
    kind = ch[0]
    if kind == 'none' or (not items and kind not in ('extra', 'signature', 'same signature', 'append')):
        return items, sigv
    i = ch[1] % len(items) if items else 0
    if kind == 'rotate':
        items = items[i:] + items[:i]
    elif kind == 'reverse':
        items = items[::-1]
    elif kind == 'rewrite position':
        items[i][1] = rewrite(items[i][1], ch[2])
    elif kind == 'rewrite duration':
        items[i][0][1] = rewrite(items[i][0][1], ch[2])
    elif kind == 'drop':
        del items[i]
    elif kind == 'drop last':
        items.sort(key=lambda x: (val(x[1]),) + note_val(x[0]))
        del items[-1]
    elif kind == 'double':
        items.append(items[i])
    elif kind == 'replace by double':
        items[i] = items[(i + 1) % len(items)]
    elif kind == 'swap positions':
        j = ch[2] % len(items)
        items[i][1], items[j][1] = items[j][1], items[i][1]
    elif kind == 'copy note':
        items[i][0] = list(items[ch[2] % len(items)][0])
    elif kind == 'copy position':
        items[i][1] = list(items[ch[2] % len(items)][1])
    elif kind == 'all new':
        return [[list(n), list(p)] for n, p in ch[2]], sigv
    elif kind == 'extra':
        items.append([ch[2], ch[3]])
    elif kind == 'append':
        end = max((val(p) + note_val(n)[1] for n, p in items), default=Fraction(0))
        items.append([ch[2], [end.numerator, end.denominator.bit_length() - 1]])
    elif kind == 'move':
        items[i][1] = [items[i][1][0] * 2 + 1, items[i][1][1] + 1]
    elif kind == 'lengthen':
        items[i][0][1] = [items[i][0][1][0] * 2 + 1, items[i][0][1][1] + 1]
    elif kind == 'nudge position':
        items[i][1] = [(items[i][1][0] << ch[2]) + 1, items[i][1][1] + ch[2]]
    elif kind == 'nudge duration':
        items[i][0][1] = [(items[i][0][1][0] << ch[2]) + 1, items[i][0][1][1] + ch[2]]
    elif kind == 'nudge velocity':
        v = items[i][0][2]
        items[i][0][2] = math.nextafter(v, 0.0 if v > 0.5 else 1.0) if ch[2] % 2 else v + (-1 if v > 0.5 else 1) * 10.0 ** -(ch[2] % 17)
        if not 0 <= items[i][0][2] <= 1:
            items[i][0][2] = v
    elif kind == 'transpose':
        items[i][0][0] += 1 if ch[2] % 2 else -1
    elif kind == 'velocity':
        items[i][0][2] = 1.0 - items[i][0][2] if items[i][0][2] != 0.5 else 0.25
    elif kind == 'signature':
        sigv = [sigv[0] + 1, sigv[1]]
    elif kind == 'same signature':
        sigv = rewrite(sigv, 1)
    return items, sigv


CHANGES = gen.mix(
    st.tuples(st.sampled_from(['none', 'rotate', 'reverse', 'drop', 'drop last', 'double', 'replace by double', 'move', 'lengthen', 'velocity',
                               'signature', 'same signature']), st.integers(0, 20)),
    st.tuples(st.sampled_from(['rewrite position', 'rewrite duration']), st.integers(0, 20), st.integers(1, 6)),
    st.tuples(st.sampled_from(['swap positions', 'transpose', 'copy note', 'copy position']), st.integers(0, 20), st.integers(0, 20)),
    st.tuples(st.just('extra'), st.just(0), short_notes, positions),
    st.tuples(st.just('append'), st.just(0), short_notes),
    st.tuples(st.sampled_from(['nudge position', 'nudge duration', 'nudge velocity']), st.integers(0, 20), st.one_of(st.integers(1, 16), st.integers(1, 70))),
).map(list)


def key_of(items, sigv):
    return val(sigv), Counter((val(p),) + note_val(n) for n, p in items)


def run_equal(case):
    a_items, a_sig = case['items'], case['sig']
    b_items, b_sig = a_items, a_sig
    for ch in case['changes']:
        b_items, b_sig = apply_change(b_items, b_sig, ch)
    a, b = build_track(a_sig, a_items, case['how'][0]), build_track(b_sig, b_items, case['how'][1])
    if case['observe'] & 1:
        list(a)
    if case['observe'] & 2:
        list(b)
    if case['observe'] & 4:
        # grow a after it has been looked at, together with the model
        for t, items in ((a, a_items), (b, b_items)):
            t.add(Note(1, (1, 2), 0.5), (7, 64))
    want = key_of(a_items, a_sig) == key_of(b_items, b_sig)
    for x, y, nm in ((a, b, 'a == b'), (b, a, 'b == a')):
        eq, ne = x == y, x != y
        require(eq is want, '%s is %r but contents and signature are %s', nm, eq, 'equal' if want else 'different')
        require(ne is (not want), '!= is %r although == should be %r', ne, want)
    require(a == a and b == b, 'a track is not equal to itself')
    labels = ['equal' if want else 'different']
    if case['changes'] and a_items:
        labels.append('nontrivial')
        labels += [c[0] for c in case['changes']]
    return labels


@st.composite
def unrelated(draw):
    """Two tracks made of the same few values, with the same number of notes."""
    pal = draw(few)
    n = draw(st.integers(1, 3))
    a, b = (draw(st.lists(gen.palette_items(pal), min_size=n, max_size=n)) for _ in range(2))
    return dict(items=a, sig=[4, 2], changes=[['all new', 0, b]], how=[draw(st.integers(0, 2)), draw(st.integers(0, 2))], observe=draw(st.integers(0, 7)))


def equal_strategy(tier):
    return gen.mix(changed_strategy(tier), changed_strategy(tier), unrelated())


def changed_strategy(tier):
    item = st.tuples(short_notes, positions).map(list)
    dense = st.tuples(gen.notes(pitch=st.integers(0, 1), dur=gen.times(1, 1), vel=st.sampled_from([0.25, 0.75])), gen.times(1, 2)).map(list)
    return st.fixed_dictionaries(dict(
        items=st.one_of(st.lists(item, max_size=6), st.lists(dense, max_size=6), few.flatmap(lambda pal: gen.seqs(gen.palette_items(pal), 1, 7))), sig=gen.times(4, 3),
        changes=st.one_of(st.lists(CHANGES, min_size=1, max_size=1), st.lists(CHANGES, max_size=4)),
        how=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), observe=st.integers(0, 7)))


def run_big_equal(case):
    n, where, change, seed = case
    items = [[[(i * 7 + seed) % 60, [1 + i % 5, 3], ((i * 13) % 128) / 127.0], [(i * 5) % (2 * n + 1), i % 7]] for i in range(n)]
    ch = [change, where, 1]
    b_items, b_sig = apply_change(items, [4, 2], ch)
    a, b = build_track([4, 2], items, seed), build_track(b_sig, list(reversed(b_items)), seed // 2)
    want = key_of(items, [4, 2]) == key_of(b_items, b_sig)
    require((a == b) is want and (b == a) is want, '%d notes, %s at %d: == is %r, expected %r', n, change, where, a == b, want)
    return ['nontrivial', change]


def enum_big_equal(tier):
    for n in (1500, 4000) if tier == 'quick' else (1500, 2500, 4000, 9000, 20000, 70000):
        for change in ('none', 'reverse', 'drop', 'drop last', 'double', 'replace by double', 'move', 'lengthen', 'velocity', 'transpose', 'nudge position', 'nudge duration', 'nudge velocity', 'swap positions'):
            yield [n, n * 2 // 3, change, 3]


def history_items(n, variant):
    return [[[(i * 7) % 40 + (variant if i == n // 2 else 0), [1 + i % 3, 2], (1 + i % 127) / 127.0], [i if n else 0, 2]] for i in range(n)]


def run_compare_history(case):
    """Tracks come and go and grow while they are compared: only the present contents count."""
    slots = [None] * 3
    model = [None] * 3
    sizes = case['n']
    for k in range(3):
        slots[k], model[k] = build_track([4, 2], history_items(sizes, 0)), (0, history_items(sizes, 0))
    compared = 0
    for kind, i, j, x in case['ops']:
        if kind == 'new':
            model[i] = (x % 3, history_items(sizes, x % 3))
            slots[i] = None                     # gone before the new one is made
            slots[i] = build_track([4, 2], model[i][1], x)
        elif kind == 'add':
            item = [[x % 3, [1, 2], 0.5], [x % 2, 2]]
            slots[i].add(mk_note(item[0]), sig_form(item[1], x))
            model[i] = (0, model[i][1] + [item])
        elif kind == 'look':
            list(slots[i])
        compared += 1
        want = key_of(model[i][1], [4, 2]) == key_of(model[j][1], [4, 2])
        require((slots[i] == slots[j]) is want and (slots[j] != slots[i]) is (not want), 'after %s: == is %r, contents are %s', kind, slots[i] == slots[j], 'equal' if want else 'different')
        if x % 2:
            # with a track that exists only for the comparison
            want = key_of(model[i][1], [4, 2]) == key_of(history_items(sizes, x % 3), [4, 2])
            require((slots[i] == build_track([4, 2], history_items(sizes, x % 3))) is want, 'compared with a passing track: == should be %r', want)
    return ['nontrivial'] if compared > 2 and sizes else []


def compare_histories(tier):
    op = st.tuples(st.sampled_from(['new', 'new', 'add', 'look', 'again']), st.integers(0, 2), st.integers(0, 2), st.integers(0, 11)).map(list)
    return st.fixed_dictionaries(dict(n=st.sampled_from([0, 1, 2, 5, 6, 9, 20, 70]), ops=gen.seqs(op, 1, 14)))


prop('C10',
     Sub('histories of comparisons', run_compare_history, 'tracks that are replaced by others of the same size, grow and are looked at between comparisons; non-trivial: 3+ comparisons of non-empty tracks',
         strategy=compare_histories, quick=1500, thorough=30000),
     Sub('one change', run_equal, 'a track and a changed copy (re-ordered, re-written, one note dropped/added/moved/changed); non-trivial: non-empty and changed',
         strategy=equal_strategy, quick=12000, thorough=200000),
     Sub('large tracks', run_big_equal, 'large tracks differing in one place; all non-trivial',
         strategy=lambda tier: st.tuples(gen.sizes(900 if tier == 'quick' else 6000), st.integers(0, 10000),
                                         st.sampled_from(['none', 'drop', 'drop last', 'double', 'replace by double', 'move', 'lengthen', 'velocity', 'transpose', 'reverse', 'nudge position', 'nudge duration', 'nudge velocity', 'swap positions', 'copy note']),
                                         st.integers(0, 50)).map(list), enumerate=enum_big_equal,
         quick=320, thorough=4000, cpu_limit=120))


# --- C11 ------------------------------------------------------------------------------------------

SCOPE = dict(Tone=Tone, Signature=Signature, Note=Note, Track=Track)


def ev(x):
    r = repr(x)
    require(isinstance(r, str), 'repr is not a string')
    try:
        y = eval(r, dict(SCOPE))                 # noqa: S307 - text produced by the library under test
    except Exception as e:                       # noqa: BLE001
        fail(f'repr {r[:300]!r} does not evaluate: {type(e).__name__}: {e}')
    require(type(y) is type(x), 'repr %r evaluates to a %s', r[:200], type(y).__name__)
    return y


def run_repr_values(case):
    spec, s = case
    t = Tone(spec[0])
    require(ev(t).pitch == spec[0] and ev(t) == t, 'tone: %r', repr(t))
    x = Signature(s[0], 1 << s[1])
    require(fields(ev(x)) == (s[0], 1 << s[1]), 'signature: %r', repr(x))
    n = mk_note(spec)
    m = ev(n)
    require(note_key(m) == note_val(spec), 'note: %r', repr(n))
    require(m == n, 'note: %r is not equal after evaluation', repr(n))
    require(note_key(n) == note_val(spec), 'printing changed the note')
    return ['nontrivial'] if spec[2] not in (0.0, 0.5, 0.75, 1.0) else []


def run_repr_track(case):
    t = Track(signature=sig_form(case['sig'], 0))
    for n, p in case['items'] + [[n, p] for n, p in bulk_specs(case['bulk'])] if case.get('bulk') else case['items']:
        t.add(mk_note(n), None if p is None else sig_form(p, 0))
    before = snapshot(t)
    u = ev(t)
    require(snapshot(u) == before, 'track differs after eval(repr()): %r', repr(t)[:300])
    require(u == t and t == u, 'track is not equal after eval(repr()): %r', repr(t)[:300])
    require(snapshot(t) == before, 'printing changed the track')
    if case['more'] is not None:
        t.add(mk_note(case['more']))
        u.add(mk_note(case['more']))
        w = ev(t)
        require(w == t and w == u and len(w) == len(t), 'track differs after adding a note: %r', repr(t)[:300])
    return ['nontrivial'] if len(case['items']) > 1 else []


prop('C11',
     Sub('values', run_repr_values, 'tones, signatures, notes; non-trivial: velocity that is not a round number',
         strategy=lambda tier: st.tuples(wild_notes, gen.wild_times()).map(list), quick=4000, thorough=80000),
     Sub('tracks', run_repr_track, 'tracks, printed, evaluated, extended and printed again; non-trivial: two or more notes',
         strategy=lambda tier: st.fixed_dictionaries(dict(
             sig=gen.signatures(), items=st.one_of(st.lists(st.tuples(st.one_of(short_notes, wild_notes), maybe_pos).map(list), max_size=8), few.flatmap(lambda pal: gen.seqs(gen.palette_items(pal), 1, 10))),
             more=st.one_of(st.none(), short_notes))), quick=2500, thorough=50000),
     Sub('large tracks', run_repr_track, 'long tracks, sizes around constants of the code; all non-trivial',
         strategy=lambda tier: st.fixed_dictionaries(dict(
             sig=gen.signatures(), items=st.lists(st.tuples(short_notes, maybe_pos).map(list), min_size=2, max_size=4), more=st.one_of(st.none(), short_notes),
             bulk=st.tuples(st.just('bulk'), gen.sizes(300 if tier == 'quick' else 2000), st.integers(-20, 80), gen.ints(0, 300), st.integers(0, 9), st.integers(0, 15)).map(list))),
         enumerate=lambda tier: (dict(sig=[4, 2], items=[[[1, [1, 2], 0.5, 0], [0, 0]], [[2, [1, 2], 0.5, 0], None]], more=[3, [1, 2], 0.5, 0], bulk=['bulk', n, 10, 3, 4, n % 16])
                                 for n in ((1010, 2100, 5003) if tier == 'quick' else (1010, 2100, 4500, 5003, 10007, 20001, 70000))),
         quick=200, thorough=2000, cpu_limit=120),
     assumptions=['velocities are Python ints or floats'])
