"""Building blocks shared by all checks: violations, registry, typed access to the code under test.

Only the public API of melodia is used, never a private name.
"""
import math
import os
from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any, Callable, Dict, Iterable, List, Optional

REPO = '/repo'


class Violation(AssertionError):
    """The property under check does not hold for the current case."""


def fail(msg: str):
    raise Violation(msg)


def require(cond: bool, msg, *args) -> None:
    if not cond:
        raise Violation(msg % args if args else msg)


@dataclass
class Sub:
    """One executable form of a property.

    strategy(tier) -> hypothesis strategy of plain JSON cases
    run(case)      -> iterable of labels; the label 'nontrivial' marks a non-trivial case;
                      raises Violation when the property fails for the case
    enumerate(tier)-> iterator of cases generated systematically (bounded-exhaustive part)
    """
    name: str
    run: Callable[[Any], Iterable[str]]
    rule: str
    strategy: Optional[Callable[[str], Any]] = None
    enumerate: Optional[Callable[[str], Iterable[Any]]] = None
    quick: int = 1000
    thorough: int = 20000
    cpu_limit: float = 60.0
    dedupe_nontrivial: bool = True


@dataclass
class Prop:
    id: str
    subs: List[Sub] = field(default_factory=list)
    assumptions: List[str] = field(default_factory=list)
    known: Dict[str, str] = field(default_factory=dict)   # key -> description of a recorded finding
    fuzz: Optional[Callable] = None                        # extra coverage-guided stage (thorough tier)


REGISTRY: Dict[str, Prop] = {}


def prop(id: str, *subs: Sub, assumptions=(), fuzz=None) -> Prop:
    p = Prop(id, list(subs), list(assumptions), fuzz=fuzz)
    assert id not in REGISTRY
    REGISTRY[id] = p
    return p


# --- known findings -------------------------------------------------------------------------------

def known_findings() -> Dict[str, str]:
    """key -> line, for the entries of the form `finding: property=<id> key=<key> <text>`."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding:'):
                    parts = line.split()
                    kv = dict(x.split('=', 1) for x in parts[1:3])
                    out[kv['key']] = (kv['property'], ' '.join(parts[3:]))
    return out


KNOWN = known_findings()
KNOWN_SEEN: Dict[str, int] = {}


def known(key: str) -> bool:
    """True (and counted) if the finding is listed in the committed file."""
    if key in KNOWN:
        KNOWN_SEEN[key] = KNOWN_SEEN.get(key, 0) + 1
        return True
    return False


# --- code under test --------------------------------------------------------------------------------

import melodia                                                   # noqa: E402
from melodia.core import Note, Signature, Tone, Track           # noqa: E402
from melodia.io import midi                                      # noqa: E402
from melodia.music import chord                                  # noqa: E402
from melodia.processing.track import randomize_velocities        # noqa: E402

assert melodia.__file__.startswith(REPO + '/src/'), melodia.__file__


def pow2(k: int) -> int:
    return 1 << k


def frac(s) -> Fraction:
    """Exact value of a Signature returned by the code under test; checks that it is a valid one."""
    require(isinstance(s, Signature), 'expected a Signature, got %r', type(s).__name__)
    n, d = s.nominator, s.denominator
    require(isinstance(n, int) and isinstance(d, int), 'signature fields are not integers: %r/%r', n, d)
    require(n >= 0 and d > 0 and d & (d - 1) == 0, 'invalid signature %r/%r', n, d)
    return Fraction(n, d)


def fields(s):
    frac(s)
    return s.nominator, s.denominator


def pitch_of(t) -> int:
    require(isinstance(t, Tone), 'expected a Tone, got %r', type(t).__name__)
    p = t.pitch
    require(isinstance(p, int), 'pitch is not an integer: %r', p)
    return p


def note_key(n):
    """(pitch, exact duration, velocity) of a Note returned by the code under test."""
    require(isinstance(n, Note), 'expected a Note, got %r', type(n).__name__)
    v = n.velocity
    require(isinstance(v, (int, float)), 'velocity is not a number: %r', v)
    return pitch_of(n.tone), frac(n.duration), v


def contents(track):
    """[(position, pitch, duration, velocity)] in iteration order."""
    require(isinstance(track, Track), 'expected a Track, got %r', type(track).__name__)
    out = []
    for item in track:
        require(isinstance(item, tuple) and len(item) == 2, 'track iteration yielded %r', item)
        pos, note = item
        out.append((frac(pos),) + note_key(note))
    return out


def snapshot(track):
    """Everything observable of a track: signature fields, contents, len, length."""
    require(isinstance(track, Track), 'expected a Track, got %r', type(track).__name__)
    return fields(track.signature), contents(track), len(track), frac(track.length)


def expect_raises(types, fn, what: str):
    """fn must raise one of types; anything else is a violation."""
    try:
        r = fn()
    except types as e:
        return e
    except Exception as e:                       # noqa: BLE001 - every other exception is reported
        fail(f'{what}: expected {types}, got {type(e).__name__}: {e}')
    fail(f'{what}: accepted, returned {str(r)[:200]}')


# --- construction of objects from plain cases ---------------------------------------------------------

_made = {}
_count = 0


def fresh_case():
    """Called before every case, so that it is built the same way whenever it is run."""
    global _count
    _made.clear()
    _count = 0


def again(key, make):
    """Mostly a new object; at times the very object made earlier in this case for the same key (values may be shared freely)."""
    global _count
    _count += 1
    if key in _made and (_count * 5 + hash(key)) % 3 == 0:
        return _made[key]
    x = make()
    if len(_made) < 2000:
        _made[key] = x
    return x


def sig(nk) -> Signature:
    """[n, k] -> Signature(n, 2**k)"""
    return Signature(nk[0], 1 << nk[1])


def val(nk) -> Fraction:
    return Fraction(nk[0], 1 << nk[1])


def sig_form(nk, form: int):
    """The same signature in one of the accepted argument forms."""
    n, d = nk[0], 1 << nk[1]
    f = form % 3
    if f == 0:
        return again(('sig', n, d), lambda: Signature(n, d))
    if f == 1:
        return (n, d)
    return [n, d]


_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
_FLATS = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


def notation(pitch: int, flat: bool = False) -> str:
    """Independent statement of the canonical notation."""
    return (_FLATS if flat else _NAMES)[pitch % 12] + str(pitch // 12)


def spelled(pitch: int, seed: int) -> str:
    """One of the many valid notations of a pitch: other letters, mixed accidentals, padded, negative-zero or absent octaves."""
    letter = 'CDEFGAB'[seed % 7]
    octave = pitch // 12 + (seed // 7) % 3 - 1
    rest = pitch - 12 * octave - {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}[letter]
    marks = ('#' * rest if rest > 0 else 'b' * -rest)
    pairs = (seed // 21) % 4
    marks = ['#b' * pairs + marks, marks + 'b#' * pairs, 'b' * pairs + marks + '#' * pairs][(seed // 84) % 3]
    pad = '0' * ((seed // 252) % 3)
    if octave == 0:
        return letter + marks + ['', '0', '-0', pad + '0'][(seed // 5) % 4]
    return letter + marks + ('-' if octave < 0 else '') + pad + str(abs(octave))


def tone_form(pitch: int, form: int):
    """0: Tone, 1: int, 2: sharps, 3: flats, negative: some other spelling."""
    if form < 0:
        return spelled(pitch, -form)
    f = form % 4
    if f == 0:
        return Tone(pitch)
    if f == 1:
        return pitch
    return notation(pitch, flat=(f == 3))


def mk_note(spec) -> Note:
    """[pitch, [n, k], velocity, form?] -> Note"""
    form = spec[3] if len(spec) > 3 else 0
    return again(('note', spec[0], spec[1][0], spec[1][1], repr(spec[2])), lambda: Note(tone_form(spec[0], form), sig_form(spec[1], form // 4), spec[2]))


def note_val(spec):
    return spec[0], val(spec[1]), spec[2]


def vel_byte_ok(v: float, b: int) -> bool:
    """b is v scaled to 0..127, rounded down (with room for float noise at exact multiples)."""
    x = v * 127
    return isinstance(b, int) and 0 <= b <= 127 and b <= x + 1e-9 and (b > x - 1 - 1e-9)


def vel127(k: int) -> float:
    return k / 127.0


def isclose(a: float, b: float, rel: float = 1e-12) -> bool:
    return math.isclose(a, b, rel_tol=rel, abs_tol=1e-300)
