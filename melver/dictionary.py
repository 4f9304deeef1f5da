"""Fuzzing dictionary: literals found in the sources under test.

Used only to bias generators towards values around constants that occur in the code (thresholds,
masks, sizes); it never decides anything.
"""
import ast
import os
from typing import List

ROOT = '/repo/src/melodia'


def _walk():
    ints, floats, strs = set(), set(), set()
    for top, dirs, files in os.walk(ROOT):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            try:
                with open(os.path.join(top, name), 'rb') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 6:
                        strs.add(v)
                elif isinstance(node, ast.BinOp):
                    # simple constant expressions such as 1 << 20 or 4 * 4096
                    try:
                        v = _const(node)
                    except Exception:           # noqa: BLE001
                        continue
                    if isinstance(v, int) and abs(v) < 1 << 70:
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
    return ints, floats, strs


def _const(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -_const(node.operand)
    if isinstance(node, ast.BinOp):
        a, b = _const(node.left), _const(node.right)
        op = type(node.op)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op is ast.FloorDiv:
            return a // b
        if op is ast.Div:
            return a / b
        if op is ast.LShift and b < 80:
            return a << b
        if op is ast.Pow and abs(b) < 80:
            return a ** b
        if op is ast.BitOr:
            return a | b
    raise ValueError


_ints, _floats, _strs = _walk()
_near = set()
for _c in _ints:
    for _d in (-1, 0, 1):
        _near.add(_c + _d)
        _near.add(-(_c + _d))
for _k in list(range(0, 36)) + [40, 48, 52, 53, 54, 62, 63, 64, 65, 80, 100]:
    for _d in (-1, 0, 1):
        _near.add((1 << _k) + _d)

INTS: List[int] = sorted(_near)
FLOATS: List[float] = sorted(f for f in _floats if f == f and abs(f) != float('inf'))
STRS: List[str] = sorted(_strs)
SOURCE_INTS: List[int] = sorted({c + d for c in _ints for d in (-1, 0, 1)})


def ints_between(lo: int, hi: int, source_only: bool = False) -> List[int]:
    return [i for i in (SOURCE_INTS if source_only else INTS) if lo <= i <= hi]
