"""One fuzzing process: python -m melver.fuzz_target <property> <libFuzzer arguments>"""
import sys

import atheris

sys.set_int_max_str_digits(0)
with atheris.instrument_imports(include=['melodia']):
    import melodia                      # noqa: F401
    import melodia.core                 # noqa: F401
    import melodia.io.midi              # noqa: F401

from melver.props.midi_read import FUZZ    # noqa: E402

check = FUZZ[sys.argv[1]]


def one_input(data):
    check(bytes(data))


atheris.Setup([sys.argv[0]] + sys.argv[2:], one_input)
atheris.Fuzz()
