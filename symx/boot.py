"""
Makes the code under test importable from /repo, with the parts of its
environment that are modelled by stubs.
"""

import os
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
real_perf_counter_ns = time.perf_counter_ns


class Clock:
    """Stub for time.perf_counter_ns: `now` can be replaced with a function that
    returns an arbitrary (symbolic) time."""

    now = staticmethod(real_perf_counter_ns)

    @classmethod
    def reset(cls):
        cls.now = staticmethod(real_perf_counter_ns)


def _perf_counter_ns():
    return Clock.now()


def boot(qt=False, pygfx=False):
    sys.dont_write_bytecode = True
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # The clock is part of the environment
    time.perf_counter_ns = _perf_counter_ns
    # Leave out the (slow) renderers that are not needed by the check
    if not qt:
        sys.modules.setdefault("PySide6", None)
    if not pygfx:
        sys.modules.setdefault("pygfx", None)
    import collagraph

    assert os.path.realpath(collagraph.__file__).startswith(
        os.path.realpath(REPO)
    ), collagraph.__file__
    return collagraph
