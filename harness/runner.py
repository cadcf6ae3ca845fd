"""Plain (uninstrumented) or symbolic set-up of the harness environment."""
import os
import resource
import signal
import sys
from harness.base import ENV


def _alarm(*a):
    from harness.base import Hang
    raise Hang("wall clock budget exceeded")


PEAK = 250 << 20


def plain_budget(on):
    if ENV.memory:
        import tracemalloc
        if on:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
            tracemalloc.start()
        elif tracemalloc.is_tracing():
            peak = tracemalloc.get_traced_memory()[1]
            tracemalloc.stop()
            if peak > PEAK:
                from harness.base import Hang
                signal.setitimer(signal.ITIMER_REAL, 0)
                raise Hang("%d octets allocated" % peak)
    if on:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20)
    else:
        signal.setitimer(signal.ITIMER_REAL, 0)


def setup_plain(repo="/repo"):
    import asyncio
    import asyncio.selector_events
    ENV.symbolic = False
    ENV.repo = repo
    ENV.streams = asyncio.streams
    ENV.selector_events = asyncio.selector_events
    ENV.budget = plain_budget


def setup_symbolic(repo="/repo", extra_modules=()):
    from sx import instrument
    import asyncio
    import asyncio.selector_events
    f = instrument.install(repo, extra_modules)
    f.roots["harness"] = os.path.dirname(os.path.abspath(__file__))
    for m in list(sys.modules):
        if m.startswith("harness.") and m not in ("harness.base", "harness.runner"):
            del sys.modules[m]
    ENV.symbolic = True
    ENV.repo = repo
    ENV.streams = instrument.private_copy("asyncio.streams", "sx_streams")
    ENV.selector_events = instrument.private_copy("asyncio.selector_events", "sx_selector_events")
    from sx import hooks
    ENV.budget = hooks.arm_budget
    return instrument
