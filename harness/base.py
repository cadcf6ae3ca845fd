"""Shared by symbolic and plain runs: stop / violation signals (not instrumented)."""


class StopPath(KeyboardInterrupt):
    """abandon this run (assumption violated)"""


class Violation(KeyboardInterrupt):
    """the property is violated on this concrete run"""

    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Hang(KeyboardInterrupt):
    """work budget of the code under test exceeded"""


class Env:
    """What differs between symbolic and plain runs."""
    symbolic = False
    streams = None            # asyncio.streams or its instrumented copy
    selector_events = None
    budget = None             # callable(n): (re)arm the work budget; None: disarm
    memory = False            # plain runs: judge the memory allocated while the code under test runs
    repo = "/repo"


ENV = Env()
