"""Concurrent programs: helpers to run harness threads next to the threads of the code under test."""
import vworld as V
from harness import HarnessError, Violation


class Threads:
    """Harness threads inside a scheduler; errors are re-raised by join()."""

    def __init__(self):
        self.t = V.thread_module()
        self.items = []
        self.errors = []

    def go(self, fn, *args, name=None):
        def body():
            try:
                fn(*args)
            except V.Killed:
                raise
            except BaseException as e:  # reported by join
                self.errors.append(e)

        th = self.t.Thread(target=body, daemon=True, name=name)
        th.start()
        vt = V.ACTIVE.threads[-1]
        for t in V.ACTIVE.threads:
            if t.id == th.ident:
                vt = t
        vt.name = name or f'harness-{len(self.items)}'
        self.items.append(th)
        return th

    def join(self):
        for th in self.items:
            th.join()
        if self.errors:
            raise self.errors[0]


def events(src, name, session=None):
    return [e for e in src.log if e[0] == name and (session is None or e[1] == session)]


def settle(seconds=5.0):
    V.vsleep(seconds)


def is_prefix(a, b):
    return list(b[: len(a)]) == list(a)
