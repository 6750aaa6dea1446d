"""Calling code under test with a time and memory bound, turning errors into values."""
import contextlib
import io
import resource
import signal
import sys


class Hang(BaseException):
    pass


class Stuck(BaseException):
    """Too many calls of this run did not finish."""


MAX_HANGS = 2
hangs = []


def _alarm(signum, frame):
    raise Hang()


def limit_memory(mb=6000):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (mb * 1024 * 1024, hard))


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def call(fn, *a, seconds=10, **k):
    """("ok", value) | ("exc", class name, message)."""
    # The bound is on the time the call computes, which a busy machine does not change; a
    # call that only waits is given up after much longer.  The timers repeat, so that code
    # that catches everything does not swallow them.
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 8 * seconds, 2)
    signal.setitimer(signal.ITIMER_PROF, seconds, 2)
    try:
        with quiet():
            return ("ok", fn(*a, **k))
    except Hang:
        hangs.append(getattr(fn, "__name__", "call"))
        if len(hangs) > MAX_HANGS:
            raise Stuck(f"{len(hangs)} calls did not finish, the last within {seconds} s") from None
        return ("exc", "HANG", f"did not finish within {seconds} s")
    except MemoryError:
        return ("exc", "MemoryError", "")
    except RecursionError as e:
        return ("exc", "RecursionError", str(e)[:200])
    except SystemExit as e:
        return ("exc", "SystemExit", str(e.code))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__, str(e)[:300])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
