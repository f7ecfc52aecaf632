"""Building blocks shared by all checks."""

import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

REPO = os.environ.get("PBT_REPO", "/repo")
LIB = os.path.join(REPO, "building3d") + os.sep


class Violation(AssertionError):
    """The property does not hold for the given case."""


class CaseTimeout(BaseException):
    """A single case used much more processor time than it possibly could."""


class Stop(BaseException):
    """Internal: the shard should not run more cases."""


def fail(msg, *args):
    raise Violation(msg if not args else msg % args)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg if not args else msg % args)


class Ctx:
    """Collects facts about one case: labels, non-triviality, scratch space."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self._tmp = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        """Declares the case non-trivial if the condition is true."""
        if cond:
            self.nontrivial = True

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pbt_")
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


@dataclass
class Sub:
    """One generated check: a strategy of specs and a pure function judging a spec."""

    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Any, Ctx], None]
    quick: int
    thorough: int
    rule: str
    corpus: list = field(default_factory=list)
    cpu_limit: float = 60.0
    shards: int = 16


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def spec_hash(spec):
    return int.from_bytes(hashlib.blake2b(canon(spec).encode(), digest_size=8).digest(), "big")


def through_library(exc):
    """True if the exception was raised while code of the library was running."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    last = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(LIB):
            last = f" at {os.path.relpath(fr.filename, REPO)}:{fr.lineno} in {fr.name}"
    return f"unexpected {type(exc).__name__}: {str(exc)[:300]}{last}"


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(sub, spec, ctx):
    """Runs one case. Raises Violation if the property is broken by it.

    Exceptions which the library raises on an input inside the domain of the
    property are violations, and so are results of a wrong type or shape, on which
    the harness stumbles. Other exceptions of the harness (system errors) propagate.
    """
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
    try:
        sub.fn(spec, ctx)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation(
            f"no result after {sub.cpu_limit:.0f} s of processor time (expected milliseconds)"
        ) from None
    except Exception as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        if through_library(e):
            raise Violation(describe(e)) from e
        if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, AssertionError)):
            # The library returned something which does not look like a result at all
            raise Violation(f"result not understood: {describe(e)}") from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.close()


def roundtrip(spec):
    """What the spec looks like after being stored in a replay file."""
    return json.loads(json.dumps(spec))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.failure = None  # (sub name, spec, message)
        self.error = None
        self.first_fail_at = None

    def note(self, sub, spec, ctx):
        self.evaluations += 1
        for name in set(ctx.labels):
            self.labels[f"{sub.name}:{name}"] += 1
        if ctx.nontrivial:
            h = spec_hash([sub.name, spec])
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    self.samples.append({"case": sub.name, "input": spec})

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "labels": self.labels,
            "samples": self.samples,
            "failure": self.failure,
            "error": self.error,
        }


def search(sub, n, seed, stop, shrink_s=25.0):
    """Runs n generated cases of one sub-check with the given seed."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()

    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @hypothesis.seed(seed)
    @given(sub.strategy())
    def test(spec):
        if stats.failure is None:
            if stop.is_set():
                return
        elif time.monotonic() - stats.first_fail_at > shrink_s:
            return
        spec = roundtrip(spec)
        ctx = Ctx()
        try:
            run_case(sub, spec, ctx)
        except Violation as v:
            stop.set()
            if stats.first_fail_at is None:
                stats.first_fail_at = time.monotonic()
            if "no result after" in str(v):
                stats.first_fail_at = -1e9  # Too slow to shrink
            if stats.failure is None or len(canon(spec)) < len(canon(stats.failure[1])):
                stats.failure = (sub.name, spec, str(v))
            raise Violation("violation") from None
        stats.note(sub, spec, ctx)

    try:
        test()
    except Violation:
        pass
    except Stop:
        pass
    except BaseException as e:  # noqa: BLE001
        if stats.failure is None:
            stats.error = "".join(traceback.format_exception(e))[-4000:]
    return stats


def log(*args):
    print(*args, flush=True)


def die(msg):
    print(f"ERROR: {msg}", file=sys.stderr, flush=True)
    sys.exit(2)
