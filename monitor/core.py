"""Monitors, workload families, verdicts, evidence.

A property consists of

- *monitors*: postconditions attached to public entry points of pyirf.  While a
  check runs, every call of a monitored entry point, made by the workload or by
  pyirf itself, is recorded at its boundary (arguments as passed, a copy taken
  before the call, and the result or exception) and handed to the oracle.
- *families*: seeded workloads that drive the entry points.  Relations between
  several calls (histories) are decided inside of the families.

Every oracle decision is counted.  The verdict is three-valued: violated,
held on everything observed, or inconclusive (nothing or too little observed,
an error in the harness, a crashed worker or the watchdog).
"""
import collections
import copy
import functools
import hashlib
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}

EXIT_HELD, EXIT_VIOLATED, EXIT_INCONCLUSIVE = 0, 1, 2


class CaseAbort(Exception):
    """The current case cannot be continued (a violation has been recorded)."""


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


#: cpu seconds of this process, does not depend on the load of the machine
CASE_CPU_SECONDS = 120
#: size of the workloads in units of the counts given for the families
QUICK_FACTOR, THOROUGH_FACTOR = 24, 15
#: problems of the environment, not of the code under test
INFRASTRUCTURE = (MemoryError, OSError, HarnessError)


def _timeout(signum, frame):
    raise CaseTimeout()


class Prop:
    def __init__(
        self, id, title, statement, over, quantifier, why, files, mechanism, rule,
        note, observe_at=(), technique=None,
    ):
        self.id = id
        self.title = title
        self.statement = statement
        self.over = list(over)
        self.quantifier = quantifier
        self.why = why
        self.files = list(files)
        self.mechanism = [dict(name=n, where=w) for n, w in mechanism]
        self.rule = rule
        self.note = note
        self.observe_at = list(observe_at)
        self.technique = technique or (
            "runtime monitoring: postcondition monitors on the public entry points, "
            "judged by an independent reference model, under seeded hostile workloads"
        )
        self.families = []
        self.monitors = []
        self.required = []
        #: called once per process before the first case
        self.prepare = None
        if id in REGISTRY:
            raise HarnessError(f"duplicate property {id}")
        REGISTRY[id] = self

    def family(self, quick, thorough=None):
        def deco(func):
            n = quick * QUICK_FACTOR
            self.families.append(
                (func.__name__, func, n, thorough or n * THOROUGH_FACTOR)
            )
            return func

        return deco

    def monitor(self, *targets, required=True):
        """Attach ``func(ctx, call)`` to entry points ``module:qualname``"""

        def deco(func):
            for target in targets:
                self.monitors.append((target, func))
                if required:
                    self.required.append(target)
            return func

        return deco


class Call:
    """A recorded call of a monitored entry point"""

    __slots__ = ("target", "args", "kwargs", "result", "error", "obj", "live")

    def __init__(self, target, args, kwargs):
        self.target = target
        self.args = args
        self.kwargs = kwargs
        self.result = None
        self.error = None
        #: the objects that were passed, args and kwargs are copies made before the call
        self.live = None

    def bind(self, *names, **defaults):
        """Map the arguments of the call to names, like a signature would do"""
        order = list(names) + [k for k in defaults if k not in names]
        out = dict(defaults)
        out.update(zip(order, self.args))
        out.update(self.kwargs)
        return out


def snapshot(value):
    """Copy of an argument, so that the oracle sees the value before the call"""
    if isinstance(value, np.ndarray):
        return value.copy()
    if isinstance(value, (list, tuple)):
        return type(value)(snapshot(v) for v in value)
    if isinstance(value, dict):
        return {k: snapshot(v) for k, v in value.items()}
    if hasattr(value, "colnames"):
        return value.copy(copy_data=True)
    return value


class Ctx:
    """Per-worker state: the current case and what was observed so far"""

    MAX_VIOLATIONS = 20

    def __init__(self, prop, tier, seed, known=()):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.known = dict(known)
        self.decisions = 0
        self.events = collections.Counter()
        self.outcomes = collections.Counter()
        self.cases = 0
        self.skipped = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known_seen = collections.Counter()
        self.family = None
        self.index = None
        self.rng = None
        self._nontrivial = False
        self._active = False

    # -- cases -------------------------------------------------------------
    def start(self, family, index):
        self.family = family
        self.index = index
        digest = hashlib.sha256(
            f"{self.prop.id}/{family}/{index}/{self.seed}".encode()
        ).digest()
        self.rng = np.random.default_rng(np.frombuffer(digest, dtype=np.uint32))
        # now and then all axes have the same number of bins
        gen.AXIS = 3 + digest[0] % 9 if digest[1] < 18 else None
        self.cases += 1

    def nontrivial(self, *key, sample=None):
        """Count the case as distinct and non-trivial, identified by key"""
        text = repr((self.family,) + tuple(_key(k) for k in key))
        h = hashlib.sha1(text.encode()).digest()[:8]
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 3 or (
                len(self.samples) < 12
                and all(s["family"] != self.family for s in self.samples)
            ):
                self.samples.append(
                    dict(
                        family=self.family, index=self.index, seed=self.seed,
                        case=sample if sample is not None else _short(text, 400),
                    )
                )

    # -- oracle decisions ----------------------------------------------------
    def check(self, ok, message, key=None, **detail):
        self.decisions += 1
        if not bool(ok):
            self.violate(message, key=key, **detail)
            return False
        return True

    def close(self, got, want, message, rtol=1e-9, atol=0.0, key=None, **detail):
        """Elementwise agreement, nan equals nan, inf equals inf of same sign"""
        self.decisions += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.violate(
                f"{message}: shape {got.shape}, expected {want.shape}", key=key, **detail
            )
            return False
        with np.errstate(all="ignore"):
            same = (got == want) | (np.isnan(got) & np.isnan(want))
            near = np.abs(got - want) <= atol + rtol * np.abs(want)
            ok = same | (near & np.isfinite(got) & np.isfinite(want))
        if not ok.all():
            bad = np.argwhere(~ok)[0]
            idx = tuple(int(i) for i in bad)
            self.violate(
                f"{message}: at {idx} got {got[idx]!r}, expected {want[idx]!r} "
                f"({int((~ok).sum())} of {ok.size} differ)",
                key=key, **detail,
            )
            return False
        return True

    def violate(self, message, key=None, **detail):
        if key is not None and key in self.known:
            self.known_seen[key] += 1
            return
        self.outcomes["violations"] += 1
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append(
                dict(
                    property=self.prop.id, family=self.family, index=self.index,
                    seed=self.seed, tier=self.tier, message=_short(message, 1500),
                    detail={k: _short(_text(v), 1500) for k, v in detail.items()},
                )
            )

    def skip(self, reason):
        self.skipped[reason] += 1

    # -- driving the code under test -----------------------------------------
    def call(self, func, *args, **kwargs):
        """Call into pyirf with valid input, any exception is a violation"""
        try:
            return func(*args, **kwargs)
        except Exception as e:
            name = getattr(func, "__qualname__", None) or type(func).__name__
            self.decisions += 1
            self.violate(
                f"{name} raised {type(e).__name__}: {e} for valid input",
                traceback=traceback.format_exc(limit=-6),
                args=args, kwargs=kwargs,
            )
            raise CaseAbort() from None

    def raises(self, exceptions, func, *args, message="", **kwargs):
        name = getattr(func, "__qualname__", None) or type(func).__name__
        try:
            result = func(*args, **kwargs)
        except exceptions:
            self.decisions += 1
            return True
        except Exception as e:
            self.decisions += 1
            self.violate(
                f"{message}: {name} raised {type(e).__name__}: {e}, expected {exceptions}"
            )
            return False
        self.decisions += 1
        self.violate(
            f"{message}: {name} did not raise, expected {exceptions}", result=result
        )
        return False


def _key(k):
    if isinstance(k, np.ndarray):
        return hashlib.sha1(np.ascontiguousarray(np.asarray(k)).tobytes()).hexdigest()[:10]
    if isinstance(k, float):
        return f"{k:.6g}"
    return k


def _text(v):
    try:
        with np.printoptions(threshold=40, precision=17):
            return repr(v)
    except Exception:
        return "<unprintable>"


def _short(text, n):
    return text if len(text) <= n else text[: n - 3] + "..."


# -- hooks -------------------------------------------------------------------


def resolve(target):
    modname, qual = target.split(":")
    module = importlib.import_module(modname)
    owner = module
    *path, name = qual.split(".")
    for part in path:
        owner = getattr(owner, part)
    return module, owner, name


class Hooks:
    """Replace monitored entry points everywhere they are referenced"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.by_target = collections.OrderedDict()

    def install(self, monitors):
        for target, post in monitors:
            self.by_target.setdefault(target, []).append(post)
        for target, posts in self.by_target.items():
            module, owner, name = resolve(target)
            if isinstance(owner, type):
                self._wrap_method(target, owner, name, posts)
            else:
                self._wrap_function(target, getattr(owner, name), posts)

    def _wrap(self, target, original, posts, bound=False):
        ctx = self.ctx

        @functools.wraps(original)
        def monitored(*args, **kwargs):
            recorded = args[1:] if bound else args
            call = Call(target, snapshot(tuple(recorded)), snapshot(kwargs))
            call.obj = args[0] if bound else None
            call.live = (tuple(recorded), kwargs)
            try:
                call.result = original(*args, **kwargs)
            except Exception as e:
                call.error = e
            ctx.events[target] += 1
            for post in posts:
                try:
                    post(ctx, call)
                except CaseAbort:
                    pass
                except INFRASTRUCTURE:
                    raise
                except Exception:
                    # an oracle handles every result the interface allows
                    ctx.decisions += 1
                    ctx.violate(
                        f"{target}: the result cannot be judged, it is not of the "
                        "specified form",
                        traceback=traceback.format_exc(limit=-4), result=call.result,
                    )
            if call.error is not None:
                raise call.error
            return call.result

        monitored.__monitored__ = original
        return monitored

    def _wrap_function(self, target, original, posts):
        wrapper = self._wrap(target, original, posts)
        count = 0
        for modname, mod in list(sys.modules.items()):
            if mod is None or not (modname == "pyirf" or modname.startswith("pyirf.")):
                continue
            for attr, value in list(vars(mod).items()):
                if value is original:
                    setattr(mod, attr, wrapper)
                    count += 1
        if count == 0:
            raise HarnessError(f"{target} not found")

    def _wrap_method(self, target, owner, name, posts):
        raw = owner.__dict__.get(name)
        if raw is None:
            raw = getattr(owner, name)
        if isinstance(raw, classmethod):
            inner = self._wrap(target, raw.__func__, posts, bound=True)
            setattr(owner, name, classmethod(inner))
        else:
            setattr(owner, name, self._wrap(target, raw, posts, bound=True))


# -- running -------------------------------------------------------------------


def run_cases(prop, tier, seed, known, jobs):
    """Run the given (family, index) pairs in this process"""
    ctx = Ctx(prop, tier, seed, known)
    hooks = Hooks(ctx)
    hooks.install(prop.monitors)
    funcs = {name: func for name, func, _, _ in prop.families}
    errors = []
    signal.signal(signal.SIGPROF, _timeout)
    if prop.prepare is not None:
        prop.prepare()
    for family, index in jobs:
        ctx.start(family, index)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        try:
            funcs[family](ctx)
        except CaseAbort:
            ctx.outcomes["aborted"] += 1
        except CaseTimeout:
            ctx.violate(f"case did not terminate in {CASE_CPU_SECONDS} s of cpu time")
        except INFRASTRUCTURE:
            errors.append(f"{family}[{index}]: {traceback.format_exc()}")
            if len(errors) > 5:
                break
        except Exception:
            # on a tree that has the property, no workload ends like this: the
            # code under test returned something outside of its interface
            ctx.decisions += 1
            ctx.violate(
                "observed behaviour cannot be judged, it is not of the specified form",
                traceback=traceback.format_exc(limit=-6),
            )
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(
        decisions=ctx.decisions, events=dict(ctx.events), cases=ctx.cases,
        skipped=dict(ctx.skipped), keys=sorted(ctx.keys), samples=ctx.samples,
        violations=ctx.violations, known_seen=dict(ctx.known_seen),
        outcomes=dict(ctx.outcomes), errors=errors,
    )


def load_known(prop_id):
    """Known findings of a property: {key: description}"""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)
            fields = dict(p.split("=", 1) for p in parts[1:3])
            if fields.get("property") == prop_id:
                known[fields["key"]] = parts[3] if len(parts) > 3 else ""
    return known


def jobs_for(prop, tier, scale=1.0):
    jobs = []
    for name, _, quick, thorough in prop.families:
        n = quick if tier == "quick" else thorough
        n = max(1, int(math.ceil(n * scale)))
        jobs.extend((name, i) for i in range(n))
    return jobs


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)
