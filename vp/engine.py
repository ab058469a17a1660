"""
The engine that decides properties by generated-input search.

A *property* is a set of *sub-checks*.  A sub-check is a Hypothesis strategy that
draws a plain, JSON-able ``case`` and a ``check(case, ctx)`` function which drives the
real code from /repo with it and compares against an explicit oracle.  Every random
choice is made by Hypothesis (matrices are either written out in the case or are a
pure function of integers in the case), so that a run is a function of the code and
VERIF_SEED, failures shrink, and the shrunk case is a complete replay file.
"""
import hashlib
import json
import os
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st
import hypothesis.internal.conjecture.engine as _hyp_engine

# Only affects how minimal a reported counterexample is, never whether it is reported
_hyp_engine.MAX_SHRINKING_SECONDS = 25

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Seconds one worker spends generating cases of a sub-check before it stops early
TIME_LIMIT = {'quick': 150, 'thorough': 3000}

REGISTRY = {}   # property id -> list of Sub


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The oracle or generator failed; says nothing about the code under test."""


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, doc):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.doc = quick, thorough, doc


def sub(prop, name, strategy, quick, thorough=None):
    """Registers a sub-check; budgets are numbers of generated cases."""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 40, (fn.__doc__ or '').strip()))
        return fn
    return deco


class Ctx:
    """What a check reports about a case besides pass/fail."""
    def __init__(self):
        self.trivial_reason = None
        self.labels = []
        self.findings = []

    def trivial(self, reason):
        """Marks the case as not counting (e.g. ill-conditioned)."""
        self.trivial_reason = reason

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def finding(self, key):
        """A recorded known finding showed on this case."""
        self.findings.append(key)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def oracle(fn):
    """Marks a function of the *inputs* as part of the oracle: its exceptions are harness errors."""
    def wrapped(*a, **k):
        try:
            return fn(*a, **k)
        except (HarnessError, Violation):
            raise
        except Exception as e:
            raise HarnessError('%s failed: %r\n%s' % (fn.__name__, e, traceback.format_exc())) from e
    wrapped.__name__ = fn.__name__
    wrapped.__doc__ = fn.__doc__
    return wrapped


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:8], 'little')


CASE_SECONDS = 60     # a case takes milliseconds; one that takes this long does not terminate


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def run_case(s, case):
    """Runs one case; returns (ctx, None) or (ctx, message)."""
    import io
    import signal
    import warnings
    import numpy as np
    ctx = Ctx()
    out, err = sys.stdout, sys.stderr
    signal.signal(signal.SIGALRM, _alarm)
    try:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        signal.alarm(CASE_SECONDS)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            s.check(case, ctx)
        return ctx, None
    except Hang:
        return ctx, HANG
    except HarnessError:
        raise
    except Violation as e:
        return ctx, str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return ctx, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err


HANG = 'does not terminate (no result after %d s)' % CASE_SECONDS


def run_sub(s, tier, seed, shard, shards):
    """Runs the share of one worker of a sub-check; returns a plain result dict."""
    budget = s.quick if tier == 'quick' else s.thorough
    n = budget // shards + (1 if shard < budget % shards else 0)
    res = dict(sub=s.name, shard=shard, evaluations=0, nontrivial=[], trivial={}, labels={}, samples=[],
               findings={}, failure=None, error=None, wall=0.0)
    if n == 0:
        return res
    t0 = time.time()
    nontrivial, state = set(), {}

    class _Fail(Exception):
        pass

    limit = TIME_LIMIT[tier]

    def body(case):
        if time.time() - t0 > limit or state.get('hang'):
            res['skipped'] = res.get('skipped', 0) + 1   # inconclusive, never a violation
            return
        case = json.loads(json.dumps(case))
        ctx, msg = run_case(s, case)
        res['evaluations'] += 1
        for f in ctx.findings:
            res['findings'][f] = res['findings'].get(f, 0) + 1
        if msg is not None:
            state['failure'] = (case, msg)
            state['hang'] = msg == HANG    # not worth shrinking
            raise _Fail(msg)
        for lab in set(ctx.labels):
            res['labels'][lab] = res['labels'].get(lab, 0) + 1
        if ctx.trivial_reason is not None:
            res['trivial'][ctx.trivial_reason] = res['trivial'].get(ctx.trivial_reason, 0) + 1
        else:
            h = case_hash(case)
            if h not in nontrivial:
                nontrivial.add(h)
                if len(res['samples']) < 2 and (res['evaluations'] > 5 or len(nontrivial) > 3):
                    res['samples'].append(case)

    strategy = s.strategy() if callable(s.strategy) else s.strategy
    test = hypothesis.given(strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(derive_seed(seed, s.prop, s.name, shard))(test)
    try:
        test()
    except HarnessError as e:
        res['error'] = str(e)
    except (KeyboardInterrupt, MemoryError) as e:
        res['error'] = repr(e)
    except BaseException as e:
        if 'failure' in state:
            case, msg = state['failure']
            try:
                again = msg if state['hang'] else run_case(s, case)[1]
            except HarnessError:
                again = None
            res['failure'] = dict(case=case, message=msg,
                                  replays='case' if again is not None else 'campaign',
                                  campaign=dict(seed=seed, tier=tier, shard=shard, shards=shards))
        else:
            inner = e
            while isinstance(inner, BaseExceptionGroup):
                inner = inner.exceptions[0]
            res['error'] = '%r\n%s' % (inner, ''.join(traceback.format_exception(inner)))
    res['nontrivial'] = sorted(nontrivial)
    res['wall'] = time.time() - t0
    return res
