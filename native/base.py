"""Run-time contract checks of the real code (replay, contract validation, bounded stand-ins)."""
import json, os, random, re, signal, sys, time, traceback, warnings

CHECKS = {}


class Finding(Exception):
    """A violation identified by a key (looked up in known_findings.jsonl)."""
    def __init__(self, key, msg): self.key, self.msg = key, msg; Exception.__init__(self, f'{key}: {msg}')


class Skip(Exception):
    """The drawn input is outside the property's precondition."""


class Timeout(Exception): pass


def check(prop, n=10, thorough=None, what='', limit=60):
    """Register a run-time check: fn(rng) draws one input, exercises the real code and asserts the contract.
    It returns a short description of the case (a string)."""
    def deco(fn):
        CHECKS.setdefault(prop, []).append(dict(name=fn.__name__, fn=fn, n=8 * n, thorough=thorough or 80 * n, what=what or (fn.__doc__ or '').strip(), limit=limit))
        return fn
    return deco


def run_case(prop, name, seed, k):
    """Run case k of a check.  Returns (status, detail)."""
    import numpy as np
    c = [c for c in CHECKS[prop] if c['name'] == name][0]
    rng = random.Random(f'{seed}/{prop}/{name}/{k}')
    np.random.seed(rng.randrange(2 ** 31))
    rng.case = k
    def on_alarm(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(c['limit'])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                d = c['fn'](rng)
        return 'ok', str(d) if d is not None else ''
    except Skip as e:
        return 'skip', str(e)
    except Timeout:
        return 'timeout', ''
    except Finding as e:
        return 'finding', (e.key, e.msg)
    except Exception:
        return 'fail', traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def close(a, b, tol=1e-8, msg=''):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, f'{msg}: shape {a.shape} != {b.shape}'
    assert np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b)), f'{msg}: {a.tolist()} != {b.tolist()}'
