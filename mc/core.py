"""
Shared machinery of the bounded exhaustive checks.

A check module (mc/checks/cNN.py) offers

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> deterministic list of JSON-able case descriptors, simplest first; the
                        list IS the bounded space, all of it is explored
    run(case, rec)   -> explores everything below that case against the real code, using
                        rec.state(key)    a distinct model/configuration state was visited
                        rec.step(n)       n operations were executed on the real code and compared
                        rec.trace(n)      n complete operation sequences were replayed on the real code
                        rec.sample(text)  an actual execution, written out
                        rec.expect(ok, key, msg) / rec.close(...)   the oracle

Exceptions raised while a case runs are violations (the code under test threw where the
reference model has an answer).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np


class CaseTimeout(Exception):
    pass


class TooMany(Exception):
    pass


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (set, frozenset, tuple)):
        return list(x)
    return str(x)


def short(x, n=400):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=30, precision=8)
    else:
        s = str(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + ' ...'


class Rec:
    """Recorder of one case."""
    MAX_FAIL = 5

    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []      # (key, msg)

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(h)

    def outcome(self, *key):
        """Observed behaviour class, to show that the exploration is not vacuous."""
        self.outcomes.add(repr(key))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(short(text, 600))

    def fail(self, key, msg):
        self.fails.append((str(key), short(msg, 1500)))
        if len(self.fails) >= self.MAX_FAIL:
            raise TooMany()

    def expect(self, ok, key, msg=''):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(ok)

    def close(self, got, want, key, msg='', rtol=1e-9, atol=1e-11):
        """got == want up to rounding.  NaN/inf/shape differences fail."""
        try:
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(want) else float)
            w = np.asarray(want, dtype=g.dtype)
        except Exception as e:                               # not numeric
            self.fail(key, 'result is not numeric: %r (%s)' % (got, e))
            return False
        if g.shape != w.shape:
            self.fail(key, '%s shape %s, expected %s' % (msg, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        ok = np.isfinite(g).all() and np.isfinite(w).all()
        if ok:
            scale = np.max(np.abs(w))
            ok = np.max(np.abs(g - w)) <= atol + rtol * scale
        if not ok:
            m = msg() if callable(msg) else msg
            self.fail(key, '%s got %s expected %s' % (m, short(g), short(w)))
        return bool(ok)


def run_case(mod, case, limit):
    rec = Rec()

    def onalarm(*a):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        if isinstance(case, dict) and 'seq' in case:
            import seqcases
            seqcases.run(mod.ID, case, rec)
        elif isinstance(case, dict) and 'default' in case:
            import defcases
            defcases.run(mod.ID, case, rec)
        else:
            mod.run(case, rec)
    except TooMany:
        pass
    except CaseTimeout:
        rec.fails.append(('no-answer', 'case did not finish within %d s' % limit))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                            for f in reversed(tb[-4:]))
        rec.fails.append(('exception/%s' % type(e).__name__, '%s: %s [%s]' % (type(e).__name__, short(e), where)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec


def all_cases(mod, tier):
    import defcases
    import seqcases
    return list(mod.cases(tier)) + seqcases.cases(mod.ID, tier) + defcases.cases(mod.ID, tier)


def load_findings(path):
    """known-findings.txt: 'finding: property=<id> key=<exact key> case=<exact case json> :: <text>'"""
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.rstrip('\n')
        if not line.startswith('finding:'):
            continue
        head, _, what = line[len('finding:'):].partition(' :: ')
        d = {}
        for part in head.strip().split(' ', 2):
            k, _, v = part.partition('=')
            d[k] = v
        d['what'] = what
        out.append(d)
    return out
