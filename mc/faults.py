"""Interruption: an analysis that is stopped (Ctrl-C) at any line of the package leaves its objects as if it had not been started.

Every query of the call-sequence tables (mc/seqcases.py) is executed under a line tracer. Interrupt points are all executed
(function, line) pairs, at their first, second and last execution. The interrupt is raised there, and then every query
of that object is answered as by a fresh object.
"""
import ast
import os
import sys
import warnings

import numpy as np

import seqs


class Stop(KeyboardInterrupt):
    pass


def traced(fn, root, at=None, action=None):
    """runs fn() and returns the list of executed lines of the package; raises Stop (or runs action) before the line number at"""
    log = []

    def local(frame, event, arg):
        if event == 'line':
            log.append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno))
            if at is not None and len(log) == at:
                if action is None:
                    raise Stop()
                sys.settrace(None)
                action()
                sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    keep = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(keep)
    return log


CLEAN = {}


def cleanup(path):
    """line numbers of clean-up code"""
    if path not in CLEAN:
        CLEAN[path] = {n.lineno for t in ast.walk(ast.parse(open(path).read())) if isinstance(t, ast.Try)
                       for b in t.finalbody + t.handlers for n in ast.walk(b) if hasattr(n, 'lineno')}
    return CLEAN[path]


def points(log, second=True):
    where = {}
    for k, key in enumerate(log):
        if key[2] in cleanup(key[0]):
            continue
        where.setdefault(key, []).append(k + 1)
    return sorted({p for ks in where.values() for p in ((ks[0], ks[min(1, len(ks) - 1)], ks[-1]) if second else (ks[0], ks[-1]))})


def explore(rec, make, ops, first, label, root, rtol=1e-12, atol=1e-13, after=3):
    seqs.MODE[0] = 'plain'
    name, kind, fn = ops[first]
    queries = [k for k, o in enumerate(ops) if o[1] == 'q']
    want = {}
    for k in queries:
        want[k] = seqs.flat(ops[k][2](make()))
    o = make()
    log = traced(lambda: fn(o), root)                       # (the answers above have compiled everything)
    rec.state('lines', label, name, len(set(log)))
    second = [(queries.index(first) + j) % len(queries) for j in range(min(after, len(queries)))]
    for at in points(log):
        o = make()
        del seqs.PASSED[:]
        try:
            traced(lambda: fn(o), root, at)
            rec.outcome('interrupt swallowed')
            continue
        except Stop:
            pass
        where = lambda: '%s: %s interrupted before %s line %d' % (label, name, os.path.basename(log[at - 1][0]) + ' ' + log[at - 1][1], log[at - 1][2])
        for a, b in seqs.PASSED:
            rec.expect(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'), 'arrays of the caller modified by an interrupted call', where)
        for j in second:
            k = queries[j]
            got = seqs.flat(ops[k][2](o))
            rec.step()
            ok = len(got) == len(want[k]) and all(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=max(atol, rtol * np.max(np.abs(b), initial=0.0)), equal_nan=True) for a, b in zip(got, want[k]))
            rec.expect(ok, 'interrupted call changes a later answer', lambda: '%s; then %s: got %s, a fresh object gives %s' % (where(), ops[k][0], got, want[k]))
        rec.trace()
    rec.sample('%s: %s interrupted at all %d points' % (label, name, len(points(log))))


def mutators(rec, make, ops, first, label, root, rtol=1e-12, atol=1e-13):
    """a state change that is interrupted and then repeated (a commit: then reset) has its documented effect"""
    seqs.MODE[0] = 'plain'
    name, kind, fn = ops[first]
    if name == 'add':
        return
    muts = [k for k, o in enumerate(ops) if o[1] == 'm' and o[0] != 'add']
    queries = [k for k, o in enumerate(ops) if o[1] == 'q']
    reset = [k for k in muts if ops[k][0] == 'reset']
    if name.startswith('commit'):
        if not reset:
            return
        repair = reset[0]
    else:
        repair = first
    for pre in [None] + [k for k in muts if k != first]:
        def start():
            o = make()
            if pre is not None:
                ops[pre][2](o)
            return o
        want = {}
        for k in queries:
            o = start()
            fn(o)
            if repair != first:
                ops[repair][2](o)
            want[k] = seqs.flat(ops[k][2](o))
        o = start()
        fn(o)
        o = start()
        log = traced(lambda: fn(o), root)
        for at in points(log):
            for k in queries:
                o = start()
                try:
                    traced(lambda: fn(o), root, at)
                    continue
                except Stop:
                    pass
                ops[repair][2](o)
                got = seqs.flat(ops[k][2](o))
                rec.step()
                ok = len(got) == len(want[k]) and all(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=max(atol, rtol * np.max(np.abs(b), initial=0.0)), equal_nan=True) for a, b in zip(got, want[k]))
                rec.expect(ok, 'interrupted state change cannot be repaired', lambda: '%s: %s%s interrupted before %s line %d; %s; then %s: got %s, want %s' % (
                    label, '' if pre is None else ops[pre][0] + '; ', name, os.path.basename(log[at - 1][0]) + ' ' + log[at - 1][1], log[at - 1][2], ops[repair][0], ops[k][0], got, want[k]))
            rec.trace()
