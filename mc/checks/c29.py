"""C29: interrupting a computation at any line leaves the objects as if it had not been started."""
import contextlib
import io
import json
import os
import pickle
import subprocess
import sys
import warnings
import numpy as np
import faults
import ref
import seqcases
import seqs
import tmdsimpy
from checks import c28, c30
from tmdsimpy.continuation import Continuation
from tmdsimpy.utils import harmonic as hutils

ID = 'C29'
CASE_LIMIT = 900
LEVEL = 'model_checking'
ROOT = os.path.dirname(os.path.abspath(tmdsimpy.__file__))
RULE = ('operations: every query and every state change of the call-sequence tables of all other properties, solver runs and whole continuations on systems with memoryless, hysteretic and mixed elements. '
        'For each operation a keyboard interrupt is raised before every executed line of the package (first, second and last execution of each line; clean-up blocks excepted); afterwards queries (for continuations: the whole analysis again) must answer as on a fresh object, '
        'an interrupted state change repeated (an interrupted commit: followed by a reset) must have its documented effect, and arrays of the caller are unchanged. For elements without JAX, systems of them, and the functions of the package, the same is done for the first use in a process (every interrupt in a process of its own). State = (operation, interrupted line); transition = one call after an interrupt.')
ASSUMPTIONS = ['interrupts are delivered between lines of the package, not inside NumPy, SciPy or JAX calls', 'clean-up code (finally, except) itself is not interrupted']


def cases(tier):
    full = tier != 'quick'
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for p in sorted(seqcases.TABLE):
            for i, (label, make, ops, depth) in enumerate(seqcases.TABLE[p]()):
                for k, op in enumerate(ops):
                    out.append(dict(table=p, entry=i, op=k, after=99 if full else 2))
    out += [dict(kind='cold', index=k, which='%s %s' % (f.__name__, n)) for k, (f, n) in enumerate(COLD)]
    for name in c28.SYSTEMS:
        for setting in ('root', 'newton', 'dynamic', 'weights'):
            if setting == 'root' and name in ('linear', 'slip', 'slip3', 'iwan', 'two slips'):
                continue
            if full or name in ('cubic', 'iwan'):
                out.append(dict(name=name, setting=setting, kind='solve', part=0, of=1))
            if full or (name, setting) in QUICK_RUNS:
                out += [dict(name=name, setting=setting, kind='run', part=k, of=8) for k in range(8)]
    return out


QUICK_RUNS = [('cubic', 'dynamic'), ('cubic', 'root'), ('iwan', 'newton'), ('cubic', 'weights')]
START = {}


def run(case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    if 'table' in case:
        label, make, ops, depth = seqcases.TABLE[case['table']]()[case['entry']]
        with contextlib.redirect_stdout(io.StringIO()):
            if ops[case['op']][1] == 'q':
                faults.explore(rec, make, ops, case['op'], case['table'] + ' ' + label, ROOT, after=case['after'])
            else:
                faults.mutators(rec, make, ops, case['op'], case['table'] + ' ' + label, ROOT)
        return
    (cold if case['kind'] == 'cold' else analysis)(case, rec)


class Analysis:
    """one system, one solver and one continuation object"""

    def __init__(self, case):
        self.w = w = c28.World(case['name'], case['setting'])
        w.Nt = 16 if case['kind'] == 'run' else 32
        self.kind = case['kind']
        self.F = w.Fs + c28.FM[1] * w.Fd
        self.U = np.linalg.solve(w.E(c28.W[0]), self.F)
        if self.kind == 'run':
            if case['name'] not in START:
                START[case['name']] = w.at(0, 1)
            self.X0 = np.hstack((START[case['name']] + 1e-5 * ref.lattice_vec(w.n, 7), c28.W[0]))
            self.CtoP = hutils.harmonic_wise_conditioning(self.X0, w.nd, w.ha, delta=1e-2) if w.cond else None
            self.keep = [np.copy(x) for x in (self.X0, self.CtoP) if x is not None]
            self.c = Continuation(w.solver, ds0=0.1, CtoP=self.CtoP, config=dict(dict(verbose=-1, dsmax=0.3, dsmin=1e-4, xtol=1e-10), **w.cfg))

    def go(self):
        w = self.w
        if self.kind == 'solve':
            def fun(U, calc_grad=True):
                return w.vib.hbm_res(np.hstack((U, c28.W[0])), self.F, w.ha, Nt=w.Nt, **c28.kw(calc_grad))[:2 if calc_grad else 1]
            U, R, J, sol = w.solver.nsolve(fun, self.U, verbose=False, xtol=1e-11)
            return np.asarray(U)

        def fun(X, calc_grad=True):
            return w.vib.hbm_res(X, self.F, w.ha, Nt=w.Nt, **c28.kw(calc_grad))
        return self.c.continuation(fun, self.X0, c28.W[0], 0.9)


def analysis(case, rec):
    want = Analysis(case).go()
    o = Analysis(case)
    log = faults.traced(o.go, ROOT)
    pts = faults.points(log, case['kind'] == 'solve')[case['part']::case['of']]
    for at in pts:
        o = Analysis(case)
        try:
            faults.traced(o.go, ROOT, at)
            rec.outcome('interrupt swallowed')
            continue
        except faults.Stop:
            pass
        where = lambda: '%s: interrupted before %s %s line %d' % ((case,) + (os.path.basename(log[at - 1][0]),) + log[at - 1][1:])
        if o.kind == 'run':
            rec.expect(all(np.array_equal(a, b) for a, b in zip(o.keep, [x for x in (o.X0, o.CtoP) if x is not None])), 'arrays of the caller modified by an interrupted analysis', where)
        got = o.go()
        rec.step()
        rec.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-10), 'interrupted analysis changes the next one', lambda: '%s: got %s, want %s' % (where(), got, want))
        rec.state(case['name'], case['setting'], case['kind'], log[at - 1])
        rec.trace()
    rec.sample('%s: %d of about %d interrupt points' % (case, len(pts), case['of'] * len(pts)))


# --- first use: every interrupt in a process of its own, so that nothing has been computed before

COLD = [(f, n) for f, n in c30.KINDS if f in (c30.inst, c30.hyst, c30.hyst_aft, c30.functions, c30.shooting) or n in ('smooth', 'slip')]


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = fn()
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def cold_child(k, full):
    """runs in a process that has not used the package yet; every evaluation is made in a fork of it"""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    keep = os.dup(1)
    os.dup2(2, 1)
    f, n = COLD[k]
    make, ops, _ = f(n)
    want = [forked(lambda: seqs.flat(op[1](make(0)))) for op in ops]
    bad, count, lines = [], 0, []
    for i, (name, fn) in enumerate(ops):
        if name.startswith('jax'):
            continue
        log = forked(lambda: faults.traced(lambda: fn(make(0)), ROOT))
        pts = faults.points(log, False)
        lines.append((name, len(pts)))
        for at in pts:
            def go():
                try:
                    faults.traced(lambda: fn(make(0)), ROOT, at)
                    return None
                except faults.Stop:
                    pass
                return [(j, seqs.flat(ops[j][1](make(v)))) for j in {i, (i + 1) % len(ops)} if not ops[j][0].startswith('jax') for v in (0,)]
            got = forked(go)
            count += 1
            if got is None:
                continue
            if isinstance(got, tuple):
                bad.append('%s %s: %s interrupted before %s %s line %d, then %s' % ((n, f.__name__, name, os.path.basename(log[at - 1][0])) + log[at - 1][1:] + (got,)))
                continue
            for j, g in got:
                if not c30.same(g, want[j], 1e-12):
                    bad.append('%s %s: first use (%s) interrupted before %s %s line %d; then %s of a new object gives %s, undisturbed %s' % ((f.__name__, n, name, os.path.basename(log[at - 1][0])) + log[at - 1][1:] + (ops[j][0], g, want[j])))
    with os.fdopen(keep, 'w') as out:
        out.write(json.dumps(dict(bad=bad[:5], count=count, lines=lines)))


def cold(case, rec):
    code = 'import sys; sys.path[:0] = %r; from checks import c29; c29.cold_child(%d, %d)' % (sys.path, case['index'], 0)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    assert r.returncode == 0, 'cold run failed: ' + r.stderr.decode()[-400:]
    d = json.loads(r.stdout)
    for b in d['bad']:
        rec.expect(False, 'an interrupted first use changes later answers', lambda: b)
    rec.step(2 * d['count'])
    for name, m in d['lines']:
        for k in range(m):
            rec.state('cold', case['which'], name, k)
            rec.trace()
    rec.sample('%s first use: %s' % (case['which'], d['lines']))
