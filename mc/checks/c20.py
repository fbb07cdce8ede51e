"""
C20: callbacks of continuation.  Append histories are enumerated in-process; crash points are enumerated by
mc/crash: the save runs in a forked child with every file-modifying libc call numbered, and is ended at each
of them (writes also torn).
"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import ref
from tmdsimpy.utils import continuation as cu

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = 'C20'
LEVEL = 'model_checking'
CASE_LIMIT = 800
RULE = ('crash points: every file-modifying libc call of a save (open-create, write, rename, unlink, truncate, sync, ...) with writes torn after 0, 1, half, all-but-one bytes, for files with 0-3 earlier points and small/large '
        'points, each followed by two more saves; two crashes in a row for files with 0-1 (thorough 0-2) points. Append histories: all sequences of length <= 4 over {finite, nan, extreme, other} points. Printed statistics: '
        'all harmonic sets within {0..3}, derivative orders, DOF selections and lists of 0-3 outputs, fresh and existing files. State = (points in file, crash call, torn part, surviving state); transition = one save or print.')
ASSUMPTIONS = ['process kill: data handed to the kernel survives (no power loss)', 'one process writes the file', 'printed values are compared to their printed precision']


def cases(tier):
    out = [dict(kind='append', n=n, ext=e) for n in (1, 2, 5) for e in ('.npz', '')]
    out += [dict(kind='combine')]
    for f in ('epmc', 'amp', 'ampphase', 'vprnm', 'vprnmap'):
        out += [dict(kind='print', fun=f, nd=nd) for nd in (1, 2, 3)]
    for b in range(4):
        for N in (2, 900):
            out.append(dict(kind='crash', before=b, N=N, depth=1, name='s.npz'))
    out += [dict(kind='crash', before=b, N=N, depth=2, name='s.npz') for b in (range(2) if tier == 'quick' else range(3)) for N in (2, 900)]
    if tier != 'quick':
        out += [dict(kind='crash', before=b, N=N, depth=1, name='s.npz') for b in (5, 20) for N in (1, 20, 5000)]
    return out


def run(case, rec):
    d = tempfile.mkdtemp(prefix='c20-')
    try:
        globals()['run_' + case['kind']](case, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_append(case, rec, d):
    n = case['n']
    base = ref.lattice_vec(n + 1, 3)
    letters = {'f': lambda i: (base * (i + 1), -base + i), 'n': lambda i: (base * (i + 2), base * np.nan), 'N': lambda i: (base * np.nan, base),
               'x': lambda i: (base * 1e300 + i, np.where(np.arange(n + 1) % 2 == 0, -0.0, 5e-324))}
    for L in (1, 2, 3, 4):
        for seq in itertools.product('fnNx', repeat=L):
            name = os.path.join(d, 'data' + case['ext'])
            rows = []
            for i, c in enumerate(seq):
                x, dd = letters[c](i)
                x_, d_ = x.copy(), dd.copy()
                cu.continuation_save(x_, d_, name)
                rows.append((x, dd))
                rec.step()
                where = lambda: 'n=%d name %r sequence %s' % (n, case['ext'], ''.join(seq[:i + 1]))
                rec.expect(np.array_equal(x, x_, equal_nan=True) and np.array_equal(dd, d_, equal_nan=True), 'arguments modified', where)
                if i == L - 1:
                    with np.load(os.path.join(d, 'data.npz'), allow_pickle=False) as f:
                        for j, key in enumerate(('XlamP', 'dirP_prev')):
                            want = np.array([r[j] for r in rows])
                            rec.expect(f[key].shape == want.shape and f[key].tobytes() == want.tobytes(), 'stored %s' % key, lambda: where() + ' %s' % f[key])
            rec.state(n, seq)
            rec.trace()
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))


def run_combine(case, rec, d):
    for k in range(5):
        log = []
        X, D = np.arange(3.0), np.arange(3.0) * np.nan
        r = cu.combine_callback_funs([(lambda a, b, i=i: log.append((i, a is X, b is D))) for i in range(k)], X, D)
        rec.expect(log == [(i, True, True) for i in range(k)], 'combined callbacks', log)
        rec.step()
        rec.state(k)
    rec.trace()


def fmt_ok(cell, value, spec):
    try:
        v = float(cell)
    except ValueError:
        return False
    if np.isnan(value):
        return np.isnan(v)
    if spec == 'f':
        return abs(v - value) <= 0.5005e-3 + 1e-12 * abs(value)
    return abs(v - value) <= 0.5005e-3 * abs(v) + 1e-300


def run_print(case, rec, d):
    nd, kind = case['nd'], case['fun']
    hs = [np.array(h) for k in range(1, 5) for h in itertools.combinations(range(4), k)]
    recs = [np.eye(nd)[i] for i in range(nd)] + [ref.lattice_vec(nd, 5)]
    fname = os.path.join(d, 'out.dat')
    for h in hs:
        nhc = int(h.size * 2 - (0 in h))
        for order in (0, 1, 2, 3):
            for seed, w in ((1, 3.7), (2, 812.5)):
                U = ref.lattice_vec(nhc * nd, seed) * 1.7

                def amp(rv, m, w):
                    i0 = int(2 * (h < m).sum() - (0 in h and m > 0))
                    a = rv @ U[i0 * nd:(i0 + 1) * nd]
                    b = 0.0 if m == 0 else rv @ U[(i0 + 1) * nd:(i0 + 2) * nd]
                    return np.hypot(a, b) * (m * w) ** order
                rows = []
                tail = np.array([1.25, -0.75, 0.5])
                if kind == 'epmc':
                    xi, la = 0.03 * seed, -3.25 + seed
                    X = np.r_[U, w, xi, la]
                    rows.append((lambda: cu.print_epmc_stats(X, X * 0, fname), [(la, 'f'), (w / (2 * np.pi), 'f'), (xi / (2 * w), 'e')], ()))
                elif kind in ('amp', 'ampphase'):
                    for rv in recs:
                        for m in h:
                            if kind == 'amp':
                                X = np.r_[U, 17.5 * seed, w]
                                rows.append((lambda X=X, rv=rv, m=m: cu.print_hbm_amp_stats(X, X * 0, fname, h, order, rv, m),
                                             [(w / (2 * np.pi), 'f'), (17.5 * seed, 'f'), (amp(rv, m, w), 'e')], (order,)))
                            else:
                                X = np.r_[U, 2.5 * seed, -4.75, 99.0]
                                rows.append((lambda X=X, rv=rv, m=m: cu.print_hbm_amp_phase_stats(X, X * 0, fname, w, 6.25, h, order, rv, m),
                                             [(w / (2 * np.pi), 'f'), (6.25, 'f'), (2.5 * seed, 'e'), (-4.75, 'e'), (amp(rv, m, w), 'e')], (order,)))
                else:
                    outs = [(rv, int(m)) for rv in recs for m in h]
                    lists = [[]] + [[o] for o in outs] + [[a, b] for a, b in zip(outs, outs[1:] + outs[:1])] + [[outs[0], outs[-1], outs[len(outs) // 2]]]
                    for ls in lists:
                        vals = [(amp(rv, m, w), 'e') for rv, m in ls]
                        if kind == 'vprnm':
                            X = np.r_[U, w, 17.5 * seed]
                            rows.append((lambda X=X, ls=ls: cu.print_vprnm_stats(X, X * 0, fname, h, order, ls), [(17.5 * seed, 'f'), (w / (2 * np.pi), 'f')] + vals, ls))
                        else:
                            X = np.r_[U, 2.5 * seed, -4.75, w, 3.5]
                            rows.append((lambda X=X, ls=ls: cu.print_vprnm_amp_phase_stats(X, X * 0, fname, h, 2, order, ls),
                                         [(3.5, 'f'), (2.5 * seed, 'f'), (-4.75, 'f'), (w / (2 * np.pi), 'f')] + vals, ls))
                for call, want, info in rows:
                    if os.path.exists(fname):
                        os.remove(fname)
                    where = lambda: '%s nd=%d h=%s order=%d %s' % (kind, nd, h.tolist(), order, info)
                    nhead = 2 if kind in ('vprnm', 'vprnmap') else 1
                    for rep in (1, 2):
                        call()
                        lines = open(fname).read().split('\n')
                        rec.expect(lines[-1] == '' and len(lines) == nhead + rep + 1, 'number of lines', lambda: where() + ' %s' % lines)
                        cells = [[c.strip() for c in l.split('&')] for l in lines[:-1]]
                        rec.expect(all(len(c) == len(want) for c in cells), 'columns', lambda: where() + ' %s' % lines)
                        for c, (v, spec) in zip(cells[-1], want):
                            rec.expect(fmt_ok(c, v, spec), 'printed value', lambda: where() + ' printed %s, value %r' % (c, v))
                        rec.step()
                    if nhead == 2:
                        k0 = len(want) - len(info)
                        for j, (rv, m) in enumerate(info):
                            rec.expect(cells[1][k0 + j] == 'dof=%d, h=%d' % (j, m), 'column label', lambda: where() + ' %s' % cells[1])
                        rec.expect(all(c == '' for c in cells[1][:k0]), 'column label', lambda: where() + ' %s' % cells[1])
                    # columns line up
                    pos = [[i for i, ch in enumerate(l) if ch == '&'] for l in lines[:-1]]
                    rec.expect(len({len(p) for p in pos}) == 1, 'columns', where)
                    rec.state(kind, nd, h.tolist(), order, len(want))
                    rec.trace()


def run_crash(case, rec, d):
    so = os.path.join(d, 'shim.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'crash', 'shim.c'), '-ldl'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    job = dict(case, repo=os.environ.get('TMDSIMPY_REPO', '/repo'))
    work = os.path.join(d, 'run')
    os.makedirs(work)
    env = dict(os.environ, LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'crash', 'server.py'), so, work, json.dumps(job)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        rec.fail('crash run', 'a save failed without any crash: ' + p.stderr[-600:])
        return
    r = json.loads(p.stdout.strip().split('\n')[-1])
    rec.step(r['forks'])
    rec.trace(r['points'])
    for s in r['states']:
        rec.state(case['N'], *s)
        rec.outcome('old' if s[3] == s[0] else 'new')
    rec.sample('%d crash points, calls of one save: %s' % (r['points'], r['ops']))
    rec.expect(r['points'] > 0, 'no crash point found', r['ops'])
    for f in r['fails'][:4]:
        rec.fail('crash leaves the file unusable', f)
