"""
Runs under LD_PRELOAD=shim.so.  argv: <shim.so> <scratch dir> <job json>.  Explores every crash point of
continuation_save: for each file-modifying call (and torn prefix of each write) a forked child is ended
there; the parent inspects the file, continues saving and, at depth 2, crashes again.
"""
import ctypes
import json
import os
import shutil
import sys

shim = ctypes.CDLL(sys.argv[1])
shim.shim_names.restype = ctypes.c_char_p
root, job = sys.argv[2], json.loads(sys.argv[3])
sys.path.insert(0, job['repo'])
import numpy as np
from tmdsimpy.utils import continuation as cu

N = job['N']
res = dict(fails=[], points=0, forks=0, states=[], ops='')


def point(i):
    x = np.sin(np.arange(N + 1) * (i + 1.0)) * 10.0 ** (i % 5 - 2)
    d = np.cos(np.arange(N + 1) + i)
    if i == 0:
        d = d * np.nan
    return x, d


def save(fname, i):
    x, d = point(i)
    cu.continuation_save(x, d, fname)


def crashed_save(fname, i, k, torn):
    """-> 'crash' | 'done' | 'error'"""
    sys.stdout.flush()
    pid = os.fork()
    res['forks'] += 1
    if pid == 0:
        code = 1
        try:
            shim.shim_arm(k, torn)
            save(fname, i)
            shim.shim_disarm()
            code = 0
        except BaseException:
            shim.shim_disarm()
            code = 2
        os._exit(code)
    st = os.waitpid(pid, 0)[1]
    code = os.waitstatus_to_exitcode(st)
    return {77: 'crash', 0: 'done'}.get(code, 'error %d' % code)


def count_ops(fname, i):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        shim.shim_arm(-1, 0)
        save(fname, i)
        n = shim.shim_disarm()
        os.write(w, b'%d %s' % (n, shim.shim_names()))
        os._exit(0)
    os.close(w)
    os.waitpid(pid, 0)
    out = os.read(r, 65536).decode()
    os.close(r)
    n, _, names = out.partition(' ')
    return int(n), names.split()


def load(fname):
    """-> list of stored rows, or None if the file is absent; raises when unreadable"""
    if not os.path.exists(fname):
        return None
    with np.load(fname, allow_pickle=False) as f:
        return np.array(f['XlamP']), np.array(f['dirP_prev'])


def holds(fname, idx):
    """does the file hold exactly the points idx?"""
    got = load(fname)
    if not idx:
        return got is None
    if got is None:
        return False
    want = [np.array([point(i)[j] for i in idx]) for j in (0, 1)]
    return all(np.array_equal(g, w, equal_nan=True) for g, w in zip(got, want))


def judge(fname, options, what):
    try:
        for o in options:
            if holds(fname, o):
                return o
        got = load(fname)
        res['fails'].append('%s: file holds %s, allowed %s' % (what, 'nothing' if got is None else 'array %s %s' % (got[0].shape, got[0][:, -1].tolist()), options))
    except Exception as e:
        res['fails'].append('%s: file cannot be loaded: %s: %s (points %s were saved before)' % (what, type(e).__name__, str(e)[:120], options[0]))
    return None


def restore(snap, d):
    shutil.rmtree(d)
    shutil.copytree(snap, d)


def explore(d, fname, before, nxt, depth, what):
    """crash the save of point nxt at every point; before = indices stored so far"""
    snap = d + '.snap%d' % depth
    if os.path.exists(snap):
        shutil.rmtree(snap)
    shutil.copytree(d, snap)
    n, names = count_ops(fname, nxt)
    res['ops'] = ' '.join(names)
    for k in range(n):
        for torn in ((0, 1, 2, 3) if names[k].startswith('write') or names[k] == 'pwrite' else (0,)):
            restore(snap, d)
            out = crashed_save(fname, nxt, k, torn)
            res['points'] += 1
            here = '%s; save of point %d killed at call %d (%s, part %d)' % (what, nxt, k, names[k], torn)
            if out != 'crash':
                res['fails'].append(here + ': run ended with ' + out)
                continue
            state = judge(fname, [before, before + [nxt]], here)
            if state is None:
                if len(res['fails']) > 4:
                    return
                continue
            res['states'].append([len(before), k, torn, len(state), depth])
            if depth > 1:
                explore(d, fname, state, nxt + 1, depth - 1, here)
                restore(snap, d)
                crashed_save(fname, nxt, k, torn)
            # life goes on
            try:
                for more in (nxt + 1, nxt + 2):
                    save(fname, more)
                    state = state + [more]
                judge(fname, [state], here + '; then two more saves')
            except Exception as e:
                res['fails'].append('%s; the next save raised %s: %s' % (here, type(e).__name__, e))
    restore(snap, d)
    shutil.rmtree(snap)


d = os.path.join(root, 'w')
os.makedirs(d)
fname = os.path.join(d, job['name'])
final = fname if fname.endswith('.npz') else fname + '.npz'
before = []
for i in range(job['before']):
    save(fname, i)
    before.append(i)
explore(d, fname, before, job['before'], job['depth'], 'file with %d points of %d unknowns' % (job['before'], N + 1))
print(json.dumps(res))
