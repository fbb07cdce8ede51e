"""Hidden state: every sequence of calls on one object gives what a fresh object gives.

ops is a list of (name, kind, function); kind 'q' (query: returns arrays, must not change
any later answer) or 'm' (mutator: changes the documented state).  All sequences of the
given depth are run on ONE object; the answer of every query is compared with the answer of
a fresh object to which only the mutators so far were applied.
"""
import itertools

import numpy as np


def flat(r):
    if r is None:
        return []
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in flat(y)]
    return [np.array(r, dtype=float)]


PASSED = []
MODE = ['plain']
COUNT = [0]


def A(x, ro=True, num=True, own=True):
    """An array handed to the code under test; the 'caller' may scribble over it after the call.  Depending on the
    mode it is plain, stored in column order or strided (and read-only), or holds whole numbers (as float / int; not if num=False).  own=False: the object may keep it."""
    a = np.array(x)
    mode = MODE[0]
    if mode == 'whole' or mode[:3] == 'int':
        if a.dtype.kind == 'f' and num:
            a = np.rint(2 * a)
            if mode == 'int' or mode == 'int%d' % COUNT[0]:     # all arrays, or only one of them
                a = a.astype(int)
            COUNT[0] += 1
    elif mode == 'jax':                      # what the package's own JAX solver hands to a residual function
        if a.dtype.kind == 'f' and COUNT[0] == 0:
            import tmdsimpy.jax.solvers          # (double precision)
            import jax.numpy as jnp
            COUNT[0] += 1
            return jnp.asarray(a)
    elif mode == 'column':
        a = np.array(a, order='F')
        a.flags.writeable = not ro
    elif mode == 'strided' and a.ndim:
        big = np.zeros([2 * k + 1 for k in a.shape], dtype=a.dtype)
        big[tuple(slice(1, None, 2) for _ in a.shape)] = a
        a = big[tuple(slice(1, None, 2) for _ in a.shape)]
        a.flags.writeable = not ro
    if own:
        PASSED.append((a, np.array(a)))
    return a


def scribble(arrays):
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size and a.dtype.kind in 'fi':
            a[...] = 7


def arrays(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in arrays(y)]
    return [r] if isinstance(r, np.ndarray) else []


def explore(rec, make, ops, depth, label, rtol=1e-12, atol=1e-13, keep=None, ints=True, jax=True):
    memo = {}

    def fresh(muts, k):
        key = (muts, k, MODE[0] == 'whole')
        if key not in memo:
            o = make()
            for m in muts:
                ops[m][2](o)
            memo[key] = flat(ops[k][2](o))
        return memo[key]

    n = 0
    space = [(seq, '') for seq in itertools.product(range(len(ops)), repeat=depth)]
    # the caller also owns what it passed and what it got back, and may reuse those arrays; it may also store
    # them in another order, or as whole numbers
    for how in ('reuse', 'column', 'strided') + (('int',) if ints else ()):
        space += [(seq, how) for seq in itertools.product(range(len(ops)), repeat=min(depth, 2))]
    if ints:
        space += [((i,), 'int%d' % k) for i in range(len(ops)) for k in range(6)]
    if jax:
        space += [(seq, 'jax') for seq in itertools.product(range(len(ops)), repeat=min(depth, 2))]
    try:
        for seq, how in space:
            if keep is not None and not keep([ops[i] for i in seq]):
                continue
            if ops[seq[-1]][1] != 'q':
                continue
            MODE[0] = how if how in ('column', 'strided') or how[:3] == 'int' else 'plain'
            if how[:3] == 'int' and how != 'int':
                MODE[0] = 'whole'
            o = make()
            muts = ()
            kept = []
            reuse = how == 'reuse'
            for pos, k in enumerate(seq):
                name, kind, fn = ops[k]
                where = lambda: '%s%s: %s' % (label, TEXT[how], ' ; '.join(ops[i][0] for i in seq[:pos + 1]))
                del PASSED[:]
                COUNT[0] = 0
                MODE[0] = how if how in ('column', 'strided', 'jax') or how[:3] == 'int' else 'plain'
                got = fn(o)
                MODE[0] = 'plain'
                for a, b in PASSED:
                    rec.expect(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'), 'arrays of the caller modified', where)
                if reuse:
                    scribble([a for a, b in PASSED])
                if kind == 'm':
                    muts += (k,)
                    continue
                rec.step()
                MODE[0] = 'whole' if how[:3] == 'int' else 'plain'
                want = fresh(muts, k)
                MODE[0] = 'plain'
                raw = got
                got = flat(got)
                if not reuse:
                    kept.append((name, raw, got))
                if not rec.expect(len(got) == len(want), 'answers depend on earlier calls', where):
                    break
                bad = False
                for a, b in zip(got, want):
                    same = a.shape == b.shape and bool(np.array_equal(np.isnan(a), np.isnan(b)))
                    if same and a.size:
                        d = np.abs(np.nan_to_num(a) - np.nan_to_num(b))
                        same = bool(np.all(d <= atol + rtol * max(1.0, float(np.max(np.abs(np.nan_to_num(b)))))))
                    if not same:
                        rec.fail(KEY[how], '%s: got %s, a fresh object gives %s' % (where(), a, b))
                        bad = True
                        break
                if bad:
                    break
                if reuse:
                    scribble(arrays(raw))
            for name, raw, was in kept:
                rec.expect(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(flat(raw), was)), 'a later call overwrites a returned result',
                           lambda: '%s: result of %s after %s' % (label, name, [ops[i][0] for i in seq]))
            n += 1
            rec.trace()
    finally:
        MODE[0] = 'plain'
    rec.state('sequences', label, depth, n)
    rec.sample('%s: all %d call sequences of length %d over %s' % (label, n, depth, [o[0] for o in ops]))


_D = 'answers depend on earlier calls'
TEXT = {'': '', 'reuse': ', caller reuses its arrays', 'column': ', read-only arrays in column order', 'strided': ', read-only strided arrays', 'int': ', whole numbers in integer arrays', 'jax': ', first array of the call as a JAX array'}
TEXT.update({'int%d' % k: ', whole numbers, integers in array %d of the call' % k for k in range(6)})
KEY = {'': _D, 'reuse': _D, 'column': 'answer depends on the memory layout', 'strided': 'answer depends on the memory layout', 'int': 'answer depends on the number type', 'jax': 'answer depends on the kind of array'}
KEY.update({'int%d' % k: KEY['int'] for k in range(6)})
