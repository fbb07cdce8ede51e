#!/opt/venv/bin/python
"""Confirm planted bugs in scratch copies of /repo and keep them in /verif/seeded.

usage: plant.py BATCH.py [id ...]     BATCH.py defines BUGS, a list of dicts:
  id, property, edits=[(file, old, new), ...], needs, breaks, demo (python source)
For every bug: copy /repo, edit, check that only original lines are removed, run
the stable tests, the demonstration with and without the change, and the check.
"""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell',
           MPLCONFIGDIR='/tmp/mpl')
PY = '/opt/venv/bin/python'
BASE = '7bd7197'
PRE = '''import sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
import warnings; warnings.filterwarnings('ignore')

def check(name, got, want, tol=1e-8):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ok = got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol)
    if not ok:
        print('FAILED', name, 'got', got, 'want', want)
        sys.exit(1)

'''
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def plant(b):
    root = '/tmp/plants/' + b['id']
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    W = root + '/repo'
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W, check=True)
    out = dict(id=b['id'])
    try:
        removed = {}
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            # white space between tokens does not matter
            rx = r'(?:\s|\\\n)*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]', old))
            ms = list(re.finditer(rx, s))
            if len(ms) != 1:
                return dict(out, error='%d matches in %s for %r' % (len(ms), f, old[:80]))
            m = ms[0]
            tail = '' if not new.endswith('\n') else ''
            open(p, 'w').write(s[:m.start()] + new.strip() + tail + s[m.end():])
        diff = sh(['git', 'diff'], W)[1]
        # removed lines must be original
        orig = set()
        for f in {e[0] for e in b['edits']}:
            orig |= {l.strip() for l in sh(['git', 'show', BASE + ':' + f], W)[1].splitlines()}
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not rem or not any(l in orig for l in rem):
            return dict(out, error='removes no original line')
        d = os.environ.get('VW','/verif')+'/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(PRE + b['demo'].lstrip('\n') + "print('ok')\n")
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        r0, o0 = sh(['bash', d + '/demo.sh'], '/repo', timeout=300)
        r1, o1 = sh(['bash', d + '/demo.sh'], W, timeout=300)
        out.update(demo_base=r0, demo_bug=r1, demo_out=(o0[-400:] if r0 else o1[-200:]))
        env = dict(ENV, TMDSIMPY_REPO=W)
        rc, co = sh([os.environ.get('VW','/verif')+'/check', b['property'], 'quick'], os.environ.get('VW','/verif')+'', env)
        m = re.search('VIOLATION property=%s.*' % b['property'], co)
        out.update(check=rc, violation=bool(m))
        if not m:
            out['check_out'] = co[-600:]
        fails = []
        dirs = sorted({os.path.dirname(os.path.join(dp, x)) for dp, _, fs in os.walk(W + '/tests') for x in fs
                       if x.startswith('test_') and x.endswith('.py')})
        env = dict(ENV, PYTHONPATH=W)
        procs = []
        for td in dirs:
            procs.append((td, subprocess.Popen('timeout 600 %s -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=%s -W ignore ./test_*.py' % (PY, W),
                                               shell=True, cwd=td, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        npass = 0
        for td, p in procs:
            o = p.communicate()[0]
            fails += re.findall(r'^(?:FAILED|ERROR) .*', o, re.M)
            m = re.search(r'(\d+) passed', o)
            npass += int(m.group(1)) if m else 0
        out.update(tests='%d passed' % npass, failed=[x[:150] for x in fails])
        out['OK'] = r0 == 0 and r1 not in (0, 'timeout') and not fails and npass >= 177
        if not out['OK']:
            shutil.move(d, root + '/rejected')
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return out


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    res = []
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(plant, bugs):
            good = r.get('OK')
            print(('KEPT  ' if good else 'REJECT'), 'caught' if r.get('violation') else 'MISSED', json.dumps(r), flush=True)
