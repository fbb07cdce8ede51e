#!/opt/venv/bin/python
"""Systematic small edits of the package, to find behaviour no check looks at (development tool, no check uses it).

usage: mutate.py list REPO                        all edits, one per line
       mutate.py run REPO COVDIR OUT N SEED [PAR]  try N of them (spread over the files) with the checks whose exploration executes the line
"""
import ast, glob, os, random, shutil, subprocess, sys, threading, json, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('plot', '__init__.py')
SWAP = {'sin': 'cos', 'cos': 'sin', 'real': 'imag', 'imag': 'real', 'max': 'min', 'min': 'max', 'maximum': 'minimum', 'minimum': 'maximum', 'argmax': 'argmin', 'argmin': 'argmax',
        'hstack': None, 'zeros_like': 'ones_like', 'zeros': 'ones', 'floor': 'ceil', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'any': 'all', 'all': 'any'}


def edits(src):
    """-> list of (line, start, end, new text, what)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what, span=None):
        a, b = span or pos(n)
        out.append((n.lineno, a, b, new, what))

    def op_span(left, right, ops):
        a, b = pos(left)[1], pos(right)[0]
        t = raw[a:b].decode()
        for o in ops:
            k = t.find(o)
            if k >= 0:
                return a + k, a + k + len(o)
        return None
    BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*')}
    CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '==')}

    def visit(n, infun):
        if isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name in ('print', 'warn', 'format', 'jit', 'partial', 'set_title', 'set_xlabel', 'set_ylabel'):
                return
            if infun and SWAP.get(name):
                if isinstance(f, ast.Name):
                    add(f, SWAP[name], name)
                else:
                    a, b = pos(f)
                    add(f, SWAP[name], name, (b - len(name), b))
            if infun and name in ('copy', 'abs', 'conj', 'transpose', 'squeeze') and len(n.args) == 1:
                add(n, text(n.args[0]), 'drop ' + name)
            if infun and name in ('hstack', 'vstack', 'concatenate') and n.args and isinstance(n.args[0], (ast.Tuple, ast.List)) and len(n.args[0].elts) == 2:
                e = n.args[0].elts
                add(n.args[0], '(%s, %s)' % (text(e[1]), text(e[0])), 'swap stack')
            if infun:
                for k in n.keywords:
                    if k.arg and not (isinstance(k.value, ast.Name) and k.value.id == k.arg and False):
                        prev = raw[:pos(k)[0]].rstrip()
                        if prev.endswith(b','):
                            add(k, '', 'drop keyword ' + k.arg, (len(prev) - 1, pos(k)[1]))
        if infun:
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                o, w = BIN[type(n.op)]
                s = op_span(n.left, n.right, [o])
                if s and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, w, o + '->' + w, s)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
                s = op_span(n.left, n.right, ['@'])
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                if type(n.ops[0]) in CMP:
                    o, w = CMP[type(n.ops[0])]
                    s = op_span(n.left, n.comparators[0], [o])
                    if s:
                        add(n, w, o + '->' + w, s)
                        if o in '<=>=':
                            add(n, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, w), o + ' reversed', s)
                if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                    add(n, 'not (%s)' % text(n), 'negate')
            if isinstance(n, ast.BoolOp):
                o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                s = op_span(n.values[0], n.values[1], [o])
                if s:
                    add(n, w, o + '->' + w, s)
            if isinstance(n, ast.UnaryOp):
                if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                    add(n, '(%s)' % text(n.operand), 'drop minus')
                if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
                    add(n, '(%s)' % text(n.operand), 'drop minus')
                if isinstance(n.op, ast.Not):
                    add(n, '(%s)' % text(n.operand), 'drop not')
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                if n.value is True or n.value is False:
                    add(n, str(not n.value), 'bool')
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), '%d->%d' % (n.value, n.value + 1))
                    if n.value > 0:
                        add(n, str(n.value - 1), '%d->%d' % (n.value, n.value - 1))
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 2 if n.value else 1.0), 'float')
            if isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
                add(n, text(n.value), 'drop .T')
            if isinstance(n, ast.AugAssign):
                a, b = pos(n.target)[1], pos(n.value)[0]
                t = raw[a:b].decode()
                o = {ast.Add: '+=', ast.Sub: '-=', ast.Mult: '*='}.get(type(n.op))
                if o and o in t:
                    add(n, '=', o + ' -> =', (a + t.find(o), a + t.find(o) + 2))
                    add(n, {'+=': '-=', '-=': '+=', '*=': '/='}[o], o + ' other', (a + t.find(o), a + t.find(o) + 2))
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                nm = text(n)
                if not nm.startswith(('print', 'warnings', 'ax.', 'plt.', 'fig')):
                    add(n, 'pass', 'delete statement')
            if isinstance(n, ast.If) and not n.orelse and not 'verbose' in text(n.test) and not 'silent' in text(n.test):
                add(n.test, 'False', 'if False')
            if isinstance(n, (ast.Break, ast.Continue)):
                add(n, 'pass', 'no break')
        inner = infun or isinstance(n, (ast.FunctionDef, ast.Lambda))
        body = list(ast.iter_child_nodes(n))
        if isinstance(n, ast.FunctionDef):
            body = n.body
            for d in n.args.defaults:
                visit(d, True)
        for c in body:
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c, inner)
    visit(tree, False)
    good = []
    for e in out:
        new = raw[:e[1]] + e[3].encode() + raw[e[2]:]
        try:
            ast.parse(new.decode())
        except Exception:
            continue
        good.append(e)
    return good


def files(repo):
    for f in sorted(glob.glob(repo + '/tmdsimpy/**/*.py', recursive=True)):
        if not any(s in os.path.relpath(f, repo) for s in SKIP):
            yield f


def main():
    repo = sys.argv[2].rstrip('/')
    allm = []
    for f in files(repo):
        src = open(f).read()
        for e in edits(src):
            allm.append((os.path.relpath(f, repo + '/tmdsimpy'),) + e)
    if sys.argv[1] == 'list':
        from collections import Counter
        c = Counter(m[0] for m in allm)
        for k, v in c.items():
            print(v, k)
        print(len(allm))
        return
    cov, out, N, seed = sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
    par = int(sys.argv[7]) if len(sys.argv) > 7 else 3
    hit = {}
    for f in glob.glob(cov + '/c*'):
        c = os.path.basename(f).split('-')[0].upper()
        for l in open(f):
            if l[0] == 'L':
                _, fn, n = l.split()
                hit.setdefault((fn, int(n)), set()).add(c)
    cost = json.load(open(os.path.join(HERE, 'tools', 'cost.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'cost.json')) else {}
    rnd = random.Random(seed)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    pool = [m for m in allm if (m[0], m[2], m[3], m[4]) not in done]
    rnd.shuffle(pool)
    pool = pool[:N]
    lock = threading.Lock()

    def work(k):
        base = '/tmp/mut/w%d' % k
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree(HERE + '/mc', base + '/vw/mc', ignore=shutil.ignore_patterns('__pycache__'))
        for f in ('check', 'known-findings.txt'):
            shutil.copy2(HERE + '/' + f, base + '/vw/' + f)
        shutil.copytree(repo, base + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__', 'examples', 'docs'))
        while True:
            with lock:
                if not pool:
                    return
                m = pool.pop()
            fn, line, a, b, new, what = m
            path = base + '/repo/tmdsimpy/' + fn
            raw = open(repo + '/tmdsimpy/' + fn, 'rb').read()
            open(path, 'wb').write(raw[:a] + new.encode() + raw[b:])
            cs = set()
            for d in (0, 1, -1, 2, -2, 3, -3):
                cs = hit.get((fn, line + d), set())
                if cs:
                    break
            if fn == 'jax/solvers.py':
                cs = {'C15', 'C16', 'C17', 'C18', 'C19'}
            ran, caught = [], None
            t0 = time.time()
            for c in sorted(cs, key=lambda c: cost.get(c, 30)):
                env = dict(os.environ, TMDSIMPY_REPO=base + '/repo', MC_FAILFAST='1', MC_WORKERS='3', MC_BUDGET='420')
                try:
                    p = subprocess.run(['nice', '-n', '19', base + '/vw/check', c, 'quick'], env=env, capture_output=True, text=True, timeout=600)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                ran.append(c)
                if rc != 0:
                    caught = c if rc == 1 else '%s(%s)' % (c, rc)
                    break
            open(path, 'wb').write(raw)
            src = raw.decode().splitlines()[line - 1].strip()
            with lock:
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(file=fn, line=line, a=a, b=b, new=new, what=what, src=src, caught=caught, ran=ran, s=round(time.time() - t0, 1))) + '\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
