"""
Which lines and branch directions of the package did the explorations execute?
  MC_COVER=/tmp/cov ./check C05 quick   (for any checks)
  /opt/venv/bin/python tools/cover.py /tmp/cov [/repo]
"""
import dis
import glob
import os
import sys
import types

cov, repo = sys.argv[1], (sys.argv[2:] + ['/repo'])[0]
lines, br = set(), set()
for f in glob.glob(cov + '/*'):
    for l in open(f):
        t = l.split()
        if t[0] == 'L':
            lines.add((t[1], int(t[2])))
        else:
            br.add((t[1], t[2], int(t[3]), int(t[4]), int(t[5])))


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


tot = miss = 0
for root, _, fs in sorted(os.walk(repo + '/tmdsimpy')):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        path = os.path.join(root, f)
        rel = os.path.relpath(path, repo + '/tmdsimpy')
        src = open(path).read().split('\n')
        top = compile(open(path).read(), path, 'exec')
        for c in codes(top):
            if c is top:
                continue
            off2line = {}
            cur = None
            for i in dis.get_instructions(c):
                if i.starts_line:
                    cur = i.starts_line
                off2line[i.offset] = cur
            want = set(x for x in (l for _, _, l in c.co_lines()) if x and x > c.co_firstlineno)
            un = sorted(n for n in want if (rel, n) not in lines and n - 1 < len(src))
            tot += len(want)
            miss += len(un)
            for n in un:
                print('%s:%d [%s] %s' % (rel, n, c.co_qualname, src[n - 1].strip()[:110]))
            seen = {}
            for (r, q, fl, off, dest) in br:
                if r == rel and q == c.co_qualname and fl == c.co_firstlineno:
                    seen.setdefault(off, set()).add(dest)
            for off, ds in sorted(seen.items()):
                if len(ds) == 1:
                    n = off2line.get(off)
                    d = list(ds)[0]
                    print('%s:%d [%s] ONE WAY -> line %s: %s' % (rel, n, c.co_qualname, off2line.get(d), src[n - 1].strip()[:100]))
print('lines %d not executed %d' % (tot, miss))
