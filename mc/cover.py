"""Branch and line record of the package under test (sys.monitoring): start(repo, out), dump()."""
import sys

HIT = set()


def start(repo, out):
    mon = sys.monitoring
    mon.use_tool_id(3, 'mc-cover')
    pre = repo.rstrip('/') + '/tmdsimpy/'
    HIT.clear()
    both = {}
    HIT.add(('out', out))

    def line(code, n):
        if code.co_filename.startswith(pre):
            HIT.add((code.co_filename[len(pre):], n))
        return mon.DISABLE

    def branch(code, off, dest):
        if code.co_filename.startswith(pre):
            HIT.add((code.co_filename[len(pre):], code.co_qualname, code.co_firstlineno, off, dest))
            d = both.setdefault((code, off), set())
            d.add(dest)
            return None if len(d) < 2 else mon.DISABLE
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.register_callback(3, mon.events.BRANCH, branch)
    mon.set_events(3, mon.events.LINE | mon.events.BRANCH)


def dump():
    out = [h for h in HIT if h[0] == 'out'][0][1]
    with open(out, 'w') as f:
        for h in sorted(h for h in HIT if h[0] != 'out' and len(h) == 2):
            f.write('L %s %d\n' % h)
        for h in sorted(h for h in HIT if len(h) == 5):
            f.write('B %s %s %d %d %d\n' % h)
