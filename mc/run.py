import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('TMDSIMPY_REPO', '/repo')
FAILFAST = bool(os.environ.get('MC_FAILFAST'))     # stop at the first failing case (mutation runs)
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)

import core  # noqa: E402
import defcases  # noqa: E402
import seqcases  # noqa: E402


def case_text(case):
    return json.dumps(case, sort_keys=True, default=core.jsonable)


def worker(modname, tier, idx, nworkers, deadline, outq):
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull            # the code under test prints; only the parent reports
    if not os.environ.get('MC_DEBUG'):
        sys.stderr = devnull
    agg = dict(states=set(), steps=0, traces=0, outcomes=set(), samples=[], done=0, capped=False,
               fails=[], error=None, slow=[])
    try:
        if os.environ.get('MC_COVER'):      # lines of the package executed by the exploration (tools/cover.py)
            import cover
            cover.start(REPO, os.path.join(os.environ['MC_COVER'], '%s-%d' % (modname, idx)))
        mod = importlib.import_module('checks.' + modname)
        cases = core.all_cases(mod, tier)
        limit = getattr(mod, 'CASE_LIMIT', 120)
        mine = range(idx, len(cases), nworkers)
        for k in mine:
            if time.time() > deadline:
                agg['capped'] = True
                break
            t0 = time.time()
            rec = core.run_case(mod, cases[k], limit)
            agg['slow'].append((time.time() - t0, k))
            agg['states'] |= rec.states
            agg['steps'] += rec.steps
            agg['traces'] += rec.traces
            agg['outcomes'] |= rec.outcomes
            if len(agg['samples']) < 2:
                agg['samples'] += rec.samples[:1]
            agg['done'] += 1
            for key, msg in rec.fails:
                agg['fails'].append((k, key, msg))
            if len(set(f[0] for f in agg['fails'])) >= (1 if FAILFAST else getattr(mod, 'STOP_AFTER', 12)):
                agg['capped'] = True
                break
    except BaseException as e:      # the framework itself failed
        import traceback
        agg['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    agg['slow'] = sorted(agg['slow'], reverse=True)[:5]
    if os.environ.get('MC_COVER'):
        cover.dump()
    outq.put((idx, agg))


def main():
    args = sys.argv[1:]
    prop = args[0]
    modname = prop.lower()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if len(args) > 1:
        if args[1] == '--replay':
            replay = args[2]
        else:
            tier = args[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    if replay:
        mod = importlib.import_module('checks.' + modname)
        data = json.load(open(replay))
        # first the case alone, then with the calls that preceded it in its worker process
        rec = core.run_case(mod, data['case'], 600)
        if not rec.fails and data.get('history'):
            print('replay: silent alone, replaying the %d preceding cases too' % len(data['history']))
            for c in data['history']:
                core.run_case(mod, c, 600)
            rec = core.run_case(mod, data['case'], 600)
        for key, msg in rec.fails:
            print('REPRODUCED %s: %s' % (key, msg))
        print('replay: %d failure(s)' % len(rec.fails))
        sys.exit(1 if rec.fails else 0)

    mod = importlib.import_module('checks.' + modname)
    assert mod.ID == prop
    cases = core.all_cases(mod, tier)
    nw = max(1, min(int(os.environ.get('MC_WORKERS', getattr(mod, 'WORKERS', 8))), len(cases)))
    budget = 800 if tier == 'quick' else 6 * 3600
    budget = float(os.environ.get('MC_BUDGET', budget))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    outq = ctx.Queue()
    procs = [ctx.Process(target=worker, args=(modname, tier, i, nw, deadline, outq)) for i in range(nw)]
    for p in procs:
        p.start()
    results = {}
    dead = []
    while len(results) + len(dead) < nw:
        try:
            i, agg = outq.get(timeout=1.0)
            results[i] = agg
            if FAILFAST and (agg['fails'] or agg['error']):
                for p in procs:
                    p.kill()
                break
        except Exception:
            for i, p in enumerate(procs):
                if i not in results and i not in dead and not p.is_alive():
                    try:
                        while True:
                            j, agg = outq.get(timeout=2.0)
                            results[j] = agg
                    except Exception:
                        pass
                    if i not in results:
                        dead.append(i)
            if time.time() > deadline + 60:
                for p in procs:
                    if p.is_alive():
                        p.kill()
                dead = [i for i in range(nw) if i not in results]
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()

    states, outcomes = set(), set()
    steps = traces = done = 0
    samples, fails, errors, slow = [], [], [], []
    capped = False
    for i in sorted(results):
        a = results[i]
        states |= a['states']
        outcomes |= a['outcomes']
        steps += a['steps']
        traces += a['traces']
        done += a['done']
        samples += a['samples']
        capped = capped or a['capped']
        slow += a['slow']
        fails += a['fails']
        if a['error']:
            errors.append(a['error'])
    for i in dead:
        errors.append('worker %d ended without an answer' % i)

    known = [k for k in core.load_findings(os.path.join(ROOT, 'known-findings.txt')) if k['property'] == prop]
    hit, new = {}, []
    for k, key, msg in sorted(fails):
        ct = case_text(cases[k])
        match = [f for f in known if f['key'] == key and f['case'] == ct]
        if match:
            hit[match[0]['key'] + match[0]['case']] = match[0]
        else:
            new.append((k, key, msg))
    for f in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    evdir = os.path.join(ROOT, 'evidence')
    repdir = os.path.join(evdir, 'replay')
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(repdir, f))
    rc = 0
    seen = set()
    for k, key, msg in new:
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        path = os.path.join(repdir, '%s-%d.json' % (prop, len(seen)))
        json.dump(dict(property=prop, key=key, message=msg, case=cases[k],
                       history=[cases[j] for j in range(k % nw, k, nw)][-200:]),
                  open(path, 'w'), indent=1, default=core.jsonable)
        print('  %s | case %d %s | %s' % (key, k, core.short(case_text(cases[k]), 300), msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for e in errors:
        # the exploration could not be carried through: that is no evidence that the property holds
        path = os.path.join(repdir, '%s-error.txt' % prop)
        open(path, 'w').write(e)
        print('  exploration aborted: ' + core.short(e, 1500))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1

    wall = time.time() - t0
    exhaustive = (not capped) and (not errors) and done == len(cases)
    cov = dict(states=len(states), transitions=steps, traces_validated_against_impl=traces,
               evaluations=steps, distinct_nontrivial=len(states), cases=len(cases), cases_done=done,
               distinct_outcomes=len(outcomes), rule=mod.RULE + (seqcases.TEXT if prop in seqcases.TABLE else '') + (defcases.TEXT if prop in defcases.TABLE else ''), samples=samples[:6] or ['-'],
               exhaustive=exhaustive)
    if mod.LEVEL == 'model_checking':
        del cov['evaluations'], cov['distinct_nontrivial']
    else:
        del cov['states'], cov['transitions'], cov['traces_validated_against_impl']
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len(set(n[1] for n in new)) + len(errors))
    tmp = os.path.join(evdir, '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1, default=core.jsonable)
    os.replace(tmp, os.path.join(evdir, prop + '.json'))
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%s %.1fs'
          % (prop, tier, done, len(cases), len(states), steps, traces, len(outcomes), exhaustive, wall))
    if os.environ.get('MC_DEBUG'):
        for s, k in sorted(slow, reverse=True)[:5]:
            print('   slow %.2fs case %d %s' % (s, k, core.short(case_text(cases[k]), 200)))
    if not exhaustive and rc == 0:
        print('  note: time cap reached, explored %d of %d cases' % (done, len(cases)))
    sys.exit(rc)


if __name__ == '__main__':
    main()
