"""Writes DESIGN.md: fixed text below + what each check module states about itself + seeded bugs + repaired defects.
Run: python3 tools/design.py   (after tools/gen.py; numbers come from the last quick runs in evidence/)"""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Model checking tmdsimpy

## Approach

tmdsimpy is a sequential numerical library. What it does is decided by operation histories on stateful objects (friction
elements, systems, solvers, continuation), by the answers of a nonlinear solver or of a user function, by the moment a
process is killed while saving, and by a large configuration space (harmonic sets x DOFs x element mixtures x options).
All of these are explored by **stateless explicit-state model checking of the real code**: a check module lists a bounded
space completely (`cases(tier)`), and for every case executes the real implementation in lock step with a small reference
model written from the documented definitions (`mc/ref.py`, `mc/systems.py`, `mc/roms.py`, or inside the check). Nothing is
sampled; the deciding step is the enumeration. The only approximations are finite lattices for continuous inputs (chosen
to hit every branch, tie and corner) and floating-point tolerances. Both are stated in the evidence of each run.

**Binding of model and code.** There is no separate model that could drift: every transition of the reference model is
executed on the real code in the same step and the results are compared. `traces_validated_against_impl` in the evidence
counts the complete sequences replayed that way. The checks use only the public API, so that refactorings stay quiet.

**Environment answers as the explored nondeterminism.** Where the behaviour depends on something outside the function,
that something is scripted and all its answers are enumerated: convergence of the solver (C15), residual and Jacobian values
(C17), directional residuals along the search line (C18), file-system calls and torn writes (C20), exceptions of user
functions at every call (C15, C17), a keyboard interrupt before every executed line of the package (C29), a complete call of another
object between any two lines (C30, one preemption).

**Hidden state.** For every property with callable objects, `mc/seqs.py` additionally runs *all* call sequences up to
length 3 over an alphabet of queries and mutators with equally sized but different arguments on ONE object, and compares every
answer with that of a fresh object that only saw the mutators (differential oracle, no expected value needed). The same
sequences are repeated with a caller that overwrites everything it passed and got back (aliasing), with read-only arrays in column
order, with read-only strided views, with whole numbers stored as integers instead of floats, and with the first array of
each call as a JAX array (what the package's own Newton solver hands to a residual function). Arguments must never be
modified and earlier results never overwritten.

## Files

* `check` - entry: `./check C05 quick|thorough`, `./check C05 --replay evidence/replay/C05-1.json` (one counterexample again)
* `mc/run.py` - distributes the cases over 8 forked workers, writes evidence and replay files, prints VIOLATION lines
* `mc/core.py` - recorder (states, transitions, traces, outcomes), oracle helpers, known findings
* `mc/ref.py`, `mc/elems.py`, `mc/systems.py`, `mc/roms.py` - reference models: Fourier basis by its defining sums, harmonic projection of
  the equation of motion, slider networks and their steady cycle, element laws, complex-arithmetic reduced models
* `mc/seqs.py`, `mc/seqcases.py` - call sequences for hidden state, aliasing, memory layout and number type
* `mc/defcases.py` - documented default values: each optional argument left out alone and all together, against passing all of them
* `mc/faults.py` - line tracer for C29 and C30: numbers the executed lines of the package in a call, and raises an interrupt, or executes a complete call of another object, before the chosen one
* `mc/crash/` - `shim.c` numbers the file-modifying libc calls of a child process and ends it at the chosen one (writes torn),
  `server.py` forks one child per crash point
* `mc/cover.py`, `tools/cover.py` - which lines and branch directions of the package an exploration executed (used to find blind spots)
* `tools/gen.py` - properties.jsonl and MANIFEST.json from one table; `tools/plant.py` - confirms planted bugs; `tools/design.py` - this file
* `tools/mutate.py` - systematic small changes of every executable expression (operators, constants, signs, arguments), run against the stable tests and the checks of the covering properties; survivors were read one by one
* `known-findings.txt` - repaired defects and recorded findings

Sandbox safety: the code under test writes files only in C20, below a directory made by `tempfile.mkdtemp` and removed at the end.

## Properties and how each is decided

Costs are wall times of the quick tier on 8 idle cores. The thorough tier uses the same code with larger bounds (given in brackets in the rules).
'''

TAIL = '''
## Not applicable

None: every listed property is decided by bounded exhaustive exploration. What the technique cannot say is the behaviour between
lattice points of continuous inputs. The lattices are dense enough to include every branch combination of the code; within one branch
the functions are smooth and mostly polynomial, so a wrong formula shows at lattice points.

## Bounds that matter

* Gradients at exact ties (slider exactly at its limit, contact exactly touching, equal maxima) are not compared; one-sided values are accepted.
* Numeric tolerance is usually 1e-8 relative or tighter, looser where the quantity itself is only approximate (numerical integration in time in C14: 1e-5; gradients through square roots in C25: 1e-6).
* The crash model is a killed process; data handed to the kernel survives. Power loss is not modelled.

## Behaviour looked at and deliberately not claimed

* Numpy Jenkins/Iwan periodic evaluation overwrites the static history (a later static call needs `init_history`, as documented); `JenkinsForce.force`
  before `init_history` raises. Periodic results after static history are claimed (C05).
* The JAX vectorised Jenkins is demonstration code with a fixed reversal count; it is compared on cycles within that count. JAX Jenkins elements have no
  `local_force_history` and are not part of C27.
* `HystereticForce.aft` and the JAX Jenkins elements have no `calc_grad` option (documented as future work), so gradient skipping is claimed for the other elements only.
* `CubicDamping.force` takes velocities, so static residual (C13) and shooting (C14) claim displacement-dependent elements only.
* Harmonic sets without the zeroth harmonic do not define the mean of slider forces; only the other components are compared.
* `zero_crossing` ignores sign changes through exact zeros (statement of C27 excludes them). `linear_frf` with a zero natural frequency gives nan.
* `predict_harmonic_solution` for plain 'HBM' needs `fmag`. `RoughContactFriction.local_force_history` uses `unlth0` although its text says it is ignored.
* `time_series_deriv` is documented for even sample counts. `lin_factor` of the base solver returns the matrix itself, systems and elements keep references to the matrices they are given: changing these afterwards is the caller's doing.
* The line search at an exact zero at the full step, an infinite Jacobian with finite residual, and scipy's "not making good progress" message at an exact root are outside C17/C18.
* JAX elements with integer matrices and integer displacements, and `lin_factored_solve` of the JAX solver with an integer right-hand side, refuse with a TypeError.

## False alarms that were corrected in the machinery

* C16 first used scipy's solver everywhere; at an exact root it may report "not making good progress", which truthfully ends a run. It now uses the plain Newton solver and the package's own Newton solver.
* C24/C25 gradients at exact ties were compared at first; they are now excluded, except where the force is identically constant and the derivative is therefore defined.
* C27 compared the constant part of slider forces for harmonic sets without zero; it is undefined there and no longer compared.
* Sequences scribbled over matrices that objects legitimately keep (constructor, `set_new_C`); those are now handed over for good (`own=False`).
'''


def literal(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    fixed = [l[7:].strip() for l in open(os.path.join(ROOT, 'known-findings.txt')) if l.startswith('fixed:')]
    seeded = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        seeded.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    table = literal(os.path.join(ROOT, 'tools', 'design_cost.py'), 'COST') if os.path.exists(os.path.join(ROOT, 'tools', 'design_cost.py')) else {}
    seqt = open(os.path.join(ROOT, 'mc', 'seqcases.py')).read()
    deft = open(os.path.join(ROOT, 'mc', 'defcases.py')).read().split('TABLE =')[1]
    out = [HEAD]
    for p in props:
        i = p['id']
        path = os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')
        out.append('\n### %s %s\n' % (i, p['title']))
        out.append('* Claim: %s' % p['statement'])
        out.append('* Enumerated, oracle and state: %s%s' % (literal(path, 'RULE'), (' Plus call sequences for hidden state (see above).' if re.search(r"\b%s\b" % i, seqt) else '') + (' Plus documented default values.' if re.search(r"\b%s\b" % i, deft) else '')))
        a = literal(path, 'ASSUMPTIONS')
        if a:
            out.append('* Assumed: %s.' % '; '.join(a))
        if i in table:
            out.append('* Cost of the quick tier: %s.' % table[i])
        out.append('* Beyond the tests: %s' % p['why_tests_cant'])
        fx = [x for x in fixed if x.startswith('property=' + i)]
        for x in fx:
            out.append('* Defect found and repaired: %s' % re.sub(r'^property=\S+ ', '', x))
        if i in seeded:
            out.append('* Planted bugs (all caught by this check unless marked): %s.' % '; '.join('`%s` (needs: %s)%s' % (n, m['needs'], ' **MISSED**' if m.get('missed') else '') for n, m in seeded[i]))
    out.append(TAIL)
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
