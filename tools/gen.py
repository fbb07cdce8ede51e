"""Writes properties.jsonl and MANIFEST.json from the table below.  Run: python3 tools/gen.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOHIST = 'Existing tests fix one or two systems, harmonic sets and amplitudes and compare with stored numbers or finite differences; '
MC = 'bounded exhaustive exploration of the real code (stateless explicit-state model checking) in lock step with a reference model'

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, tech=MC, note='', level='model_checking'):
    m = [dict(name=n, where=w) for n, w in mech]
    a = dict(files=files, mechanism=m)
    if state:
        a['state'] = [dict(name=n, meaning=mm, where=w) for n, mm, w in state]
    P.append(dict(d=dict(id=id, title=title, statement=statement,
                         quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
                  tech=tech, note=note, level=level))


T = 'tmdsimpy/'
prop('C01', 'Harmonic transforms agree with the Fourier series and invert each other',
     'For every sorted harmonic set and number of time samples, the time series generated from harmonic coefficients (and its '
     'first, second and higher time derivatives) is the real Fourier series evaluated at the uniform instants, in both the numpy '
     'and the JAX variants. Extracting coefficients from a series returns the exact coefficients of every signal resolved by the '
     'sampling, ignores harmonics that were not requested, and the component count and derivative matrices match that ordering.',
     ['inputs', 'configurations'], 'all harmonic subsets of {0..H}, all power-of-two lengths that resolve them, every unit coefficient, 1-3 DOFs, derivative orders 0-4',
     NOHIST + 'a missing zeroth harmonic, gaps in the set, the Nyquist boundary and derivative orders are combinations no test sweeps.',
     [T + 'utils/harmonic.py', T + 'jax/harmonic_utils.py', T + 'harmonic_utils.py'],
     [('FFT coefficient placement', T + 'utils/harmonic.py time_series_deriv, get_fourier_coeff, Nhc, harmonic_stiffness')])

prop('C02', 'Dynamic stiffness is the harmonic projection of the equation of motion',
     'For every mass, damping and stiffness matrix, frequency and harmonic set, the dynamic stiffness maps harmonic coefficients of '
     'any motion to the harmonic coefficients of M x\'\' + C x\' + K x for that motion. The returned frequency derivative is its exact '
     'derivative, and skipping the gradient never changes the matrix.',
     ['inputs', 'configurations'], 'all harmonic subsets of {0..H}, unit and structured asymmetric matrices of size 1-3, frequencies incl. 0 and negative',
     NOHIST + 'all pairs of harmonic set and asymmetric matrix entry have to be right.',
     [T + 'utils/harmonic.py'], [('block assembly over harmonics', T + 'utils/harmonic.py harmonic_stiffness')])

prop('C03', 'Conditioning vectors scale each harmonic by its own magnitude, never below the floor',
     'The harmonic conditioning vector has one positive entry per unknown; all components of one harmonic share one value, the mean '
     'absolute value of that harmonic in the reference vector but never below the supplied floor, and each trailing extra unknown '
     'gets its own absolute value with its own floor. This is the same for a scalar floor and for a vector of floors, and for any number of DOFs, harmonics and extra unknowns.',
     ['inputs', 'configurations'], 'all harmonic subsets of {0..3}, 1-3 DOFs, 0..6 extra unknowns, every zero/small/large magnitude pattern per harmonic, scalar and vector floors',
     NOHIST + 'the number of trailing unknowns relative to the number of DOFs is never varied.',
     [T + 'utils/harmonic.py'], [('per harmonic averaging', T + 'utils/harmonic.py harmonic_wise_conditioning')])

prop('C04', 'Static friction elements follow the spring-slider state machine for every history',
     'For every sequence of displacements and commit decisions, the static force of the spring-slider elements (single slider, vectorised, '
     'and four-parameter distributed slider versions) is that of the same network of springs in series with Coulomb sliders, with its exact tangent. '
     'Evaluations that do not commit leave no trace, commits advance the state, and re-initialising restores the virgin state.',
     ['histories', 'inputs'], 'all operation sequences (evaluate, evaluate+commit, re-initialise, set start displacement) up to a depth over a displacement alphabet that hits stick, slip and the exact limit',
     'Tests drive one or two monotone histories; memory effects depend on the whole sequence of calls.',
     [T + 'nlforces/jenkins_element.py', T + 'nlforces/vector_jenkins.py', T + 'nlforces/iwan4_element.py', T + 'nlforces/vector_iwan4.py'],
     [('stick prediction and slip correction', T + 'nlforces/jenkins_element.py force'), ('slider discretisation', T + 'nlforces/iwan4_element.py __init__, force')],
     [('up, fp, fxy', 'displacement and slider forces after the last commit', T + 'nlforces/jenkins_element.py init_history')])

prop('C05', 'Periodic friction forces are the steady-state hysteresis cycle with exact gradients',
     'For every periodic displacement, the harmonic force of the spring-slider elements is the projection of the steady-state (fully '
     'converged, transient free) hysteresis cycle of the same spring-slider network, whichever implementation computes it and whatever happened to the element before. The returned '
     'derivatives are the derivatives of that force with respect to every harmonic coefficient wherever it is differentiable.',
     ['inputs', 'histories'], 'all displacement cycles of N samples on a lattice with ties and plateaus; all coefficient vectors on a lattice for several harmonic sets; earlier static history',
     'Tests compare a few smooth large-amplitude cycles; ties with the slip limit, plateaus, cycles ending at zero force and sub-slip cycles are special paths.',
     [T + 'nlforces/nonlinear_force.py', T + 'nlforces/jenkins_element.py', T + 'nlforces/vector_jenkins.py', T + 'nlforces/iwan4_element.py',
      T + 'nlforces/vector_iwan4.py', T + 'jax/nlforces/jenkins_element.py', T + 'jax/nlforces/vector_jenkins.py'],
     [('cycle repetition until steady', T + 'nlforces/nonlinear_force.py HystereticForce.local_force_history'),
      ('reversal-only evaluation', T + 'nlforces/vector_jenkins.py, ' + T + 'nlforces/vector_iwan4.py local_force_history')])

prop('C06', 'Distributed-slider model, its virgin loading curve and conservative version agree',
     'The distributed slider element\'s parameters mean what they say: initial stiffness is the tangential stiffness and the force saturates at the '
     'slip force beyond the last slider, both up to the discretisation error of the slider count, and the loading curve is monotone with a non-increasing tangent and odd. The conservative backbone element equals the '
     'virgin loading curve of the continuous distribution for every displacement and sign, with its exact tangent, and unloading/reloading obeys Masing\'s rules.',
     ['inputs', 'configurations', 'histories'], 'a lattice of parameters (stiffness, slip force, exponent, stick ratio, slider counts, spacings) times a displacement lattice through the corner; loading-unloading sequences',
     'Tests use one parameter set and check a few displacement values.',
     [T + 'nlforces/iwan4_element.py', T + 'nlforces/iwan_bb_conserve.py', T + 'nlforces/vector_iwan4.py'],
     [('density discretisation', T + 'nlforces/iwan4_element.py __init__'), ('closed form backbone', T + 'nlforces/iwan_bb_conserve.py local_force_history')])

prop('C07', 'Instantaneous elements evaluate their documented law and exact tangent in every state',
     'For every displacement and velocity vector, the cubic, quintic, cubic-damping, unilateral and general-polynomial elements return the documented force law mapped '
     'through their input and output matrices, with the exact derivative (one-sided at a contact corner). The pointwise evaluation and the evaluation along a time '
     'history agree and are independent of earlier calls.',
     ['inputs', 'configurations', 'histories'], 'a displacement/velocity lattice crossing every corner, matrices with 1-3 local and global DOFs, parameter lattices with signs and offsets',
     'Tests compare a handful of states on single-DOF elements.',
     [T + 'nlforces/cubic_stiffness.py', T + 'nlforces/quintic_stiffness.py', T + 'nlforces/cubic_damping.py', T + 'nlforces/unilateral_spring.py',
      T + 'nlforces/general_poly_stiffness.py', T + 'nlforces/nonlinear_force.py', T + 'vibration_system.py'],
     [('element laws', T + 'nlforces/*.py force, local_force_history')])

prop('C08', 'Harmonic force of instantaneous elements is the projected law with exact gradients',
     'For every harmonic coefficient vector, frequency and harmonic set, the harmonic force of an instantaneous (memoryless) element equals the Fourier projection of its law along the motion, mapped '
     'to global DOFs. The returned derivatives with respect to every coefficient and to frequency are exact, and requesting no gradient returns the same force.',
     ['inputs', 'configurations'], 'all coefficient vectors on a lattice for several harmonic sets (with and without zeroth harmonic), frequencies, multi-DOF matrices, all element types',
     NOHIST + 'single coefficient vectors cannot show that all harmonic pairs are mapped correctly.',
     [T + 'nlforces/nonlinear_force.py', T + 'utils/harmonic.py'] + [T + 'nlforces/' + f for f in ('cubic_stiffness.py', 'quintic_stiffness.py', 'cubic_damping.py', 'unilateral_spring.py', 'general_poly_stiffness.py', 'iwan_bb_conserve.py')],
     [('alternating frequency/time', T + 'nlforces/nonlinear_force.py InstantaneousForce.aft')])

prop('C09', 'Harmonic balance residual is the projected equation of motion with exact Jacobians',
     'For every state, frequency, forcing and harmonic set, the harmonic balance residual equals the harmonic projection of the equation of motion with all nonlinear forces minus the '
     'supplied forcing. Its derivatives with respect to the unknowns and to frequency are exact, for any mixture of memoryless and hysteretic elements, and evaluating it never depends on or alters earlier evaluations.',
     ['inputs', 'configurations', 'histories'], 'all subsets of a pool of nonlinear elements, harmonic sets, lattice states and frequencies, gradient requested or not, repeated evaluation orders',
     NOHIST + 'the combinations of several elements and harmonic sets are not sampled.',
     [T + 'vibration_system.py', T + 'nlforces/nonlinear_force.py'], [('assembly', T + 'vibration_system.py hbm_res, total_aft')])

prop('C10', 'Nonlinear modal (EPMC) residual matches its defining equations with exact Jacobians',
     'For every amplitude, frequency, damping and mode shape, the extended periodic motion residual equals the self-excited equation of motion (damping reduced by xi times mass, constant force only on the '
     'zeroth harmonic) plus the amplitude normalisation and phase conditions. Derivatives with respect to all unknowns and to the log amplitude are exact, and with no nonlinear force the linear modes and their modal damping are exact solutions at every amplitude.',
     ['inputs', 'configurations'], 'all harmonic subsets with the first harmonic, element subsets, amplitude decades, lattice shapes, frequency/damping signs',
     NOHIST + 'derivatives are sampled at one state.',
     [T + 'vibration_system.py'], [('residual', T + 'vibration_system.py epmc_res')])

prop('C11', 'Phase-resonance (VPRNM) residual matches its defining equations with exact Jacobians',
     'For every state, force magnitude and frequency, the variable-phase-resonance residual equals the forced harmonic balance equation plus the phase-quadrature condition between the superharmonic response and the internal '
     'excitation produced by the motion without that harmonic. Its derivatives with respect to all unknowns and to force magnitude are exact for every superharmonic choice and constant force.',
     ['inputs', 'configurations'], 'all superharmonic orders in the set, element subsets, lattice states, constant forces, force patterns',
     NOHIST + 'derivatives are sampled at one state and one superharmonic.',
     [T + 'vibration_system.py'], [('residual', T + 'vibration_system.py vprnm_res')])

prop('C12', 'Amplitude-, phase- and base-controlled harmonic balance are consistent with each other',
     'The amplitude-controlled and phase-controlled harmonic balance residuals equal the forced residual with the force scaled by an unknown plus exactly the documented constraint on the controlled response, and the base-excited residual equals '
     'the forced problem of the prescribed support motion. Jacobians with respect to unknowns, force and frequency are exact for every controlled DOF, harmonic, derivative order and harmonic set.',
     ['inputs', 'configurations'], 'all controlled DOF/harmonic/derivative order choices, base DOF sets, harmonic subsets, lattice states',
     NOHIST + 'each constraint is tested for one configuration.',
     [T + 'vibration_system.py'], [('residuals', T + 'vibration_system.py hbm_amp_control_res, hbm_amp_phase_control_res, hbm_base_res')])

prop('C13', 'Static analysis and system bookkeeping follow the sequence of operations',
     'For every sequence of system operations (adding elements, changing damping, evaluating the static residual, committing or resetting history), the static residual (elements that depend on displacement) is the linear stiffness force plus all current element forces minus the applied force, with the '
     'exact tangent. Evaluations without commit have no side effect, and every damping update leaves matrices and proportional coefficients consistent with each other.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over a small alphabet, on systems with memoryless and hysteretic elements',
     'Tests call these operations once, in one order.',
     [T + 'vibration_system.py', T + 'nlforces/nonlinear_force.py'],
     [('static residual and history calls', T + 'vibration_system.py static_res, set_new_C, update_force_history, reset_real_history, set_prestress_mu, reset_prestress...')],
     [('C, ab, nl_forces', 'linear damping, proportional coefficients, element list', T + 'vibration_system.py')])

prop('C14', 'Shooting residual is the periodicity defect of the true equation of motion',
     'For every linear or memoryless nonlinear system, initial state, frequency and harmonic forcing, the shooting residual is the state after one forcing period minus the initial state, for the equation of motion with all nonlinear forces included. '
     'Its Jacobians are the state transition matrix minus identity and the exact frequency derivative, so that steady states of the system are exactly its zeros and the returned stability multipliers are the Floquet multipliers.',
     ['inputs', 'configurations'], 'element subsets incl. none and several, lattice initial states, frequencies, multi-harmonic forcing',
     'Tests use systems with exactly one nonlinear element.',
     [T + 'vibration_system.py', T + 'postprocess/shooting.py'], [('state space right hand side', T + 'vibration_system.py shooting_res, _shooting_state_space')])

prop('C15', 'Continuation obeys its step-control and termination protocol for every solver outcome',
     'Whatever the sequence of converged and failed solves, continuation stores only converged points in order, starts with the start point, retries a failed step with a smaller step within the configured bounds, grows the step only within its '
     'bounds, and stops at the end parameter, the step limit or exhausted retries. It calls the user callback exactly once per stored point, never alters the caller\'s data or settings, and behaves the same on silent runs and on repeated runs (for problems of any size, also after a run that ended with an error).',
     ['fault_sequences', 'histories', 'configurations'], 'all success/failure/iteration-count answer sequences of the nonlinear solver up to a depth, in all direction/parameterisation/verbosity configurations',
     'Tests run problems whose solves practically always converge, so the failure protocol is untested.',
     [T + 'continuation.py'], [('step loop', T + 'continuation.py Continuation.continuation')],
     [('step, direction', 'current step size and orientation', T + 'continuation.py')])

prop('C16', 'Continuation traces the solution curve, through turning points, in the right direction',
     'For curves known in closed form, every stored point satisfies the residual, consecutive points advance along the curve without reversing or skipping to another parameter direction, the first step moves towards the requested end, and the end parameter is reached or bracketed. '
     'This holds for every parameterisation, predictor, conditioning vector, parameter scaling and step setting, and the tangent and parameterisation Jacobians are exact.',
     ['configurations', 'inputs'], 'a family of analytic curves (lines, folds, loops, multi-dimensional) times all configuration combinations',
     'Tests trace a few curves with one configuration each.',
     [T + 'continuation.py', T + 'solvers.py'], [('predictor, correctors', T + 'continuation.py predict, correct_res, orthogonal_arc_length_res, psuedo_arc_length_res')])

prop('C17', 'The nonlinear solver reports convergence truthfully',
     'For every residual function, tolerance configuration, Jacobian-reuse and line-search setting, a reported success means that the configured tolerance combination was satisfied by the returned iterates, and a failure report means it was not within the iteration budget. '
     'Non-finite residuals never produce a success, the returned residual and Jacobian are those of the returned point or last evaluated point as documented, evaluation counts are correct, and no setting or input of the caller is modified. Printing follows the verbose setting of the call and never changes the result, and settings edited later act like settings given at creation.',
     ['fault_sequences', 'configurations', 'inputs'], 'all tolerance subsets times reuse settings times a family of scripted convergence histories including non-finite answers, in the numpy and JAX variants',
     'Tests only see quadratic convergence to a root with default tolerances.',
     [T + 'solvers.py', T + 'jax/solvers.py'], [('convergence flags', T + 'jax/solvers.py NonlinearSolverOMP.nsolve, ' + T + 'solvers.py NonlinearSolver.nsolve')])

prop('C18', 'Line search returns an improving step within its bracket and budget',
     'For every residual function along the search direction, the line search returns a finite step inside the unit bracket, uses no more than the configured number of trial evaluations, evaluates only points on the search line, and selects the step as the documented bisection rule prescribes. '
     'When the directional residual does not change sign over the full step it returns the full step, so Newton\'s method is unchanged.',
     ['inputs', 'fault_sequences'], 'all sign patterns of the directional residual along the line up to the iteration budget',
     'Tests use one cubic problem.',
     [T + 'jax/solvers.py'], [('bisection', T + 'jax/solvers.py NonlinearSolverOMP.line_search')])

prop('C19', 'Base solver services: linear solves, conditioning and eigenpairs are correct and stateless',
     'Linear solves return the solution of the supplied system for matrix and stored-factor variants, conditioned functions are exactly the scaled versions of the original functions in value and Jacobian for scalar and vector scalings, and generalised eigenpairs are the requested lowest ones, sorted and mass normalised. '
     'No call modifies its arguments or influences a later call.',
     ['histories', 'inputs', 'configurations'], 'all call sequences up to a depth over an alphabet of calls and system sizes; all scalar/vector scaling combinations',
     'Tests call each function once in a process.',
     [T + 'solvers.py'], [('eigs, conditioning wrapper, factorisation reuse', T + 'solvers.py NonlinearSolver')])

prop('C20', 'Continuation callbacks save every point, in order, surviving a crash at any moment',
     'Saving during continuation appends each new point so that the file always contains all points passed to it so far, in order and unaltered, and loading resumes with the same data. If the process is killed at any point of a save, the file holds either the state before or after that save and never loses previously saved points. '
     'Printed statistics report the correct values for every selection of functions, DOFs and harmonics.',
     ['crash_points', 'histories', 'inputs'], 'all append histories up to a depth; every file-system operation of a save as a crash point with torn writes',
     'Tests never crash a save.',
     [T + 'utils/continuation.py'], [('incremental save', T + 'utils/continuation.py continuation_save')])

prop('C21', 'Interpolation of continuation results is exact on what it can represent',
     'Interpolation of continuation results reproduces the stored points exactly and polynomial solution curves of the corresponding order (linear, or cubic with supplied derivatives) exactly, for every requested coordinate between the stored points, in any query order. Requests that the stored points cannot answer (outside their range, non-monotone reference) never yield a made-up number.',
     ['inputs', 'configurations'], 'all monotonicity patterns of stored points up to a length, all query positions at/between/outside nodes',
     'Tests interpolate one smooth branch.',
     [T + 'postprocess/continuation.py'], [('Hermite / linear interpolation', T + 'postprocess/continuation.py')])

prop('C22', 'EPMC reduced-order model reproduces the resonance and frequency response of its modes',
     'The single nonlinear-mode reduced model returns, for every amplitude of the backbone, exactly the frequencies at which the modal equation of motion has the requested force magnitude, with the right phase and physical displacement, and nothing where no response exists. '
     'For linear systems it reproduces the exact modal frequency response.',
     ['inputs', 'configurations'], 'lattices of backbones, force magnitudes, harmonic sets and DOF counts',
     'Tests compare one curve.',
     [T + 'roms/epmc.py'], [('closed form forced response', T + 'roms/epmc.py')])

prop('C23', 'VPRNM reduced-order model superposes fundamental and superharmonic responses correctly',
     'The superharmonic reduced model returns, for every control amplitude, the response obtained by the documented superposition of the primary-mode and superharmonic-mode contributions, evaluated with the correct harmonics, phases and frequency mapping. '
     'Results do not depend on how many points or harmonics are stored beyond those used.',
     ['inputs', 'configurations'], 'lattices of synthetic branches, superharmonics, control DOFs',
     'Tests compare one stored example.',
     [T + 'roms/vprnm.py'], [('superposition', T + 'roms/vprnm.py')])

prop('C24', 'Elastic dry-friction contact follows the contact state machine for every history',
     'For every sequence of normal and tangential displacements, the 2D and 3D elastic dry-friction elements return the normal spring force when closed, zero when open, and the tangential force obtained by incrementing from the last committed state and limiting it by friction times the normal force. '
     'This holds for static calls with commits and resets and for periodic motion, where the steady cycle is returned with exact gradients.',
     ['histories', 'inputs'], 'all static operation sequences up to a depth over stick/slip/separation alphabets; coefficient lattices for the periodic force',
     'Tests exercise a single load path.',
     [T + 'jax/nlforces/elastic_dry_fric_2d.py', T + 'jax/nlforces/elastic_dry_fric_3d.py'],
     [('stick prediction, friction limit', T + 'jax/nlforces/elastic_dry_fric_2d.py, elastic_dry_fric_3d.py')],
     [('up, fp', 'displacement and force at the last commit', T + 'jax/nlforces/elastic_dry_fric_2d.py')])

prop('C25', 'Rough contact follows the asperity contact laws for every loading history',
     'For every sequence of normal and tangential displacements, the rough-contact element returns the quadrature over asperity heights of the documented elastic, plastic and unloading contact laws with the tangential slip limit, loading and unloading being decided by the largest committed approach. '
     'Static histories with prestress settings and periodic forces agree with that law, with exact gradients.',
     ['histories', 'inputs', 'configurations'], 'all static operation sequences up to a depth over loading/unloading/sliding alphabets; tangent model and prestress configurations',
     'Tests compare selected load paths with stored references.',
     [T + 'jax/nlforces/roughcontact/rough_contact.py', T + 'jax/nlforces/roughcontact/_asperity_functions.py'],
     [('asperity laws', T + 'jax/nlforces/roughcontact/_asperity_functions.py')])

prop('C26', 'Linear frequency response is the exact solution of the linear harmonic problem',
     'For every linear system with proportional damping, force vector and frequency list, the modal frequency response with all modes solves the harmonic equations at each frequency, with one row per frequency in the documented layout; with fewer modes it is the sum over the lowest modes. '
     'The base excitation response satisfies the equations of the free DOFs when all base DOFs (any number) follow the prescribed motion, including mass, damping and stiffness coupling. '
     'Initial guesses built for frequency, amplitude and amplitude-and-phase control have zero residual for the linear system they are built from, keep the static displacement, and the superharmonic guess solves the linear problem under the nonlinear forces; with fewer modes they are built from the lowest modes alone.',
     ['inputs', 'configurations'], 'systems of 1-4 DOFs incl. repeated frequencies, damping definitions, force patterns, frequencies at, around and far from every resonance, 1..N+1 modes, all base subsets, harmonic sets, control orders and recovery vectors',
     'Tests compare one 3 DOF system with diagonal mass, one base DOF, and two harmonic sets.',
     [T + 'vibration_system.py', T + 'utils/harmonic.py'], [('modal superposition', T + 'vibration_system.py linear_frf, linear_frf_base'), ('linear guesses', T + 'utils/harmonic.py predict_harmonic_solution')])

prop('C27', 'Post-processing of harmonic results is exact for every phase and harmonic set',
     'Wrapping a phase changes it by whole turns and returns a value from -pi up to pi. Subtracting a phase at a chosen harmonic equals shifting the signal in time, for every harmonic set, DOF count, number of rows, per-row phases and trailing entries, and successive rotations add up. '
     'Zero crossings are exactly the indices before a sign change whose value is below the tolerance, for every series without exact zeros. '
     'Recovered local displacements and forces along a cycle equal the force laws along that motion and the contribution of the element to the residual, for memoryless and hysteretic elements with default, unset and set start displacement.',
     ['inputs', 'configurations'], 'phase lattices over several turns, all harmonic subsets, all short sign series, all element types and mixtures with all start displacement options',
     'Tests cover one set of phases in the principal range, two elements, and do not touch wrapping or zero crossings.',
     [T + 'utils/harmonic.py', T + 'postprocess/harmonic.py'],
     [('phase helpers', T + 'utils/harmonic.py shift_pm_pi, rotate_subtract_phase, zero_crossing'), ('local forces', T + 'postprocess/harmonic.py local_harmonic_forces')])

prop('C28', 'Every route of analyses to the same operating point arrives at the same response',
     'For every system, solver and continuation setting, and for every sequence of analyses - frequency continuation, force continuation, amplitude control, amplitude and phase control, amplitude continuation, a direct solve, a linear initial guess - carried out with the same system, solver and continuation objects, '
     'every stored point satisfies the projected equation of motion and the documented constraint of that analysis, the requested end is bracketed, the callback sees exactly the stored points, '
     'and the response reached at a frequency and force level does not depend on the route taken to it.',
     ['histories', 'configurations', 'inputs'], 'all sequences of analyses up to a depth between the points of a frequency and force lattice, for mixtures of elements, harmonic sets, solvers, correctors and conditioning',
     'Tests run each analysis once from one start; composing analyses on shared objects is not tested.',
     [T + 'continuation.py', T + 'solvers.py', T + 'jax/solvers.py', T + 'vibration_system.py', T + 'utils/harmonic.py', T + 'postprocess/continuation.py'],
     [('solver and continuation objects', 'may be used for any number of analyses'), ('rotation', T + 'utils/harmonic.py rotate_subtract_phase'), ('linear guess', T + 'utils/harmonic.py predict_harmonic_solution')])

prop('C29', 'Interrupting a computation at any moment leaves its objects usable',
     'When an evaluation, a solve or a continuation is interrupted (KeyboardInterrupt) at any point of the package, every later call on the same elements, systems, solver and continuation objects returns what it would have returned had the interrupted call never been made, and no array of the caller has been changed (exception: a periodic evaluation of a NumPy friction element uses the static history as its workspace, interrupted or not). '
     'An interrupted change of damping, friction, history or periodic start has its documented effect when it is repeated; after an interrupted commit of a static step, resetting the history restores the documented start.',
     ['fault_sequences', 'histories'], 'an interrupt before every executed line of the package in every query and state change of the call-sequence tables, in solver runs and in whole continuations',
     'No test interrupts a computation.',
     [T + 'continuation.py', T + 'vibration_system.py', T + 'solvers.py', T + 'jax/solvers.py', T + 'nlforces/jenkins_element.py', T + 'nlforces/iwan4_element.py', T + 'jax/nlforces/roughcontact/rough_contact.py'],
     [('objects', 'hold no partial results of an unfinished call'), ('configuration', T + 'continuation.py restores CtoP, RPtoC and FracLam when a run is left early')])

prop('C30', 'Independent objects do not influence each other',
     'Two elements, systems, solvers, continuation objects or saving callbacks, also when built from the same configuration dictionary, the same matrices or the same solver object, answer every call exactly as each of them would if the other did not exist, for every interleaving of their calls, and also when a complete call of one is executed in the middle of a call of the other. '
     'The plain functions of the package give the same answers for one set of arguments whatever other arguments they are called with before or in between. Configuration dictionaries and arrays that two objects were built from are not modified.',
     ['schedules', 'histories', 'configurations'], 'all interleavings of the calls of two objects up to the depth, and one preemption between any two executed lines of the package',
     'Tests use one object at a time.',
     [T + 'nlforces/', T + 'jax/nlforces/', T + 'vibration_system.py', T + 'solvers.py', T + 'jax/solvers.py', T + 'continuation.py', T + 'utils/continuation.py', T + 'utils/harmonic.py', T + 'roms/epmc.py'],
     [('objects', 'own all state they use; no module-level or class-level state depends on the arguments')])


def main():
    done = [p for p in P if os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['d']['id'].lower() + '.py'))]
    todo = [p for p in P if p not in done]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['d']) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['d']['id'], quick_cmd='./check %s quick' % p['d']['id'],
                            thorough_cmd='./check %s thorough' % p['d']['id'], technique=p['tech'], level=p['level'],
                            level_note=p['note'] or 'Every case of the stated bounded space is executed on the real code and compared with an independent reference model; nothing is sampled. Bounds: see the evidence rule and DESIGN.md.')
                       for p in done],
               not_applicable=[dict(property=p['d']['id'], reason='check not built yet') for p in todo],
               notes='DESIGN.md describes each check; known-findings.txt lists repaired and recorded defects.')
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


main()
