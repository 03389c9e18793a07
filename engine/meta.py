"""Property texts; `python3 engine/meta.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
P = []
NA = {}
def p(id, title, statement, over, text, why, files, mech, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na: NA[id] = na
    else: NOTE[id] = note
NOTE = {}
L = 'libmpdata++/'
p('C01', 'Advection on a cyclic domain conserves the total amount of the advected field',
  'On a domain that is periodic in every dimension, a time step leaves the sum over the distinct grid cells of (density/metric factor times advected field) unchanged, for every supported combination of advection options, number of corrective iterations and number of dimensions. Only round-off may change it.',
  ['inputs', 'configurations', 'histories'], 'all grid sizes >= 4 per dimension, all field and Courant-number values (periodic), all positive metric factors, any option combination accepted by the scheme, 1 to 3 dimensions',
  'The tests compare a few runs with stored output or sample one Gaussian; conservation for every field, flow, size and option combination is a universal statement.',
  [L + 'solvers/detail/mpdata_osc_1d.hpp', L + 'solvers/detail/mpdata_osc_2d.hpp', L + 'solvers/detail/mpdata_osc_3d.hpp', L + 'formulae/donorcell_formulae.hpp', L + 'formulae/mpdata/', L + 'bcond/cyclic_1d.hpp', L + 'bcond/cyclic_2d.hpp', L + 'bcond/cyclic_3d.hpp'],
  [('flux-form update', L + 'formulae/donorcell_formulae.hpp donorcell_sum'), ('identical fluxes on both sides of the periodic boundary', L + 'bcond/cyclic_common.hpp, cyclic_*d.hpp fill_halos_vctr_alng_cyclic'), ('limited antidiffusive flux', L + 'solvers/detail/mpdata_fct_*d.hpp')],
  'Proved for all sizes and all data per listed (dimension, options, iterations) unit; cells are telescoped face by face.')
p('C02', 'Boundary fills give every ghost value its stated value and touch nothing else',
  'For cyclic, open, rigid (free-slip), ground-sky and polar boundaries, each ghost value of a scalar, pressure, velocity, flux or stress field equals the stated function of interior values (periodic image, edge value or zero, mirror image with the right sign, linear extrapolation, image across the pole), on either side and in every dimension alike. Every other value of the array keeps its content.',
  ['inputs', 'configurations'], 'all array contents, all grid sizes, both sides, every dimension, halo widths 1 and 2, 1 to 3 dimensions',
  'The unit test on boundary conditions only runs the solver with each kind on one small grid and checks no ghost value; the two-sided symmetry over all sizes and data is a universal statement.',
  [L + 'bcond/' + f for f in ('cyclic_1d.hpp', 'cyclic_2d.hpp', 'cyclic_3d.hpp', 'open_1d.hpp', 'open_2d.hpp', 'open_3d.hpp', 'rigid_2d.hpp', 'rigid_3d.hpp', 'gndsky_2d.hpp', 'gndsky_3d.hpp', 'polar_2d.hpp', 'polar_3d.hpp')],
  [('halo ranges', L + 'bcond/detail/bcond_common.hpp'), ('fill_halos_* of each boundary class', L + 'bcond/*.hpp')],
  'Postcondition and frame of every fill_halos_* function proved for all sizes and contents; thread rank 0 of 1.')
p('C03', 'Antidiffusive corrections follow the published scheme in every dimension',
  'The first-pass upwind flux, the corrective (antidiffusive) Courant numbers and the flux limiter equal the published MPDATA formulae for every supported option set (standard and divergence form, third-order terms, infinite-gauge, sign-safe absolute values, metric factors, flow divergence, perturbed denominators). The formula is the same for each dimension: each one is the same expression with the axes relabelled.',
  ['inputs', 'configurations'], 'all field, Courant-number and metric-factor values, all grid sizes, each dimension, each listed option set, 1 to 3 dimensions',
  'Tests compare a handful of runs with stored output; a wrong coefficient, sign or neighbour in one branch of one dimension is a statement about all inputs and option sets.',
  [L + 'formulae/mpdata/', L + 'formulae/donorcell_formulae.hpp', L + 'formulae/idxperm.hpp'],
  [('antidiffusive velocities', L + 'formulae/mpdata/formulae_mpdata_*d.hpp'), ('higher-order terms', L + 'formulae/mpdata/formulae_mpdata_hot_*d.hpp, formulae_mpdata_dfl_*d.hpp, formulae_mpdata_psi_*d.hpp'), ('limiter', L + 'formulae/mpdata/formulae_mpdata_fct_*d.hpp')],
  'Equality with an independent N-dimensional reference proved for every (dimension, option set) unit.')
p('C04', 'A time step performs the stated passes on current halos and right time levels',
  'One time step advects every equation exactly once, in index order (delayed equations last): a donor-cell pass, then the requested number of corrective passes (none on an upwind-filter step), each reading the result of the pass before. Every halo value a pass reads is what a fresh halo fill would give, limiter bounds come from the field before the step, user Courant numbers are left untouched, and the field the user sees afterwards is the result of the last pass.',
  ['histories', 'inputs', 'configurations'], 'all grid sizes, all field / Courant-number / metric values before each stage, any number of steps (each step is checked from an arbitrary state), the listed option sets, boundary kinds, iteration counts, equation masks',
  'Which time level, halo or buffer a pass reads only matters for particular data and histories; a stored-output test fixes one run per option set and cannot tell a stale halo that happens to hold the right number.',
  [L + 'solvers/detail/' + f for f in ('mpdata_osc_1d.hpp', 'mpdata_osc_2d.hpp', 'mpdata_osc_3d.hpp', 'mpdata_fct_1d.hpp', 'mpdata_fct_2d.hpp', 'mpdata_fct_3d.hpp', 'mpdata_common.hpp', 'mpdata_fct_common.hpp', 'solver_common.hpp', 'solver_1d.hpp', 'solver_2d.hpp', 'solver_3d.hpp')],
  [('advop: passes, cycling, exchanges', L + 'solvers/detail/mpdata_osc_*d.hpp'), ('limiter initialisation and application', L + 'solvers/detail/mpdata_fct_*d.hpp'), ('solve loop, delayed equations', L + 'solvers/detail/solver_common.hpp'), ('halo exchanges', L + 'solvers/detail/solver_*d.hpp xchng*')],
  'Each stage is checked against its contract from an arbitrary state (stage-wise havoc), so any number of steps follows; per (dimension, options, boundary) unit.')
p('C05', 'Flux limiting creates no new minimum or maximum',
  'With flux-corrected transport on, no cell ends a time step outside the range spanned by the cell and its face neighbours, taken over the field before the step and the field entering the last limited corrective pass. Limiting only reduces a transport, never reverses it, and the limiter ratios are never negative. It holds with and without density factors, for variable-sign fields and for infinite-gauge transports.',
  ['inputs', 'configurations', 'histories'], 'all grid sizes >= 4, all field values, all corrective Courant numbers, all positive density factors, the listed option sets, iteration counts and boundary kinds, 1 to 3 dimensions',
  'Overshoots need a field and flow that saturate one limiter branch at one neighbour in one dimension; sampled runs with smooth or block fields never visit most branches.',
  [L + 'solvers/detail/mpdata_fct_' + f for f in ('1d.hpp', '2d.hpp', '3d.hpp', 'common.hpp')] + [L + 'formulae/mpdata/formulae_mpdata_fct_' + f for f in ('1d.hpp', '2d.hpp', '3d.hpp')],
  [('range before the step', L + 'solvers/detail/mpdata_fct_*d.hpp fct_init'), ('limiter ratios and limited Courant numbers', L + 'formulae/mpdata/formulae_mpdata_fct_*d.hpp'), ('order of limiting and halo fills', L + 'solvers/detail/mpdata_fct_*d.hpp fct_adjust_antidiff')],
  'Any field, bounds and corrective Courant numbers before each limited pass (stage-wise havoc); the first corrective pass is the limited one when n_iters > 2.')
p('C06', 'A uniform field stays uniform in a non-divergent flow',
  'If the Courant numbers have no divergence in any cell (they come from a stream function or vector potential), a uniform field is unchanged by an advection step, whatever the options, iteration count, density factor and number of dimensions. Every corrective pass then transports nothing, up to and including halo cells of cyclic and open boundaries.',
  ['inputs', 'configurations'], 'all grid sizes, all constants, all stream functions / vector potentials, all positive density factors, the listed option sets, iteration counts, cyclic and open boundaries, 1 to 3 dimensions',
  'Tests only look at a blob moving over a background for one flow; a halo face or a stencil coefficient that upsets a constant for some flow only shows as a small drift.',
  [L + 'solvers/detail/mpdata_osc_1d.hpp', L + 'solvers/detail/mpdata_osc_2d.hpp', L + 'solvers/detail/mpdata_osc_3d.hpp', L + 'solvers/detail/mpdata_fct_2d.hpp', L + 'solvers/detail/mpdata_fct_3d.hpp', L + 'formulae/donorcell_formulae.hpp', L + 'formulae/mpdata/', L + 'bcond/'],
  [('stencils vanish on constants', L + 'formulae/mpdata/formulae_mpdata_*d.hpp'), ('open boundaries make halo cells divergence-free', L + 'bcond/open_*d.hpp fill_halos_vctr_alng'), ('flux sum', L + 'formulae/donorcell_formulae.hpp')],
  'The third-order divergence form is covered with sptl_intrp = aver4 (with point values a second difference of the flow remains by design).')
p('C07', 'Time loop takes exactly the asked steps, in order, within the Courant limit',
  'advance(n) takes exactly n more steps; with an adaptive time step it runs until the target time is reached, with no more steps than asked for. Each step runs its stages once in the documented order (advector, its derivatives, ante-step, equations, delayed equations, post-step), raises step number and time by one step, stashes the time step used, and undoes scaling hints. An adapted step meets the Courant limit of the field it uses (density factor included); an initially divergent flow is rejected exactly when its largest divergence exceeds the limit.',
  ['histories', 'inputs', 'configurations'], 'any number of steps and any sequence of advance() calls (loop invariant), all time steps, spans, fields, Courant numbers and density factors, the listed masks, hints, orders and option sets, 1 to 3 dimensions; adaptive spans are positive',
  'Off-by-one steps, a stash shifted by one, a step cut against the wrong field or a missing density factor only show for particular histories; the tests run a fixed number of steps and almost never an adaptive one with a density factor.',
  [L + 'solvers/detail/solver_common.hpp', L + 'solvers/detail/solver_1d.hpp', L + 'solvers/detail/solver_2d.hpp', L + 'solvers/detail/solver_3d.hpp', L + 'concurr/detail/concurr_common.hpp', L + 'concurr/detail/sharedmem.hpp'],
  [('loop and stages', L + 'solvers/detail/solver_common.hpp solve, solve_loop_body'), ('adaptive step', L + 'solvers/detail/solver_common.hpp hook_ante_loop, solve'), ('Courant number, divergence, scaling', L + 'solvers/detail/solver_*d.hpp courant_number, max_abs_vctr_div, scale_gc')],
  'The solve loop is proved by its invariant from an arbitrary step number, time, time level and data; calc_gc, calc_ndt_gc and advop are represented by their contracts (arbitrary Courant numbers / arbitrary new field).')

p('C08', 'The result does not depend on the number of threads',
  'Advancing with any number of shared-memory threads gives exactly the fields, exceptions and barrier count of one thread: between two barriers each thread stores in its own part what the single thread stores there, no thread reads a cell another thread changes meanwhile unless the value is the same, and nothing depends on a cell left undefined. The parts cover the domain without gap or overlap, each with a point; impossible thread counts are refused.',
  ['schedules', 'inputs', 'configurations'], 'all schedules between barriers, all splits into non-empty parts, all grid sizes, all field / Courant-number / density values before each phase, the listed option sets, boundary kinds and iteration counts, 1 to 3 dimensions',
  'The tests run a few thread counts on one grid each with whatever schedule the machine happens to produce; a missing barrier or a range one cell off only shows for rare interleavings or splits.',
  [L + f for f in ('concurr/boost_thread.hpp', 'concurr/cxx11_thread.hpp', 'concurr/openmp.hpp', 'concurr/detail/concurr_common.hpp', 'concurr/detail/sharedmem.hpp', 'formulae/domain_decomposition.hpp', 'bcond/detail/remote_common.hpp', 'bcond/shared.hpp', 'solvers/detail/solver_common.hpp', 'solvers/detail/solver_2d.hpp', 'solvers/detail/solver_3d.hpp', 'solvers/detail/mpdata_fct_2d.hpp', 'solvers/detail/mpdata_fct_3d.hpp')],
  [('domain split', L + 'formulae/domain_decomposition.hpp slab, concurr/detail/concurr_common.hpp init'), ('ranges shared with neighbours', L + 'solvers/detail/solver_common.hpp extend_range'), ('barriers', L + 'concurr/detail/sharedmem.hpp, solvers/detail/solver_*d.hpp xchng*')],
  'First, last and any middle thread of an arbitrary split are compared with the single thread phase by phase (stage-wise havoc at each barrier), so any number of threads and steps follows; boost and OpenMP barriers are assumed, the C++11 one is proved over its mutex and condition variable.')

p('C09', 'Right-hand sides enter each step exactly as the chosen integration scheme says',
  'A step gives ADV(psi) + dt R (euler_a), ADV(psi + dt R) (euler_b) or ADV(psi + dt/2 R(n)) + dt/2 R(n+1) (trapez), R(n+1) being computed from the advected field with fresh halos, starting from cleared arrays, with the documented time step and time level, and kept for the next step; mixed calls only its hooks, before the loop and around each step. Equations marked as having no right-hand side are only advected. Each right-hand side is evaluated exactly as often, and where, the scheme says.',
  ['inputs', 'histories', 'configurations'], 'any number of steps (step from an arbitrary state), all fields, right-hand sides and time steps, all four schemes, masks of equations without right-hand side and delayed equations, constant and adaptive steps, 1 to 3 dimensions',
  'A half step applied twice, a right-hand side from the wrong time level or stale halos changes results by a discretisation-sized error that a loose tolerance in a sampled test does not see; euler_a, mixed and the hints are hardly tested at all.',
  [L + 'solvers/mpdata_rhs.hpp', L + 'solvers/detail/solver_common.hpp'],
  [('schemes', L + 'solvers/mpdata_rhs.hpp hook_ante_loop, hook_ante_step, hook_post_step'), ('application', L + 'solvers/mpdata_rhs.hpp update_rhs, apply_rhs')],
  'update_rhs overrides and advop are represented by their contracts: an arbitrary right-hand side, an arbitrary advected field.')

p('C10', 'Advected velocities give the advector at mid-step and absorbers act as specified',
  'Where velocities (or momenta over a mass) are advected, the Courant number on each face is the density-weighted average over the adjacent cells of the velocity extrapolated to mid-step from the last two states and the past time step, also across periodic boundaries; its time derivatives are the divided differences of the last two or three states. That history is what each step started from, before forcing. An implicit absorber is solved exactly for the new velocity, an explicit one enters once a step, and neither touches other fields.',
  ['inputs', 'histories', 'configurations'], 'any number of steps (step from an arbitrary state and history), all velocities, masses, densities, absorber coefficients >= 0 and relaxation states, time steps and spacings, constant and adaptive steps, option sets and boundaries listed, 1 to 3 dimensions',
  'A history off by one step, the wrong past time step after an adaptation, a momentum taken for a velocity or an absorber applied to the wrong state give small errors in a smooth test flow; variable steps, third-order derivatives and absorbers are tested on single flows only.',
  [L + 'solvers/detail/mpdata_rhs_vip_common.hpp', L + 'solvers/mpdata_rhs_vip.hpp', L + 'solvers/mpdata_rhs.hpp', L + 'solvers/detail/solver_common.hpp'],
  [('extrapolation and history', L + 'solvers/detail/mpdata_rhs_vip_common.hpp extrp, fill_stash, vip_stash'), ('interpolation', L + 'solvers/mpdata_rhs_vip.hpp intrp, interpolate_in_space'), ('absorbers', L + 'solvers/detail/mpdata_rhs_vip_common.hpp vip_rhs_*')],
  'update_rhs overrides and advop are represented by their contracts; faces on open and rigid boundaries are covered by C02 only.')

p('C11', 'Pressure solvers project onto the field whose divergence is within tolerance',
  'With a pressure solver, every step and the initial state end in a projection: velocities change only by the gradient of one pressure field (divided by the implicit absorber factor), boundary velocities stay (open) or vanish (rigid), and the divergence left equals the residual the iteration works on. Each scheme (mr, cr, gcrk, pc) keeps that residual true for its pressure, steps as far as makes it least along directions made conjugate to those kept, and reports convergence only with a residual within prs_tol/dt. The advector then inherits that divergence.',
  ['inputs', 'histories', 'configurations'], 'any number of iterations and steps (arbitrary velocities, pressure, search directions and history), all densities, absorber coefficients >= 0, spacings, time steps, tolerances and grid sizes, boundaries and schemes listed, 2 and 3 dimensions',
  'A wrong sign at an edge, a stale residual or an early or false convergence leaves a divergence error that smooth test flows hide; the tests run only the cr scheme, mostly with cyclic boundaries.',
  [L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_mr.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_pc.hpp', L + 'solvers/mpdata_rhs_vip_prs.hpp', L + 'formulae/nabla_formulae.hpp'],
  [('projection', L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp pressure_solver_update, pressure_solver_apply, lap, ini_pressure'), ('iterations', L + 'solvers/detail/mpdata_rhs_vip_prs_{mr,gcrk,pc}.hpp pressure_solver_loop_body'), ('edges', L + 'bcond set_edge_pres, save_edge_vel')],
  'The iteration is havocked in the proof of the projection, and the Laplacian stands as an arbitrary pointwise linear operator in the proofs of the schemes (each proved against its contract elsewhere). That the iteration terminates is not claimed.')

if __name__ == '__main__':
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    from table import PROPS
    P.sort(key=lambda q: q['id'])
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        assert q['id'] in PROPS or q['id'] in NA, q['id']
    open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(q) + '\n' for q in P))
    checks = [dict(property=q['id'], quick_cmd='python3 engine/run.py %s' % q['id'], thorough_cmd='python3 engine/run.py %s --tier thorough' % q['id'],
        technique='contract-based deductive verification of the extracted C++ (symbolic VC generation, ring normal form + SMT)', level='proof',
        level_note=NOTE[q['id']] + ' Assumes exact real and mathematical integer arithmetic, nonzero denominators, and the Blitz++ array contract of engine/shim; see DESIGN.md.') for q in P if q['id'] not in NA]
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
        notes='No hooks in /repo: annotations live in the harnesses, code is extracted mechanically on every run.'), open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks')
