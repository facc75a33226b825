#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that statements stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

D='cbx/dynamics/'
p('C01','Consensus point is the Gibbs-weighted mean of the run\'s current batch',
  'For every run, the consensus point of a consensus-based dynamic is the average of the positions of exactly the particles in that run\'s current batch, with weights proportional to exp(-alpha * objective value at that particle) that sum to one. It is therefore unchanged when a constant is added to all objective values of a run and, in every coordinate, lies between the smallest and the largest coordinate of the batch. The plain and the shift-stabilised (hypersurface) computation both satisfy this.',
  ['inputs','configurations'],'all ensembles (any number of runs, particles, any dimension), objective values, heat parameters per run, batches and sets of still active runs',
  'Tests compare a handful of seeded ensembles with a fixed small shape; shift invariance, the weights for extreme energies and the batched / partly terminated case are not settled for all shapes and values.',
  [D+'pdyn.py',D+'hypersurfacecbo.py'],[('weights via log-sum-exp',D+'pdyn.py:compute_consensus_default'),('energy evaluation and batch selection',D+'pdyn.py:CBXDynamic.compute_consensus'),('shift by the minimum',D+'hypersurfacecbo.py:compute_consensus_rescale')],
  [('energy','objective value per particle',D+'pdyn.py'),('consensus','weighted mean per run',D+'pdyn.py')],['dynamic.consensus after a step'])
p('C02','Polarized consensus and kernels',
  'In the polarized dynamic, the consensus of particle i of a run is the average of the batch positions x_j with weights proportional to K(x_i,x_j)^s * exp(-alpha * objective value of x_j), where s is alpha or 1 as configured. For every kernel and every pair of points, the kernel value equals exp of minus its reported negative logarithm; the Gaussian kernel is exp(-|x-y|^2/(2 kappa^2)), the Laplace kernel exp(-|x-y|/kappa) and the inverse quadratic kernel 1/(1+|x-y|^2/kappa^2). These kernels are symmetric, lie in (0,1] and equal 1 when the points coincide.',
  ['inputs','configurations'],'all ensembles, pairs of points, kernel widths kappa>0, heat parameters and both kernel scaling modes',
  'The tests check one or two kernels on one small ensemble against a loop implementation; the direction of the sum (which particle is the centre) and the agreement of kernel and negative logarithm hold over all points only by argument.',
  [D+'polarcbo.py'],[('kernel classes',D+'polarcbo.py:kernel'),('polar weights',D+'polarcbo.py:compute_polar_consensus')],
  [('neg_log_eval','pairwise negative log kernel',D+'polarcbo.py')],['dynamic.consensus'])
p('C03','One CBO step follows the Euler-Maruyama update and touches nothing else',
  'One step of the consensus-based optimizer moves every updated particle x to x - lambda*dt*drift + sigma*noise, where drift is the (corrected) difference between x and its run\'s consensus computed from the positions before the step. Particles outside the batch, when updating is restricted to the batch, and all particles of terminated runs keep their positions, and no other run or particle is affected. Simulated time advances by dt and the iteration counter by one per step.',
  ['inputs','histories','configurations'],'all states reachable by any number of earlier steps, all parameters, batch modes, sets of active runs and noise samples',
  'Unit tests compare a few seeded steps with a reference; they cannot cover every combination of batch mode, partial termination, shape and history.',
  [D+'cbo.py',D+'pdyn.py'],[('cbo_update',D+'cbo.py:cbo_update'),('inner step',D+'cbo.py:CBO.cbo_step'),('batch / run index selection',D+'pdyn.py:CBXDynamic.set_batch_idx_batched')],
  [('x','ensemble positions',D+'pdyn.py')],['dynamic.x, t, it before and after step'])
p('C04','Noise models scale the sampled noise as specified',
  'With xi a fresh sample of the configured sampler of exactly the shape of the drift, the noise returned is sqrt(dt)*|drift|_2*xi per particle for the isotropic model, sqrt(dt)*drift*xi componentwise for the anisotropic model and sqrt(dt)*xi for the constant model. For the covariance model it is sqrt(2*dt/gamma) times the run\'s covariance square root applied to xi, with gamma = 1/(1+alpha) in sampling mode and gamma = 1 otherwise. The sampler is called exactly once per noise evaluation.',
  ['inputs','configurations'],'all drifts (any shape including multi-dimensional particles), time steps, heat parameters, samplers',
  'Tests pin single seeds and a few shapes; the scaling for every drift, particle shape and run count is a universal statement.',
  ['cbx/noise.py',D+'pdyn.py'],[('noise classes','cbx/noise.py'),('selection by name','cbx/noise.py:get_noise')],[],['value returned by the noise model'])
p('C05','Drift correction scales the drift by the Heaviside of the energy gap',
  'Without correction the drift is used unchanged. With the Heaviside correction the drift of a particle is kept if the particle\'s recorded objective value (the value at its current position for every particle of the batch; the stored energy in memory dynamics) is strictly larger than the objective value at its run\'s consensus and is zero otherwise; with the regularised correction it is multiplied by (1+tanh((f(x)-f(consensus))/eps))/2. This holds for whichever runs are active and whichever particles are in the batch, with each particle compared with its own run\'s consensus.',
  ['inputs','configurations'],'all states, objectives, eps>0, batch modes, sets of active runs, particle shapes',
  'The existing tests evaluate the correction callable once on synthetic arrays; combinations with batching, partial termination and multi-dimensional particles are not reached.',
  ['cbx/correction.py',D+'pdyn.py'],[('correction classes','cbx/correction.py'),('correction hook',D+'pdyn.py:CBXDynamic.correction')],[],['dynamic.drift during a step'])
p('C06','Terminated runs are frozen; optimisation ends exactly when all terminated',
  'After the termination criteria are evaluated, a run is active if and only if no criterion reports it as terminated, and the recorded reasons of a terminated run name exactly the criteria that fired. A step changes neither positions, memory positions, velocities nor evaluation counts of a run that is not active, for every dynamic. The optimisation loop returns the best particles as soon as, and only when, no run is active, taking no step after that.',
  ['histories','configurations','inputs'],'all criteria combinations and their verdicts over time, all dynamics, batch modes and noise models',
  'Tests terminate all runs at once (iteration limit); runs finishing at different times are combined with hardly any dynamic, batch mode or noise model.',
  [D+'pdyn.py',D+'mirrorcbo.py',D+'hypersurfacecbo.py',D+'driftconstrainedcbo.py',D+'regcombinationcbo.py',D+'cbo_memory.py',D+'pso.py',D+'adamcbo.py'],[('active run selection',D+'pdyn.py:ParticleDynamic.select_active_runs'),('optimise loop',D+'pdyn.py:ParticleDynamic.optimize')],
  [('active_runs_idx','indices of active runs',D+'pdyn.py')],['dynamic.x across steps'])
p('C07','Best particle and best energy never get worse and belong together',
  'For every run, the reported best energy never increases over time and, after every step, is not larger than any objective value the dynamic has recorded for the run\'s particles in that step or any earlier one. Whenever a best energy is finite, the reported best particle is a point whose objective value equals it. Runs whose best energy did not improve keep their best particle.',
  ['histories','inputs','configurations'],'all histories of steps, objectives, batch modes, active sets and dynamics (plain, memory and swarm variants)',
  'Tests look at the final energy of seeded runs; monotonicity and the particle/energy pairing must hold at every step of every history including partial batches.',
  [D+'pdyn.py',D+'cbo_memory.py',D+'pso.py'],[('best particle update',D+'pdyn.py:ParticleDynamic.update_best_particle'),('current best',D+'pdyn.py:ParticleDynamic.update_best_cur_particle')],
  [('best_energy','smallest recorded energy per run',D+'pdyn.py'),('best_particle','its location',D+'pdyn.py')],['dynamic.best_energy, dynamic.best_particle'])
p('C08','Mini-batches are duplicate-free, in range and exhaust every particle per epoch',
  'With batch size b<N, in every step each run\'s batch consists of b particle indices in [0,N) that are pairwise different (for the concatenating variant: drawn consecutively from a stream of permutations), and between two reshuffles no particle is selected twice. Indices are reshuffled, independently per run, only when fewer than b unused indices are left; the resampling variant then discards the leftovers and the concatenating variant uses them first. With b>=N or no batch size every particle is used in every step.',
  ['histories','configurations','inputs'],'all batch sizes, particle and run counts, both variants, any number of steps, any permutations drawn',
  'Tests check shapes and a few steps of one configuration; leftovers, several epochs and non-dividing batch sizes are arithmetic over all histories.',
  [D+'pdyn.py'],[('batch initialisation',D+'pdyn.py:CBXDynamic.init_batch_idx'),('batch advance',D+'pdyn.py:CBXDynamic.set_batch_idx_batched')],
  [('indices','unused indices of the current epoch',D+'pdyn.py')],['dynamic.batch_idx per step'])
p('C09','Evaluation counts equal the evaluations actually made',
  'For every run, the increase of the reported number of function evaluations during construction, a step, a correction or a resampling equals the number of points of that run at which the objective was actually evaluated. Runs that are not active in a step are charged nothing. The counter of a counting objective increases by the number of points passed to it in every call.',
  ['histories','configurations','inputs'],'all dynamics, batch modes, corrections, constraints, active sets and histories',
  'Tests compare the counter for a couple of default configurations; per-run accounting under batching, corrections and partial termination is not covered.',
  [D+'pdyn.py',D+'cbo_memory.py',D+'pso.py','cbx/correction.py','cbx/utils/objective_handling.py','cbx/utils/resampling.py'],[('counting evaluation',D+'pdyn.py:CBXDynamic.eval_f'),('objective counter','cbx/utils/objective_handling.py:cbx_objective.__call__')],
  [('num_f_eval','evaluations per run',D+'pdyn.py')],['dynamic.num_f_eval'])
p('C10','Runs are independent',
  'In a multi-run ensemble the new positions, energies, consensus, best particle and evaluation count of a run after a step depend only on that run\'s own state, parameters, batch and noise sample: changing any other run\'s particles leaves them unchanged. This holds for every dynamic, noise model and correction, and whichever other runs are active.',
  ['inputs','configurations','histories'],'all pairs of ensembles that agree on one run, all dynamics, noise models, corrections, batch modes, active sets',
  'A test would need two coupled executions per configuration; none of the existing tests compares a multi-run ensemble with its separate runs under partial termination.',
  [D+'pdyn.py',D+'cbo.py',D+'polarcbo.py',D+'cbs.py','cbx/noise.py'],[('run axis handled elementwise',D+'pdyn.py'),('covariance per run',D+'pdyn.py:CBXDynamic.update_covariance')],[],['per-run slices of the state after a step'])
p('C11','Post-processing leaves only finite positions inside the threshold box',
  'After default post-processing every coordinate of every particle is a finite number in [-T,T] for the configured threshold T, whatever NaN or infinite values the step produced, in every variant (including the copying one used by the combined regularisation dynamic). Coordinates that were already finite and inside the box are left exactly unchanged, finite ones outside are moved to the nearest bound and NaN becomes T.',
  ['inputs','configurations'],'all IEEE double values in every coordinate, all thresholds, both copy modes',
  'Tests never feed NaN or infinities through every variant; the statement quantifies over every IEEE value.',
  [D+'pdyn.py',D+'regcombinationcbo.py'],[('post processing',D+'pdyn.py:post_process_default')],[],['dynamic.x after post-processing'])
p('C12','History entries are faithful snapshots taken at the configured interval',
  'Every tracked quantity gets exactly one entry per step whose iteration number is a multiple of the save interval (positions additionally one initial entry), holding the value that quantity had at that time; later steps, or in-place modifications of the dynamic\'s state, never alter entries already recorded. The number of recorded tracking events equals the number of such steps.',
  ['histories','configurations'],'all sequences of steps, save intervals, tracked quantities and in-place modifications by later steps or resampling',
  'Tests look at the number of entries for a few settings; aliasing between stored entries and live state needs every later history.',
  [D+'pdyn.py','cbx/utils/history.py'],[('trackers','cbx/utils/history.py'),('tracking',D+'pdyn.py:ParticleDynamic.track')],
  [('history','recorded entries',D+'pdyn.py')],['dynamic.history'])
p('C13','Parameter schedulers respect their update rule, bracket and cap',
  'A multiplicative schedule replaces the parameter p by min(factor*p, maximum) elementwise, so the cap is never exceeded, and changes nothing else. The effective-sample-size schedule evaluates J(alpha)=(sum w)^2/(sum w^2), w=exp(-alpha*energy), with 1<=J<=N, and its bisection returns, per run, a value inside the initial bracket that is the midpoint of an interval containing a root of J(alpha)-eta*N whenever the bracket does; runs whose residual is already below the tolerance stop moving. A list of schedules is applied in order, each once per step.',
  ['inputs','histories','configurations'],'all parameter values, factors, caps, energies, eta, brackets and iteration limits',
  'Tests use two or three fixed factors and one energy array; the bracket invariant of the bisection over all monotone functions and iteration counts is out of reach of samples.',
  ['cbx/scheduler.py'],[('multiply','cbx/scheduler.py:multiply'),('effective sample size','cbx/scheduler.py:effective_sample_size'),('bisection','cbx/scheduler.py:bisection_solve')],[],['dynamic.alpha after scheduler update'])
p('C14','Each termination criterion means what it says',
  'The iteration, time, energy-tolerance, update-tolerance and evaluation-budget criteria report a run as terminated exactly when the iteration count has reached the limit, the time has reached the limit, the current minimal energy is below the tolerance, the last update is below the tolerance, or the evaluations made plus one batch would exceed the budget, respectively. The energy-stagnation criterion reports a run exactly when the standard deviation of its consensus energies over the last full window is below its threshold, and never before a full window was seen. Every criterion returns one verdict per run, for any number of runs, and named or dictionary specifications select the corresponding criterion with the given parameters.',
  ['inputs','histories','configurations'],'all dynamic states, run counts, thresholds, windows, active sets',
  'Tests exercise single-run thresholds; the stagnation window for several runs, partly terminated, is not covered.',
  ['cbx/utils/termination.py'],[('criteria classes','cbx/utils/termination.py'),('selection','cbx/utils/termination.py:select_term')],[],['verdict array of each criterion'])
p('C15','Memory dynamics keep each particle\'s best visited position',
  'In the memory-based and particle-swarm dynamics, after every step the stored energy of an updated particle is the minimum of its previous stored energy and the energy of its new position, its memory position is the new position exactly if the new energy is strictly smaller and is unchanged otherwise, so the objective value at the memory position always equals the stored energy. The consensus of these dynamics is the Gibbs-weighted mean of the memory positions of the batch with the stored energies. Positions and velocities follow the documented update with attraction to consensus and memory.',
  ['histories','inputs','configurations'],'all states, batch modes, active sets, particle shapes, numbers of steps',
  'Tests compare single seeded full-batch steps with a reference; the pairing invariant over histories, batches and partly terminated ensembles is not tested.',
  [D+'cbo_memory.py',D+'pso.py'],[('memory step',D+'cbo_memory.py:CBOMemory.inner_step'),('swarm step',D+'pso.py:PSO.inner_step')],
  [('y','historical best position',D+'cbo_memory.py'),('energy','its objective value',D+'cbo_memory.py')],['dynamic.y, dynamic.energy, dynamic.v'])
p('C16','Mirror dynamics update dual variables and map them back',
  'The mirror-descent dynamic starts its dual variables at the mirror-map gradient of the initial positions, applies the consensus update to the dual variables of the active runs and batch only, and sets the positions of updated runs to the conjugate-gradient image of their dual variables. For the quadratic default map this coincides with plain consensus-based optimisation.',
  ['histories','inputs','configurations'],'all states, mirror maps, batch modes, active sets',
  'Tests run a few maps on one seed and check only shapes or success.',
  [D+'mirrorcbo.py'],[('mirror step',D+'mirrorcbo.py:mirror_step')],[('y','dual variables',D+'mirrorcbo.py')],['dynamic.x, dynamic.y'])
p('C17','Mirror maps invert their gradient or project onto their set',
  'For the smooth mirror maps (quadratic, log barrier on the box, elastic net, entropy, simplex entropy) the conjugate gradient undoes the gradient at every point of the domain (for the simplex: on the simplex). For the projection maps (ball, hyperplane, sphere, square boundary, Stiefel) the result always lies in the set, and points already in the set are left where they are. Results keep the input shape, are computed per particle, and are finite wherever the map is defined, including at the zero dual vector of the log barrier.',
  ['inputs'],'all points of the respective domain, all shapes, all parameters (radius, centre, normal, offset, scale, weights)',
  'Tests check projections for unit radius and centred sets on a few points; off-centre, other radii and boundary points are left out.',
  [D+'mirrorcbo.py'],[('mirror map classes',D+'mirrorcbo.py')],[],['return value of grad and grad_conj'])
p('C18','Hypersurface dynamics stay on the surface and move tangentially',
  'For the sphere, hyperplane and Stiefel surfaces, the position of every updated particle after a step of the hypersurface dynamic lies on the surface. The tangential projection used removes exactly the normal component: the result is orthogonal to the surface gradient at a surface point, and tangential vectors are unchanged. The step is the projection of x + P(x)(dt*consensus + sigma*noise) minus the documented curvature correction.',
  ['inputs','histories'],'all ensembles on the surface, all surfaces and parameters, noise samples and time steps',
  'Tests check the norm after one seeded run for the unit sphere and one plane.',
  [D+'hypersurfacecbo.py'],[('signed distance classes',D+'hypersurfacecbo.py:signedDistance'),('step',D+'hypersurfacecbo.py:HyperSurfaceCBO.inner_step')],[],['dynamic.x after a step'])
p('C19','Constraint functions, gradients and Hessians belong together',
  'For the plane, sphere and quadric constraints (symmetric quadric matrix), value, gradient and Hessian are exactly consistent: g(x+h) = g(x) + <grad g(x),h> + <Hess g(x)h,h>/2 for all x and h, with g zero exactly on the set. Squared value, gradient and Hessian of the square are those of g^2, sums over several constraints add up termwise, and every linear solve offered returns z with (I + factor*matrix) z = right-hand side for the matrix it names. Without constraints the solves return the right-hand side unchanged.',
  ['inputs','configurations'],'all points, directions, parameters, factors, numbers of constraints',
  'Tests compare a few random points for one dimension; exact derivative identities and solve identities are algebraic statements over all inputs.',
  ['cbx/constraints.py'],[('constraint classes','cbx/constraints.py'),('sums and solves','cbx/constraints.py:MultiConstraint')],[],['return values'])
p('C20','Constrained dynamics perform the documented semi-implicit step',
  'One step of the drift-constrained dynamic subtracts from x the solution z of (I + (dt/eps) * sum of constraint-square Hessians) z = lambda*dt*(x-consensus) + (dt/eps) * sum of constraint-square gradients + sigma*noise, and one step of the combined-regularisation dynamic solves (I + 4(dt/eps) g(x) A) z = x - lambda*dt*(x-consensus) + sigma*noise - 2(dt/eps) g(x) b for its constraint, which is treated linearly-implicitly. With no constraint the combined dynamic coincides with plain consensus-based optimisation and the drift-constrained one moves by the right-hand side. Only active runs move.',
  ['inputs','histories','configurations'],'all states, constraints, parameters, active sets, noise samples',
  'Tests only run the dynamics for a few seeded iterations on fixed constraints.',
  [D+'driftconstrainedcbo.py',D+'regcombinationcbo.py','cbx/constraints.py'],[('step',D+'driftconstrainedcbo.py:dc_inner_step'),('step',D+'regcombinationcbo.py:RegCombinationCBO.inner_step')],[],['dynamic.x after a step'])
p('C21','Promoted objectives evaluate pointwise in every input convention',
  'Whatever convention is declared for the objective (one point, a list of points, or the whole ensemble), evaluating the promoted objective on an ensemble of M runs with N particles gives an (M,N) array whose entry (m,n) is the objective at particle n of run m. A wrong declaration or an objective with a wrong output shape is rejected when checking is on. The input ensemble is not modified.',
  ['inputs','configurations'],'all objectives, ensemble shapes and contents, the three conventions',
  'Tests sample a few objectives and shapes.',
  ['cbx/utils/objective_handling.py',D+'pdyn.py'],[('promotion','cbx/utils/objective_handling.py:_promote_objective'),('dimension check',D+'pdyn.py:ParticleDynamic.check_f_dims')],[],['value of the promoted objective'])
p('C22','Benchmark objectives are the documented functions, evaluated per particle',
  'Every benchmark objective maps an array of points of shape (M,N,d) to values of shape (M,N), for all M,N>=1, and the value at a particle is the documented formula of that particle\'s coordinates alone. Every minimiser a benchmark declares attains the declared or documented minimal value up to the printed precision, for all its shift and scale parameters.',
  ['inputs','configurations'],'all points, ensemble shapes (including single runs and single particles) and parameters',
  'Tests check a few known values and the declared minima of some objectives with default parameters and one shape.',
  ['cbx/objectives.py'],[('objective classes','cbx/objectives.py')],[],['objective values'])
p('C23','Resampling perturbs exactly the selected runs, once each',
  'When resampling is applied, the runs perturbed are exactly the union of those selected by the configured rules; each of them gets an independent sample of the configured sampler scaled by the independent noise strength times sqrt(dt) added once to all of its particles and its resampling count increased by one, and all other runs are untouched. The update-norm rule selects runs whose last update is below the threshold, the loss rule selects runs whose best energy has not improved for the given number of calls, and the stagnation rule selects active runs whose consensus moved less than the threshold in each of the last calls within its patience.',
  ['histories','inputs','configurations'],'all states, rule combinations, thresholds, histories of energies and consensus points, active sets',
  'Tests trigger single rules on one seeded dynamic.',
  ['cbx/utils/resampling.py'],[('resampling','cbx/utils/resampling.py:resampling'),('rules','cbx/utils/resampling.py')],[('wait','steps since last improvement','cbx/utils/resampling.py')],['dynamic.x, resampling counts'])
p('C24','Success evaluation reports exactly the runs that satisfy every criterion',
  'The distance criterion reports exactly the runs whose best particle is closer to the target than the tolerance in the chosen norm, the value criterion exactly those whose best particle\'s objective value is below the threshold, and a combined evaluation exactly the runs satisfying all criteria. The reported count is the size of that set and the rate is the count divided by the number of runs, for any number of runs and any dimension.',
  ['inputs','configurations'],'all ensembles of best particles, targets, tolerances, norms and criteria combinations',
  'Tests check one or two fixed arrays.',
  ['cbx/utils/success.py'],[('criteria','cbx/utils/success.py')],[],['result dictionaries'])
p('C25','Ensembles are initialised as specified and user inputs are never modified',
  'A dynamic built from given positions starts with exactly those positions (a vector or matrix being a single run), as a private copy; without given positions it draws (M,N,d) values uniformly from [-1,1], and the particle initialisation helper draws from the requested box or centred normal distribution with the requested shape and spread (a two-dimensional request for the normal distribution being a single run). Steps, post-processing, resampling and repeated construction never modify the user\'s arrays, dictionaries or lists. All best and current energies start at infinity and iteration, time at zero.',
  ['inputs','configurations','histories'],'all initial arrays, shapes, parameters, later histories and repeated constructions with the same argument objects',
  'Tests check shapes; aliasing with user data after arbitrary later steps or re-use of argument objects is not tested.',
  [D+'pdyn.py','cbx/utils/particle_init.py'],[('particle initialisation',D+'pdyn.py:ParticleDynamic.init_x'),('helper','cbx/utils/particle_init.py:init_particles')],[],['dynamic.x at construction; user objects afterwards'])
p('C26','Adam variant follows the moment recursion',
  'In the adaptive-moment dynamic each step updates, for the updated particles only, first and second moments as m = b1*m+(1-b1)*drift and v = b2*v+(1-b2)*drift^2 starting from zero, and moves x by -lambda*(m/(1-b1^k))/(sqrt(v/(1-b2^k))+eps) + lambda-free sigma*noise, where k is the number of the step counted from one. Moments of other particles and runs are unchanged.',
  ['histories','inputs','configurations'],'all states, parameters, step numbers, batches and active sets',
  'Tests check that the optimiser runs and one seeded comparison; bias correction at every step number is not settled.',
  [D+'adamcbo.py'],[('moments',D+'adamcbo.py:AdamCBO.update_moments'),('step',D+'adamcbo.py:AdamCBO.inner_step')],[('m','first moment',D+'adamcbo.py'),('v','second moment',D+'adamcbo.py')],['dynamic.x, m, v'])
p('C27','The torch backend computes the same as the numpy backend',
  'For identical positions, energies, parameters and noise, the torch versions of consensus, polarized consensus, norm and post-processing give the same result as their numpy counterparts, and plain, mirror and polarized consensus dynamics converted to torch make the same step as the original. Sampled noise has the requested shape on the configured device.',
  ['inputs','configurations'],'all ensembles, parameters and noise samples',
  'Tests run torch dynamics without comparing them step by step with the numpy ones.',
  ['cbx/utils/torch_utils.py'],[('torch backend','cbx/utils/torch_utils.py')],[],['torch results'])
p('C28','Regularised objective and its parameter schedule',
  'The regularised objective equals original objective plus lambda (of that run) times regulariser to the power p, per particle, and the built-in regularisers are the count of non-zeros, the 1-norm, and the distances |<a,x>-b|/|a|, ||x|-r| and |<x,Ax>+<b,x>+c|. The schedule multiplies, per run, theta by its factor when the weighted mean regulariser is at most 1/sqrt(theta), and otherwise divides theta (capped) and multiplies lambda, which always stays within [0, its maximum].',
  ['inputs','histories','configurations'],'all ensembles, parameters, histories',
  'Tests evaluate a couple of regularisers at fixed points.',
  ['cbx/regularizers.py'],[('regularised objective','cbx/regularizers.py:regularize_objective'),('schedule','cbx/regularizers.py:regularization_paramter_scheduler')],[],['objective values, lambda, theta'])
p('C29','Covariance noise uses the square root of the weighted ensemble covariance',
  'The matrix whose action defines covariance noise is the positive semidefinite square root of the run\'s Gibbs-weighted covariance sum_n w_n d_n d_n^T of the drifts d_n, with the same weights that define the consensus (for the polarized dynamic: per particle, with the kernel weights). The matrix square root of any positive semidefinite matrix is symmetric positive semidefinite and squares to the matrix, and negative eigenvalues are treated as zero.',
  ['inputs','configurations'],'all ensembles, heat parameters, runs (several runs, partly terminated), dimensions',
  'Tests check one matrix and that sampling runs; the per-run weighting for several runs is not compared.',
  [D+'pdyn.py',D+'polarcbo.py','cbx/noise.py'],[('covariance',D+'pdyn.py:CBXDynamic.update_covariance'),('matrix square root',D+'pdyn.py:compute_mat_sqrt')],[('Cov_sqrt','square root of the covariance',D+'pdyn.py')],['noise samples'])
p('C30','Resetting restarts counting and recording without touching the ensemble',
  'Resetting a dynamic sets iteration count and time back to zero and starts fresh histories of the quantities configured by the user at the configured interval, leaving positions, parameters, best results and evaluation counts unchanged. Afterwards the dynamic behaves like one that has taken no steps with respect to iteration, time and history.',
  ['histories','configurations'],'all earlier histories, tracking configurations and numbers of resets',
  'The tests reset at most once with default tracking.',
  [D+'pdyn.py'],[('reset',D+'pdyn.py:CBXDynamic.reset'),('history initialisation',D+'pdyn.py:ParticleDynamic.init_history')],[],['dynamic.it, t, history after reset'])
p('C31','Flattened model parameters round-trip through the ensemble representation',
  'Flattening the parameters of several models and viewing the flat vector through the recorded shapes and offsets gives back every parameter tensor of every model exactly; the recorded offset ranges are consecutive, disjoint and cover the whole vector. Evaluating a model with a flat weight vector equals evaluating the model with those parameters, model by model.',
  ['inputs','configurations'],'all model architectures (number and shapes of parameters), parameter orders and ensembles',
  'Tests evaluate a single small network.',
  ['cbx/utils/torch_utils.py'],[('offsets','cbx/utils/torch_utils.py:get_param_properties'),('flattening','cbx/utils/torch_utils.py:flatten_parameters'),('evaluation','cbx/utils/torch_utils.py:eval_model')],[],['parameter views'])
p('C32','Plots show the recorded history',
  'Plotting utilities display exactly the recorded positions, consensus points and drifts of the selected runs and coordinates for the selected iteration, without altering the dynamic or its history.',
  ['histories','configurations'],'all histories, selected coordinates and option combinations',
  'Tests only check that plotting objects can be created.',
  ['cbx/plotting.py'],[('plot classes','cbx/plotting.py')],[],['figure artists'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as fh:
    for q in P: fh.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
