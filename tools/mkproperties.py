#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long records stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

S = "pyswarms/single/"; B = "pyswarms/backend/"; T = B + "topology/"; U = "pyswarms/utils/"
OPTS = [S+"global_best.py", S+"local_best.py", S+"general_optimizer.py", "pyswarms/discrete/binary.py"]
BASES = ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"]

p("C01", "optimize() returns a truly evaluated point that is the best of that call",
  "For every optimizer (GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO with any built-in topology, BinaryPSO), the (cost, position) pair returned by optimize() is a position handed to the objective during that call together with exactly the value the objective returned for it, and no value returned during that call is lower. It holds whatever the objective, options, bounds, handler strategies or particle count, with ties, repeated positions, infinite or NaN costs (a NaN is lower than nothing) and objectives that reuse their output array, and for every call when one optimizer is used repeatedly, with or without reset() in between. The result is the caller's own: later calls never change an array returned earlier.",
  ["inputs", "configurations", "histories"],
  "all optimizers x topologies x options x bounds/handlers/clamps x objectives (real, infinite or NaN costs, ties, duplicates, reused output arrays) x histories of optimize/reset calls x seeds",
  "Tests check the return type and one or two converged runs on sphere/rastrigin; they never compare the returned pair with what the objective saw, never call optimize() twice on one instance, and never use ties or coinciding particles.",
  OPTS + [B+"operators.py", T+"star.py", T+"ring.py", T+"pyramid.py", T+"random.py"],
  [("per-call reset of personal and swarm best", S+"global_best.py: optimize()"), ("final best taken from personal bests", S+"general_optimizer.py: end of optimize()"), ("strict improvement test", B+"operators.py: compute_pbest")],
  ["return value of optimize()", "arguments and results of the objective, recorded by a wrapper"],
  [("swarm.best_cost / pbest_cost / pbest_pos", "best values known so far", B+"swarms.py")])

p("C02", "Cost histories are exact running minima",
  "Within one optimize() call, the entry that iteration i appends to cost_history is the lowest cost evaluated in that call up to and including iteration i, so the history never increases and its last entry is the returned cost. The entry of mean_pbest_history is the mean over particles of each particle's own lowest cost so far in that call, and mean_neighbor_history lies between the two and equals the best cost when every particle is everyone's neighbour. One entry is appended to each list per iteration performed, and a NaN cost improves no best.",
  ["inputs", "configurations", "histories"],
  "all optimizers x topologies x objectives x call histories x iteration index",
  "Tests assert only the shape of the histories and cost_history[-1] == best_cost after a single training run.",
  OPTS + BASES, [("history population", "pyswarms/base/base_single.py: _populate_history"), ("pbest update", B+"operators.py: compute_pbest")],
  ["cost_history, mean_pbest_history, mean_neighbor_history", "objective recorder"])

p("C03", "Position and velocity histories are a faithful, immutable record",
  "pos_history[i] is exactly the position matrix the objective was given at iteration i and velocity_history[i] is the swarm's velocity matrix at that moment; both have one (n_particles, dimensions) entry per iteration performed, in order. Entries already recorded never change as later iterations or calls proceed, later calls append, and only reset() empties them.",
  ["inputs", "configurations", "histories"],
  "all optimizers x handler strategies (which work in place) x histories of optimize/reset calls",
  "Tests look only at array shapes after one run; aliasing between the recorded entries and the live swarm cannot show there.",
  OPTS + BASES + [B+"operators.py", B+"handlers.py"],
  [("history population", "pyswarms/base/base_single.py: _populate_history"), ("position copied before the update", B+"operators.py: compute_position")],
  ["pos_history, velocity_history", "objective recorder (copies)"])

p("C04", "A bounded search only ever evaluates positions inside the bounds",
  "With bounds set and the default center, every position handed to the objective, recorded in the history or returned by optimize() satisfies lb <= x <= ub in every coordinate, exactly. This holds for every boundary strategy (nearest, reflective, shrink, random, intermediate, periodic), any velocity strategy, clamp, topology and option values, with bounds given as arrays or lists and of any finite location and positive width.",
  ["inputs", "configurations", "histories"],
  "all continuous optimizers x 6 boundary strategies x velocity strategies x bounds x options x iterations",
  "Tests run each strategy on one tiny fixture with np.array bounds of +-5 and compare after rounding; a one-ulp escape, list bounds or several axes violated at once are never exercised, yet the bundled benchmark functions raise on any escape.",
  [B+"handlers.py", B+"operators.py", B+"generators.py"] + OPTS[:3],
  [("boundary strategies", B+"handlers.py: BoundaryHandler"), ("handler call", B+"operators.py: compute_position"), ("initial positions", B+"generators.py: generate_swarm")],
  ["positions passed to the objective", "BoundaryHandler return values"])

p("C05", "Velocities respect the clamp, and so does every step",
  "With velocity_clamp=(lo, hi) every velocity component, initial or updated, lies in [lo, hi], for every velocity strategy, topology and optimizer and for scalar or per-dimension limits that contain zero. Consequently, without bounds no coordinate changes by less than lo or more than hi per iteration.",
  ["inputs", "configurations", "histories"],
  "all optimizers x velocity strategies x clamps x options x iterations",
  "Tests clamp hand-written velocity matrices with the unmodified strategy only, within one call.",
  [B+"handlers.py", B+"operators.py", B+"generators.py"] + OPTS,
  [("clamping", B+"handlers.py: VelocityHandler"), ("initial velocity", B+"generators.py: generate_velocity")],
  ["velocity_history", "pos_history differences", "VelocityHandler return values"])

p("C06", "The swarm moves by the documented velocity and position equations",
  "Each velocity update is w*v + c1*r1*(pbest - x) + c2*r2*(best - x) with r1, r2 uniform on [0, 1), drawn independently for every particle and dimension and for the two terms, where pbest is the particle's own best and best its neighbourhood's best position; the position update is x + v. Thus without clamp or bounds every recorded step satisfies x' = x + v' and v' - w*v lies in the interval spanned by the two attraction terms, and handlers are the only other influence.",
  ["inputs", "configurations", "histories"],
  "operator calls on arbitrary swarms; optimizer runs over c1, c2, w, topologies, strategies and iterations; the distribution of r1, r2",
  "Tests compare shapes and a few hand-computed positions; the randomness, its independence and the coupling to pbest/neighbourhood best along a run are never examined.",
  [B+"operators.py"] + OPTS[:3],
  [("velocity update", B+"operators.py: compute_velocity"), ("position update", B+"operators.py: compute_position")],
  ["pos_history/velocity_history", "compute_velocity/compute_position return values"])

p("C07", "Boundary strategies implement their documented repair",
  "Every boundary strategy leaves in-bounds coordinates (for random and shrink: in-bounds particles) untouched and repairs the others as documented: nearest moves to the violated bound, reflective mirrors at the bounds until inside, periodic wraps by the width of the search space, intermediate takes the midpoint between the previous coordinate and the violated bound, shrink pulls the particle back along its last step to the first bound it crossed, random draws a fresh position uniformly within the bounds. The previous position is the one the handler returned last (or the one it was primed with), for every call of a sequence.",
  ["inputs", "histories"],
  "arbitrary position matrices (any number of violated axes, both sides, multiples of the width), bounds, and sequences of calls on one handler",
  "Tests assert only that the repaired positions are in bounds, on one fixture, mostly with a single call; the repaired value itself is never compared with the formula.",
  [B+"handlers.py"], [("strategies", B+"handlers.py: BoundaryHandler"), ("memory of previous position", B+"handlers.py: BoundaryHandler.memory")],
  ["BoundaryHandler.__call__ return values"], [("memory", "previous positions", B+"handlers.py")])

p("C08", "Velocity strategies implement their documented repair",
  "unmodified returns the velocity unchanged, zero returns zero for particles that are out of bounds and the velocity unchanged for the others, invert returns -z times the velocity (z = 0.5 by default) for out-of-bounds particles only, and adjust returns the difference between the current and the previously seen position. In all of them a given clamp is applied to the result, and coordinates are limited per component to [lo, hi].",
  ["inputs", "histories"],
  "arbitrary velocity/position matrices, bounds, clamps, z, and call sequences on one handler",
  "Tests compare a couple of hand-made matrices per strategy without mixed in/out particles on both sides, without clamps that bite and without call sequences.",
  [B+"handlers.py"], [("strategies", B+"handlers.py: VelocityHandler")], ["VelocityHandler.__call__ return values"])

p("C09", "Option schedules follow their formulas and reach every iteration",
  "OptionsHandler returns, for each option with a strategy, the documented function of start value, end value, iteration and total iterations (exp_decay, lin_variation, nonlin_mod; random uniform between start and end), honouring end_opts, d1, d2 and n, and returns every option without a strategy unchanged; the caller's options are never modified. In an optimizer with oh_strategy, iteration t of a call updates velocities with exactly the scheduled values for t, computed from the options the optimizer was built with and that call's own length.",
  ["inputs", "configurations", "histories"],
  "start options, strategy assignments, overrides, iteration numbers; optimizer runs over several calls",
  "Tests check that values after one call are in a range for fixed numbers; whether the scheduled value is the one used by the velocity update of that iteration, or drifts over calls, is not observed.",
  [B+"handlers.py"] + OPTS[:3], [("schedules", B+"handlers.py: OptionsHandler"), ("per-iteration update", S+"global_best.py: optimize()")],
  ["OptionsHandler.__call__", "velocity update along pos_history/velocity_history"])

p("C10", "Stopping: exactly iters iterations unless the ftol criterion is met",
  "optimize() evaluates the whole swarm exactly once per iteration and, with the default ftol, performs exactly iters iterations. With ftol set, it stops at the first iteration, not earlier than the (ftol_iter+1)-th, at which the best cost changed by less than ftol*(1+|previous best|) in each of the last ftol_iter iterations, counting from the start of that call. Every other argument leaves the number of iterations alone.",
  ["inputs", "configurations", "histories"],
  "iters, ftol, ftol_iter, scripted cost sequences with plateaus and improvements, all optimizers, repeated calls",
  "Tests run sphere with a large ftol and assert that fewer than iters iterations happened; the exact stopping iteration over arbitrary cost sequences is never checked.",
  OPTS, [("stopping rule", S+"local_best.py: optimize()")], ["number of objective calls", "length of cost_history"])

p("C11", "Parallel evaluation gives the serial result",
  "For a given seed and a row-wise objective, optimize() with n_processes=k returns the same cost, position and histories as without it, for any k, also when the particle count is not divisible by k or smaller than k. Keyword arguments given to optimize() reach the objective unchanged on every evaluation, in both modes, and evaluation through a pool keeps the cost of each particle in its own row.",
  ["inputs", "configurations", "schedules"],
  "optimizers, particle counts, process counts, keyword arguments, objectives",
  "Tests only run one parallel optimisation per optimizer with n_processes=2 and check it finishes; results are never compared with the serial run.",
  OPTS + [B+"operators.py"], [("chunked pool map", B+"operators.py: compute_objective_function")], ["return values and histories of paired runs", "compute_objective_function with a pool"])

p("C12", "Runs are reproducible from numpy's seed and verbosity is inert",
  "Constructing and running the same optimizer, search, generator or topology twice after np.random.seed(s) gives bit-identical results and histories, whatever ran before in the process. verbose=True and verbose=False give identical results and leave numpy's random state identical.",
  ["inputs", "configurations", "histories"],
  "all optimizers and backends x seeds x preceding activity in the same process x verbosity",
  "Tests never repeat a run with one seed in a process with different prior activity, nor compare verbose modes.",
  OPTS + BASES + [B+"generators.py", T+"random.py", U+"search/random_search.py", U+"reporter/reporter.py"],
  [("all randomness from numpy's global generator", B+"operators.py, "+B+"generators.py")], ["results and histories of paired runs", "np.random.get_state()"])

p("C13", "Inputs are not modified and instances do not influence each other",
  "Running optimizers, operators, searches or plot helpers never modifies the caller's arguments (init_pos, bounds, options, clamp, strategy dicts, histories), and an optimizer behaves the same whether or not other optimizers, swarms, handlers or topologies exist or run interleaved with it. Default-constructed swarms share no mutable state.",
  ["inputs", "histories", "configurations"],
  "pairs of instances and interleavings of their calls; every array/dict argument",
  "Tests use one instance per test and never look at their arguments afterwards.",
  OPTS + BASES + [B+"swarms.py", B+"generators.py", B+"handlers.py", B+"operators.py"],
  [("per-instance handlers and topology", S+"global_best.py: __init__"), ("copy before in-place repair", B+"operators.py: compute_position")], ["arguments compared before/after", "paired interleaved/isolated runs"])

p("C14", "reset() restores a like-new optimizer",
  "After any sequence of optimize() calls, including early-stopped or failed ones, reset() empties all histories and re-creates the swarm as the constructor would: the same seed then yields the same initial swarm and, for topologies whose neighbours are recomputed, the same results and histories as a newly built optimizer. Configuration (options, bounds, clamp, init_pos, handlers) survives unchanged.",
  ["histories", "configurations"],
  "optimizer configurations x preceding call sequences x seeds",
  "Tests check that two attributes have their initial value after one reset.",
  BASES + OPTS, [("reset", "pyswarms/base/base_single.py: reset"), ("handler memory re-primed per call", S+"global_best.py: optimize()")], ["histories, swarm and results after reset vs. fresh instance"])

p("C15", "Ring and VonNeumann: each particle follows the best of its k nearest",
  "Ring.compute_gbest connects every particle to k nearest particles of the swarm under the Minkowski p-norm and gives it the personal-best position with the lowest personal-best cost among them, returning the swarm's lowest personal-best cost; VonNeumann does the same with k the Delannoy number of (dimensions, r). Static topologies keep the neighbours of their first use for every later call, dynamic ones use the current positions.",
  ["inputs", "histories"],
  "positions (incl. grids, ties, coinciding particles), personal bests, n, d, k, p, r and sequences of calls on one topology",
  "Tests use one 3-particle fixture and check shapes or a single expected array.",
  [T+"ring.py", T+"von_neumann.py"], [("kNN query", T+"ring.py: compute_gbest"), ("Delannoy count", T+"von_neumann.py: delannoy")], ["compute_gbest return values", "topology.neighbor_idx"], [("neighbor_idx", "neighbour lists", T+"base.py")])

p("C16", "Random topology builds a connected graph with self and k others",
  "Random.compute_gbest gives every particle itself and at least k other distinct particles as neighbours, all valid indices, chosen at random such that the resulting graph is connected; each particle receives the personal-best position of lowest cost in its neighbourhood and the swarm's lowest personal-best cost is returned. Static instances keep their neighbours over calls, dynamic ones redraw them.",
  ["inputs", "histories"],
  "swarm sizes, k, personal bests, seeds, call sequences",
  "The existing tests for it fail in this environment or check shapes for one swarm.",
  [T+"random.py"], [("random adjacency plus connection repair", T+"random.py: __compute_neighbors")], ["compute_gbest return values", "topology.neighbor_idx"])

p("C17", "Pyramid topology connects particles by simplices or fully when few",
  "Pyramid.compute_gbest works for every swarm of at least two dimensions: with n_particles <= dimensions + 1 all particles are mutually connected, otherwise each is connected to the other vertices of a triangulation of the current positions, a connected symmetric graph. Each particle receives the best personal-best position among its neighbours and the swarm's lowest personal-best cost is returned; static instances keep their neighbours.",
  ["inputs", "histories"],
  "positions, personal bests, n, d (n below, at and above d+1), call sequences",
  "The existing tests fail in this environment (ragged arrays) or check shapes only; the smallest triangulable swarm is not tried.",
  [T+"pyramid.py"], [("Delaunay neighbours", T+"pyramid.py: compute_gbest")], ["compute_gbest return values", "topology.neighbor_idx"])

p("C18", "Star topology returns and keeps the swarm-wide best",
  "Star.compute_gbest returns the lowest personal-best cost with the personal-best position attaining it when that improves on the swarm's recorded best, and otherwise the recorded best unchanged, for any costs including ties and infinities. Along a run every particle is attracted to that single position.",
  ["inputs", "histories"], "personal bests, recorded bests, cost sequences",
  "Tests use one fixture; equal costs, infinities and non-improving calls are not tried.",
  [T+"star.py"], [("argmin with strict improvement", T+"star.py: compute_gbest")], ["compute_gbest return values"])

p("C19", "Generators produce swarms of the requested shape, range and spread",
  "generate_swarm, generate_velocity, generate_discrete_swarm and create_swarm return (n_particles, dimensions) matrices: positions uniform within the bounds of each dimension (or [0,1) unbounded) times center, velocities uniform within the clamp (or [0,1)), binary positions of fair independent bits, discrete positions a random permutation of 0..d-1 per row, and init_pos exactly as given. Components are drawn independently of each other, and create_swarm yields a swarm carrying exactly these, the given options and consistent metadata.",
  ["inputs", "configurations"], "n, d, bounds, center, clamp, init_pos, seeds; the distribution of the entries",
  "Tests check shapes and ranges for one or two sizes; spread, independence, per-dimension bounds and permutation rows are not examined.",
  [B+"generators.py", B+"swarms.py"], [("generators", B+"generators.py")], ["returned arrays and Swarm attributes"])

p("C20", "Personal bests are updated by strict improvement, per particle",
  "compute_pbest returns, for every particle independently, the current position and cost when the current cost is strictly lower than the personal-best cost and the previous personal best otherwise (so a NaN cost changes nothing). Iterated over a run, a particle's personal best is the earliest position of lowest cost it visited; inputs are not modified.",
  ["inputs", "histories"], "positions, costs (ties, infinities), sequences of updates",
  "Tests use one three-particle example.",
  [B+"operators.py"], [("masked update", B+"operators.py: compute_pbest")], ["compute_pbest return values", "swarm.pbest_* during runs"])

p("C21", "BinaryPSO keeps binary positions drawn by the sigmoid rule",
  "Every position BinaryPSO evaluates, records or returns is a 0/1 matrix (provided init_pos, if given, is one). At each update every bit of every particle is set independently with probability 1/(1+exp(-v)) of its own velocity component, whatever the velocities, options and history.",
  ["inputs", "configurations", "histories"], "configurations, velocities (also extreme), the distribution of bits over many particles",
  "Tests check that one final position is binary; the probability rule and independence between particles are statistical and unobserved.",
  ["pyswarms/discrete/binary.py", "pyswarms/base/base_discrete.py"], [("sigmoid sampling", "pyswarms/discrete/binary.py: _compute_position")], ["positions passed to the objective with the recorded velocities"])

p("C22", "Benchmark functions equal their published formulas, row by row",
  "Each function in single_obj returns, for any (n_particles, dimensions) matrix in its domain, the (n_particles,) vector of its published formula's values. The value of a row does not depend on the other rows, their number or order, the input is not modified and repeated calls agree.",
  ["inputs"], "matrices in the domain: any particle count, dimensions, magnitudes",
  "Tests evaluate each function at its optimum and one or two fixed points.",
  [U+"functions/single_obj.py"], [("vectorised formulas", U+"functions/single_obj.py")], ["return values"])

p("C23", "Benchmark functions have their stated optimum and guard their domain",
  "For each benchmark function the documented minimiser attains the documented minimum value (to rounding) and no point of the domain is lower. Points anywhere in the documented domain, including its boundary, are accepted; a row with any coordinate outside raises ValueError and a wrong number of dimensions raises IndexError.",
  ["inputs"], "points in the domain incl. near the optimum, on the boundary and outside it in any coordinate of any row; dimension counts",
  "Tests probe one outside and one inside array per function.",
  [U+"functions/single_obj.py"], [("domain checks", U+"functions/single_obj.py")], ["return values and exceptions"])

p("C24", "The cost decorator vectorises a scalar objective faithfully",
  "A function decorated with @cost returns, for any particle matrix, the vector whose i-th entry is the function's value at row i, calling it once per row, in order, with exactly that row and all keyword arguments, and keeps the function's name and docstring. A function that does not return a scalar makes it raise ValueError.",
  ["inputs"], "matrices, scalar functions, keyword arguments, non-scalar returns",
  "Tests compare one function on one matrix.",
  [U+"decorators/decorators.py"], [("row loop and shape check", U+"decorators/decorators.py: cost")], ["return values, recorded calls"])

p("C25", "Grid and random search try what was asked and report the best",
  "GridSearch runs exactly the Cartesian product of the given option values, each combination once, and RandomSearch exactly n_selection_iters combinations drawn within the given ranges (integer k in [low, high)); every run uses the configured optimizer, particle count, dimensions, bounds, clamp, objective and iterations. search() returns the lowest score (highest with maximum=True) together with the options that produced it.",
  ["inputs", "configurations"], "option grids/ranges, optimizers with scripted scores (ties, negative), bounds, clamps",
  "Tests check one grid and that results have keys; that the reported options belong to the reported score is not checked.",
  [U+"search/base_search.py", U+"search/grid_search.py", U+"search/random_search.py"], [("grid generation", U+"search/grid_search.py: generate_grid"), ("argmin/argmax", U+"search/base_search.py: search")], ["constructor/optimize calls seen by a recording optimizer", "search() result"])

p("C26", "Plots show the histories they are given",
  "plot_cost_history draws one line with the point (i, cost_history[i]) for every iteration; the animations of plot_contour and plot_surface have one frame per iteration whose markers in the drawn figure are exactly that iteration's positions, with the requested labels, limits and mark. Mesher.compute_history_3d appends to each 2-D position its objective value, with or without processes, and mesh points carry the objective's value at their coordinates.",
  ["inputs", "configurations"], "histories (length, particles, values), designers, meshers, animators, process counts",
  "Tests assert return types and shapes; drawn data is never read back.",
  [U+"plotters/plotters.py", U+"plotters/formatters.py"], [("frame update", U+"plotters/plotters.py: _animate"), ("mesh", U+"plotters/plotters.py: _mesh"), ("3-D history", U+"plotters/formatters.py: Mesher.compute_history_3d")], ["matplotlib artists read back per frame"])

p("C27", "The search depends only on cost order and not on units",
  "With the same seed and no ftol, replacing the objective by an order-preserving transform of it leaves all positions and velocities identical, and rescaling space by a power of two (initial positions, bounds, clamp and objective argument) rescales every position and velocity exactly. This holds for all continuous optimizers and every boundary and velocity strategy with the star, ring, Von Neumann and random topologies.",
  ["inputs", "configurations"], "optimizers x topologies x handlers x objectives x transforms x seeds",
  "A relation between two runs; unit tests look at single runs.",
  OPTS + [B+"operators.py", B+"handlers.py"], [("comparisons only", B+"operators.py: compute_pbest"), ("linear update", B+"operators.py: compute_velocity")], ["pos_history/velocity_history of paired runs"])

p("C28", "Equivalent ways of running the same PSO agree",
  "From the same seed, GlobalBestPSO equals GeneralOptimizerPSO with Star, LocalBestPSO equals GeneralOptimizerPSO with Ring (static or not), VonNeumann equals a static Ring with the Delannoy number of neighbours, and the documented custom loop over the backend (compute_pbest, topology.compute_gbest, compute_velocity, compute_position with the same handlers) reproduces the optimizer's costs and positions.",
  ["inputs", "configurations"], "configurations, objectives, handlers, seeds",
  "A differential relation between implementations that carry separate copies of the loop; tests exercise each alone.",
  OPTS + [T+"star.py", T+"ring.py", T+"von_neumann.py", B+"operators.py"], [("duplicated optimisation loops", S+"global_best.py, "+S+"local_best.py, "+S+"general_optimizer.py")], ["results and histories of paired runs"])

p("C29", "Invalid configuration is rejected with the documented error",
  "Inconsistent arguments raise the documented error instead of running: initial positions of a continuous optimizer outside the bounds or of the wrong shape, bounds or clamp of the wrong length, an init_pos of more than two distinct values for BinaryPSO (ValueError), a topology that is not a Topology or a non-array swarm field (TypeError), ftol_iter that is not a positive integer (AssertionError), missing c1/c2/w/k/p and unknown handler strategies (KeyError), unusable search arguments (TypeError). Valid neighbours of these inputs are accepted.",
  ["inputs", "configurations"], "generated configurations with exactly one defect, and their valid counterparts",
  "Tests try one or two fixed bad values per argument and do not check that near-miss valid ones pass.",
  BASES + OPTS + [B+"generators.py", B+"swarms.py", B+"handlers.py", U+"search/base_search.py"], [("argument validation", B+"generators.py, pyswarms/base/base_single.py")], ["exceptions"])

p("C30", "A failing objective surfaces cleanly and the optimizer stays usable",
  "An exception raised by the objective at any evaluation propagates unchanged out of optimize(), with the histories holding exactly the iterations completed before it. The optimizer can then be used again: a further optimize() call satisfies the same result guarantees, and after reset() it behaves like a new one.",
  ["fault_sequences", "histories"], "optimizers x the evaluation at which the objective fails x exception kinds x subsequent calls",
  "No test injects a failing objective.",
  OPTS + BASES, [("loop order: evaluate, then record", S+"global_best.py: optimize()")], ["exception, histories and later results"])

p("C31", "The reporter logs, prints and tracks progress as asked",
  "Reporter.log emits the message at the given level and only to the configured logger, print shows a message exactly when its verbosity exceeds the threshold, pbar yields 0..iters-1 in order and hook shows the given values. Creating a Reporter with no configuration, a YAML configuration or a missing file configures logging from, respectively, defaults, that file, and defaults, and an optimizer run with verbose=True reports the number of iterations and the returned best cost and position and ends with a full progress bar that shows this cost while verbose=False emits no records at INFO or above.",
  ["inputs", "configurations"], "messages, levels, verbosity/threshold pairs, iteration counts, configurations",
  "Tests check one message and one threshold case.",
  [U+"reporter/reporter.py"] + OPTS, [("log/print/pbar/hook", U+"reporter/reporter.py")], ["log records captured by a handler", "stdout/stderr"])

p("C32", "User-defined topologies and optimizers plug into the framework",
  "GeneralOptimizerPSO drives any Topology subclass: in every iteration it asks its compute_gbest for the best, given the swarm with up-to-date costs and personal bests and the optimizer's options, then its compute_velocity and compute_position with the optimizer's clamp, bounds and handlers, and it evaluates, records and reports exactly what they return. A topology that delegates to a built-in one, and a SwarmOptimizer subclass that runs the documented loop on the inherited swarm, histories and reset(), behave like the built-in topology or optimizer, and a DiscreteSwarmOptimizer subclass starts from create_swarm's discrete swarm.",
  ["inputs", "configurations", "histories"], "user topologies (delegating, or with generated rules), user optimizers, configurations, objectives, seeds",
  "Tests use only the built-in classes.",
  [S+"general_optimizer.py", T+"base.py"] + BASES, [("topology is only consulted through its three methods", S+"general_optimizer.py: optimize()"), ("inherited swarm and histories", "pyswarms/base/base_single.py, pyswarms/base/base_discrete.py")], ["what the user's topology is given, evaluated positions, histories"])

p("C33", "Searches with standard settings find the minimiser of easy problems",
  "With common coefficients and swarm sizes, every continuous optimizer and topology gets within a thousandth of the search width of the minimiser of a convex function of up to four dimensions in 300 iterations, in one call or several, wherever the search space lies and whatever its scale, without bounds or with the nearest, reflective, shrink and intermediate strategies. BinaryPSO finds a hidden string of up to 16 bits from the number of wrong bits in 200 iterations.",
  ["inputs", "configurations"], "optimizers, topologies, strategies, dimensions, scales, locations, convex shapes, splits into calls, seeds",
  "Tests run a few fixed seeds on one function with very loose thresholds.",
  OPTS + [B+"operators.py", B+"handlers.py"], [("the whole loop", S+"global_best.py: optimize()")], ["distance of the returned position from the known minimiser"])

p("C34", "Searching leaves the rest of the process as it found it",
  "Apart from numpy's random state, log records and report.log, constructing and using optimizers (also when the objective fails), generators, topologies, handlers, searches and benchmark functions changes nothing in the process: numpy's error handling and print options, Python's random state, warning filters, working directory, environment, streams, signal handlers and other people's loggers stay as they were. After optimize(n_processes=k), or a plot helper with processes, has returned, no worker process remains.",
  ["inputs", "configurations"], "uses of the library under generated settings of the process, numbers of workers",
  "Tests do not look at the process around the library.",
  OPTS + [U+"plotters/plotters.py", U+"plotters/formatters.py", U+"reporter/reporter.py"], [("pools are closed and joined", S+"global_best.py: optimize()")], ["snapshots of the process's settings, active_children()"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    n = r["statement"].count(". ") + 1
    assert n <= 3, (r["id"], n)
print(len(P))
