"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/table.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/qlpeps/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, claim=True, note="", tech="", na=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[I + f for f in files], mech=mech, claim=claim, note=note, tech=tech, na=na))


TV = "TLA+ model checked with TLC; traces of the real code validated against it"

# ---------------------------------------------------------------- schedules / trackers / configuration
prop("P01", "Learning-rate schedules are the documented pure functions of the iteration",
     "For every schedule kind, parameter set and iteration number, the returned learning rate is the documented function of the iteration: constant; smooth exponential decay; decay by one factor per completed step; cosine annealing from the maximum to the minimum and flat afterwards; linear warm-up to the base rate and flat afterwards; one decay factor per milestone already reached, in whatever order milestones were given. Asking for a rate never changes a later answer, and a copy of a schedule answers exactly as the original.",
     ["inputs", "histories"], "all parameter sets, all iteration numbers, all orders of queries and copies",
     "The unit tests sample a few iterations of a few schedules; boundaries (0, exactly at a milestone, at and past the end), degenerate parameters and query order are open.",
     ["optimizer/lr_schedulers.h"],
     [("GetLearningRate of each schedule", "optimizer/lr_schedulers.h"), ("Clone", "optimizer/lr_schedulers.h")])
prop("P02", "Plateau schedule decays exactly on patience exhaustion, for every history",
     "For every sequence of reported energies the plateau schedule keeps its rate until the energy has failed to beat the best reference by more than the threshold on as many consecutive reports as the patience, then multiplies the rate by the factor exactly once and restarts counting with the current energy as the new reference. A copy taken at any moment continues exactly as the original would have, and neither ever influences the other afterwards.",
     ["histories", "inputs"], "all energy histories, all copy points and interleavings of original and copy",
     "Tests feed one or two fixed energy lists; ties at the threshold, copies taken mid-count and interleaved use are never sampled.",
     ["optimizer/lr_schedulers.h"], [("PlateauLR::GetLearningRate / Clone", "optimizer/lr_schedulers.h")])
prop("P03", "Moving-average tracker follows its recursion for every observation history",
     "After any history of observations and resets, the tracker's mean and variance equal the documented recursion (first observation sets the mean with zero variance, later ones use smoothing 2/(window+1)), the variance is never negative, and it reports itself initialised exactly when an observation was made since construction or the last reset. A reset makes it indistinguishable from a new tracker.",
     ["histories", "inputs"], "all observation/reset histories and positive window sizes",
     "Tests check a handful of fixed sequences for one or two windows.",
     ["optimizer/spike_detection.h"], [("EMATracker::Update/Reset", "optimizer/spike_detection.h")])
prop("P04", "Suwa-Todo state update keeps the target distribution and minimises rejection",
     "For every weight vector and every starting state of positive weight, the transition probabilities realised by the multi-state update leave the normalised weights stationary (global balance), are expressed in the caller's state labels whatever position the largest weight has, never select a zero-weight state, and have the minimal rejection: a state is kept only if its weight exceeds half of the total. This also holds when the weights a caller computed from different starting states differ by rounding errors (equal weights included).",
     ["inputs"], "all weight vectors (including ties, zeros, one dominant weight, one state) and all starting states",
     "No test in the build touches it; sampling tests cannot distinguish small biases or relabelling mistakes that occur only for particular positions of the maximum.",
     ["vmc_basic/monte_carlo_tools/suwa_todo_update.h"], [("SuwaTodoStateUpdate", "vmc_basic/monte_carlo_tools/suwa_todo_update.h")])
prop("P05", "Optimizer configuration is lossless, order-independent and independently owned",
     "Whatever sequence of setters builds an optimizer configuration, the result contains exactly the last value given for every setting and the same defaults for settings never given, independent of the order in which different settings were made; a configuration with missing mandatory parts is refused. Copies carry every setting and share no mutable state (including the learning-rate schedule) with the original, and every ready-made configuration contains the caller's arguments.",
     ["histories", "configurations"], "all setter sequences and all copies/assignments of configurations",
     "Tests build a few configurations in one order and rarely compare every field after copying.",
     ["optimizer/optimizer_params.h"], [("OptimizerParamsBuilder, OptimizerFactory, BaseParams copy", "optimizer/optimizer_params.h")])
prop("P06", "2D container owns its elements: deep copies, moves, no leak or double free",
     "For every sequence of element writes, allocations, releases, copies, moves, assignments between different-sized containers and destructions, each container holds exactly the values last stored in it, copies never share elements with their source, a moved-from container holds nothing, and every element is destroyed exactly once. Shape queries, row/column extraction, comparison and row-major iteration always agree with that contents.",
     ["histories"], "all operation sequences over several containers of any shape with at least one row and column, and default-constructed ones",
     "Unit tests run fixed short sequences on one shape without lifetime accounting.",
     ["two_dim_tn/framework/duomatrix.h"], [("DuoMatrix special members, accessors, iterators", "two_dim_tn/framework/duomatrix.h")])
prop("P07", "Per-site tensor dump/load round-trips and never lies about success",
     "Dumping an element and loading it back, at any position and into any container, reproduces the value at exactly that position and leaves every other position untouched; success is reported exactly when the file was really written or read, and the element is released after a dump only if asked for and only if the dump succeeded.",
     ["histories", "fault_sequences"], "all sequences of dumps, loads and releases over missing, unwritable and truncated files",
     "No test in the build covers file failure paths.",
     ["two_dim_tn/framework/ten_matrix.h"], [("LoadTen/DumpTen", "two_dim_tn/framework/ten_matrix.h")])
prop("P08", "Observable table: every cell independent, row-major, out-of-range refused",
     "For every shape and every sequence of writes, additions, resizes and extractions, reading a site returns what was last accumulated at that site by either addressing form and nothing else, the flat view lists sites in row-major order with rows*cols entries, and any access outside the lattice is refused without changing anything.",
     ["histories", "inputs"], "all operation sequences and shapes, including empty and non-square ones",
     "Unit tests use one or two small shapes and a fixed sequence.",
     ["utility/observable_matrix.h", "two_dim_tn/framework/site_idx.h"], [("ObservableMatrix", "utility/observable_matrix.h")])
prop("P09", "Amplitude-consistency summary is sign-alignment invariant and order independent",
     "For every list of amplitude estimates, the summary's mean is the average of the estimates after flipping those that oppose the largest-magnitude one, and the reported relative error is the largest distance from that mean divided by its magnitude; wherever the alignment is unambiguous (largest magnitude unique up to sign, no estimate orthogonal to it) reordering the list or flipping individual signs changes neither the error nor the mean up to an overall sign, and an empty list yields zeros. The printed form of a list shows exactly the first allowed number of entries and the true total when shortened.",
     ["inputs"], "all real and complex estimate lists whose largest magnitude is well above 1e-14, all orders, sign patterns and length limits",
     "No test in the build covers it.",
     ["algorithm/vmc_update/psi_consistency.h"], [("ComputePsiConsistencySummaryAligned, FormatPsiListTruncated", "algorithm/vmc_update/psi_consistency.h")])
prop("P10", "Output directories: reported success means the directory exists, under any race",
     "Creating or ensuring an output directory reports success exactly when a directory exists at that path afterwards, for every path form, for every pre-existing content (nothing, a directory, a plain file), and for every interleaving with other processes creating the same directories at the same time; existing contents are never removed or changed.",
     ["schedules", "inputs", "fault_sequences"], "all path forms, pre-existing contents and interleavings of concurrent creators",
     "Races between ranks creating the same directory cannot be sampled by a unit test.",
     ["utility/filesystem_utils.h"], [("IsPathExist/CreatePath/EnsureDirectoryExists", "utility/filesystem_utils.h")])
prop("P40", "Lattice direction algebra: opposite, orientation and leg numbering agree",
     "For each of the four boundary positions, the opposite position is the one reached by reversing the step, taking it twice gives the position back, a position and its opposite have the same bond orientation, left/right are horizontal and up/down vertical, and the leg number follows left, down, right, up. Rotating a bond orientation twice gives it back and never leaves it unchanged.",
     ["inputs"], "all positions and orientations",
     "No test in the build asserts it, and every contraction routine relies on it.",
     ["basic.h"], [("Opposite, Orientation, MPOIndex, Rotate", "basic.h")])

# ---------------------------------------------------------------- optimizer
SHN = "The tensor library (qlten) and MPI are not available offline: the headers are compiled against a dense stand-in (shim/) and a simulated MPI."
OI = "optimizer/optimizer_impl.h"
prop("P13", "Spike recovery always terminates and follows its decision table on every rank",
     "For every history of evaluation outcomes and every recovery setting: recovery is never triggered on the first iteration; an error-bar, gradient or natural-gradient spike is resampled at most the configured number of times per attempt series, then rolled back if rollback is on and a previous accepted state exists (at most one rollback per iteration), and otherwise accepted with a warning; an energy spike rolls back if it can and is otherwise accepted with a warning. Every run therefore terminates after a bounded number of evaluations, each decision appears exactly once in the event log with its iteration, attempt, signal and action, the totals equal the logged decisions, and all ranks take the same decisions.",
     ["histories", "configurations", "schedules"], "all outcome histories, thresholds, retry limits, rollback settings, rank counts",
     "Tests script single spikes; repeated spikes, spikes right after a rollback and combinations of signals are unbounded histories.",
     [OI, "optimizer/spike_detection.h", "optimizer/optimizer.h"], [("IterativeOptimize retry loop, DetectS1S2/S3/S4, DecideAction_, GetSpikeStats", OI)], note=SHN)
prop("P14", "A rejected evaluation leaves no trace in state, step sizes or trajectories",
     "For every history of accepted and rejected evaluations, the state evaluated next is: after a resample, exactly the state just evaluated; after a rollback, exactly the state of the last accepted iteration before the undone update; after an acceptance, the accepted state minus learning rate times the update direction computed from accepted data. Rejected evaluations contribute neither to the trajectories nor to the learning-rate sequence nor to the reference averages, except that momentum accumulators are, as documented, not restored by an energy-spike rollback.",
     ["histories", "configurations"], "all interleavings of accepted, resampled and rolled-back evaluations, for SGD, momentum, Nesterov and natural-gradient updates",
     "A trace of a rejected attempt only shows up several iterations later, in histories no test samples.",
     [OI], [("IterativeOptimize: rollback, acceptance, SGDUpdate", OI)], note=SHN)
prop("P15", "The reported best state and trajectories are those of the accepted iterations",
     "For every history, the result's energy, error, gradient-norm and learning-rate trajectories list exactly the accepted iterations in order, the minimum energy is the smallest accepted energy, the lowest state is the state at which that energy was first measured (not the state after its update), the final energy is the last accepted one, the final state is the state after the last applied update, and the improvement callback fires exactly for strict improvements with matching state and energy. The iteration count equals the trajectory length, on every rank.",
     ["histories", "configurations"], "all energy histories including ties, negative and rising energies, early stops and zero iterations",
     "Ties, late minima followed by stops and recovery in between are histories that tests do not enumerate.",
     [OI], [("IterativeOptimize bookkeeping, OptimizationResult, callbacks", OI)], note=SHN)
prop("P16", "Optimization stops exactly when a documented criterion first holds, on all ranks",
     "For every history of accepted energies and gradient norms, the run stops as converged at the first iteration after the first one at which the gradient norm is below its tolerance, the energy change is below its tolerance, or the energy has not strictly improved on the best for as many consecutive iterations as the patience; it stops unconverged when the caller's stop callback answers yes or the iteration limit is reached; and never otherwise. The update is not applied on the converging iteration, and every rank stops at the same iteration.",
     ["histories", "configurations", "schedules"], "all energy/gradient histories, tolerances, patience values, stop requests and rank counts",
     "Boundary equality, interplay of criteria and rank agreement are only sampled by tests.",
     [OI], [("ShouldStop, IterativeOptimize", OI)], note=SHN)
prop("P17", "Run logs and checkpoints always describe the accepted history and state",
     "At any stopping point, the iteration log contains one well-formed record per accepted iteration, in order, with that iteration's energy, error, gradient norm, applied learning rate and step-selection outcome; the spike log contains one row per recovery decision; a checkpoint exists exactly for each iteration after the first whose number is a multiple of the interval and that continued, holds the state reached after that iteration's update, and its metadata and energy history end with that iteration.",
     ["histories", "configurations"], "all histories with recovery, stops, step selection, checkpoint intervals",
     "Tests look at one fixed run; log/state agreement after rejections, stops and rollbacks is open.",
     [OI], [("JSONL logging, CSV spike log, checkpoint writing", OI)], note=SHN)
prop("P18", "Reusing an optimizer object gives the same run as a fresh one",
     "Running the same optimization again on the same optimizer object, after any earlier run (converged, stopped, with recoveries, step selection or momentum), produces the same evaluated states, decisions, results, statistics and files as a newly constructed optimizer would.",
     ["histories"], "all sequences of runs on one optimizer object",
     "Leaked internal state shows only for particular earlier histories.",
     [OI], [("IterativeOptimize initialisation, ClearUp", OI)], note=SHN)
prop("P19", "Automatic step selection follows its documented rule and never grows later steps",
     "When the initial step selector is on, the first iteration evaluates the update with 1..K times the base rate and keeps the one of lowest energy (the smallest on ties); when the periodic selector is due, it evaluates the current rate and half of it and halves exactly if the half step is lower in energy, in the late phase by more than the larger error bar. The chosen rate is applied to the same state and direction that were evaluated, becomes the base rate for later iterations and is reported; without error bars the selection is refused unless explicitly allowed; all ranks apply the same rate.",
     ["histories", "configurations", "schedules"], "all trial-energy outcomes, phase ratios, intervals and rank counts",
     "Ties, the exact phase boundary and sequences of several selections are not enumerated by tests.",
     [OI], [("initial/periodic step selector in IterativeOptimize", OI)], note=SHN)

prop("P20", "Gradient clipping bounds the step, keeps direction signs and never hits L-BFGS",
     "For every gradient and every clip setting, a first-order method sees the gradient after first clamping every component to the per-element bound and then, if its total norm still exceeds the norm bound, scaling it as a whole to exactly that norm; a gradient inside the bounds, an unset bound and a zero gradient are left exactly alone; signs and zeros are preserved; L-BFGS sees the unclipped gradient.",
     ["inputs", "configurations"], "all gradients (incl. zero, single large element, multi-site), all combinations of bounds and algorithms",
     "Tests try one bound at a time on one gradient; combined bounds and the no-op side are open.",
     [OI, "optimizer/optimizer.h"], [("ClipByValue_, ClipByGlobalNorm_ in IterativeOptimize", OI)], note=SHN)
prop("P21", "Each first-order update rule is its documented recursion over any history",
     "For every sequence of gradients and learning rates, the states visited by SGD (with and without weight decay, classical and Nesterov momentum), AdaGrad and Adam are those of the documented recursion started from zero accumulators, component by component, including sites whose gradient is empty; previewing a step (as automatic step selection does) never advances the accumulators, so the update finally applied is the one that was previewed.",
     ["histories", "inputs", "configurations"], "all gradient sequences, hyper-parameters, learning-rate sequences and interleaved previews",
     "Errors in bias correction, accumulator order or preview side effects appear only after several steps with unequal gradients.",
     [OI, "optimizer/optimizer.h"], [("SGDUpdate, AdaGradUpdate, AdamUpdate, step-selector preview", OI)], note=SHN)
prop("P22", "L-BFGS direction is the two-loop result and its step satisfies its search rule",
     "For every history of states and gradients, the L-BFGS direction equals the two-loop recursion over at most the configured number of most recent accepted pairs (pairs of insufficient curvature skipped, or damped when damping is on), is reset to the gradient when it is not a descent direction, and the step is capped at the configured maximum; in strong-Wolfe mode the accepted step satisfies sufficient decrease and the curvature condition for the reported energies, the search never exceeds its evaluation limit and, when no step qualifies, the run either takes the configured fallback step or fails explicitly.",
     ["histories", "inputs", "configurations"], "all objective functions, histories, history sizes, damping, caps and search settings; near-zero curvature excluded",
     "Tests minimise one convex function; non-convex objectives, bracketing ties and skipped pairs are unbounded histories.",
     [OI, "optimizer/optimizer.h"], [("LBFGSUpdate, strong-Wolfe search in optimizer_impl.h", OI)], note=SHN)

# ---------------------------------------------------------------- sampling infrastructure
MT = "vmc_basic/monte_carlo_tools/statistics.h"
prop("P11", "Reported averages and errors are the pooled sample statistics for any ranks",
     "For every set of samples and every number of ranks, the reported mean is the mean of the pooled data and the reported error is the standard error of that mean (per-rank values, or bins of length floor(sqrt N) pooled over ranks with an incomplete last bin dropped), never NaN for finite data and independent of a common offset; one contributor gives an infinite or empty error and no data gives zero; ranks other than the master report zeros; tensor averages equal the element-wise mean; and a data dump either contains every value in order or is reported as failed.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all data sets with equal per-rank counts, all rank counts and message orders, unwritable outputs",
     "Tests in the build never run statistics on several ranks; cancellation, remainders and arrival order are open.",
     [MT, "vmc_basic/statistics_tensor.h"], [("GatherStatisticSingleData, GatherStatisticListOfData, binning, DumpVecData", MT), ("MPIMeanTensor", "vmc_basic/statistics_tensor.h")], note=SHN)
prop("P12", "Emergency stop: all ranks agree at the first check after any signal",
     "For every placement of interrupt and terminate signals on ranks and relative to the checks, all ranks get the same answer at each check; the answer is yes exactly if some rank had received a signal since its last reset when it entered that check, the answer stays yes until reset, and after a reset the guard behaves as new.",
     ["schedules", "histories", "fault_sequences"], "all rank counts, signal placements, resets and message schedules",
     "Signal timing across ranks cannot be enumerated by unit tests.",
     ["base/mpi_signal_guard.h"], [("MPISignalGuard::EmergencyStopRequested/Reset/Register", "base/mpi_signal_guard.h")], note=SHN)
CGH = "utility/conjugate_gradient_solver.h"
prop("P23", "Linear solver is honest: reported residual, reason and best iterate are true",
     "For every self-adjoint system, start vector, tolerance and iteration limit, the returned vector's true residual equals the reported one, it is never larger than that of the start vector, convergence is reported exactly when it is within the tolerance (absolute, or relative to the right-hand side, whichever is larger), the iteration count never exceeds the limit, indefinite or non-finite systems are reported as such with the best vector so far, and a positive-definite system converges within its dimension up to rounding. Allowing more iterations never gives a worse answer and never changes an already converged one.",
     ["inputs", "configurations"], "all real and complex self-adjoint systems (positive definite, singular, indefinite), start vectors, tolerances, limits, restart settings",
     "Tests solve a few well-conditioned systems to convergence; the honesty of unconverged and failing solves is not sampled.",
     [CGH], [("ConjugateGradientSolver", CGH)], note=SHN)
prop("P24", "Distributed linear solve finishes on every rank and agrees with the contract",
     "For every system whose matrix is the sum of per-rank parts, every rank count and every message schedule, the distributed solve terminates on all ranks whatever the reason for stopping (convergence, limit, indefiniteness, stagnation, breakdown), leaves no message unreceived, uses the same number of matrix products on every rank, and its result meets the same contract as the serial solver for the summed matrix.",
     ["schedules", "inputs", "configurations"], "all rank counts, message orders and termination reasons",
     "A forgotten finish instruction deadlocks only on a particular termination path with several ranks.",
     [CGH], [("ConjugateGradientSolverMaster/Slave, MatrixMultiplyVectorMaster/Slave", CGH)], note=SHN)
prop("P26", "Configurations survive files and messages exactly, or the failure is reported",
     "For every configuration, dumping and loading it, sending it between ranks, broadcasting it or exchanging it on a ring reproduces shape and every site exactly; loading reports failure (and leaves the object alone) if the file is missing or recorded for another shape, and never reports success on malformed or short data; random fillings respect the requested occupation numbers exactly; occupation counts and sums always agree with the contents; and parameters constructed from a dump hold exactly the dumped configuration or are refused.",
     ["histories", "schedules", "fault_sequences", "inputs"], "all shapes, contents, file damage, rank counts and message schedules",
     "File damage, shape mismatches with equal site counts and message orders are not sampled by tests.",
     ["vmc_basic/configuration.h", "algorithm/vmc_update/monte_carlo_peps_params.h"],
     [("Configuration::Dump/Load/Random, MPI_Send/Recv/BCast/Sendrecv", "vmc_basic/configuration.h"), ("MonteCarloParams(path)", "algorithm/vmc_update/monte_carlo_peps_params.h")], note=SHN)
TI = "two_dim_tn/tps/split_index_tps_impl.h"
prop("P29", "State files and rank transfers reproduce the state or report the failure",
     "For every split-index state, projected-tensor state and lattice PEPS, dumping and loading reproduces every tensor, the lattice shape, the physical dimension and the boundary condition exactly, whatever the loading object held before; older file layouts still load; a missing, damaged or unreadable part makes the load report failure, an unwritable part makes the dump report failure and no tensor that was not saved is released; dumping never writes outside the given directory; and sending or broadcasting a state between ranks gives every receiver the sender's state and leaves all others alone.",
     ["histories", "fault_sequences", "schedules"], "all states (with empty components), dump/load/damage histories, rank counts and message schedules; contents of an object after a refused load are not specified",
     "Full disks, damaged files, stale target objects, release-on-dump and any-source receives are not sampled by tests.",
     ["two_dim_tn/tps/split_index_tps.h", TI, "two_dim_tn/tps/tps_impl.h", "two_dim_tn/peps/square_lattice_peps_impl.h"],
     [("SplitIndexTPS::Dump/Load, MPI_Send/Recv/Bcast", TI), ("TPS::Dump/Load", "two_dim_tn/tps/tps_impl.h"), ("SquareLatticePEPS::Dump/Load", "two_dim_tn/peps/square_lattice_peps_impl.h")], note=SHN)
prop("P30", "State arithmetic is a vector space; norms, scaling and bond queries are exact",
     "For every pair of states on the same lattice, addition, subtraction, negation, scaling (in every spelling, in place or not), squaring, squared norm, square root and inverse act component by component with empty components as zero, keep lattice shape and boundary condition, never alter other objects or alias their operands; the inner product is conjugate-linear in its first argument, the squared norm is the inner product with itself; normalising a site or scaling its largest element changes only that site and returns the factor taken out; and bond-dimension queries (all, minimum, maximum, evenness, uniformity) describe exactly the inner bonds of the lattice for open and periodic boundaries, including one-row and one-column lattices.",
     ["inputs", "histories"], "all lattice shapes, boundary conditions, bond dimensions, entries and operation sequences",
     "Tests use one square lattice with all components present; empty components, one-row lattices, periodic boundaries and chained operations are open.",
     ["two_dim_tn/tps/split_index_tps.h", TI, "two_dim_tn/tps/tps_impl.h"],
     [("SplitIndexTPS operators, ElementWise*, NormSquare, NormalizeSite, ScaleMaxAbsForSite, GetAllInnerBondDimensions", TI), ("TPS::GetMaxBondDimension/IsBondDimensionUniform", "two_dim_tn/tps/tps_impl.h")], note=SHN)
prop("P35", "Jastrow factor is a symmetric pair table; its field predicts density changes",
     "For every number of sites and every sequence of writes, the pair coupling read for (i,j) equals the last value written for (i,j) or (j,i), different pairs never share storage, the diagonal is zero, and the field at a site equals the change of the total pair exponent per unit density change at that site for every density configuration.",
     ["inputs", "histories"], "all lattice sizes, write sequences, couplings and densities",
     "Index packing mistakes show only for particular pairs and sizes.",
     ["vmc_basic/jastrow_factor.h"], [("JastrowFactor operator(), JastrowFieldAtSite", "vmc_basic/jastrow_factor.h")], note=SHN)
BC_ = "two_dim_tn/tensor_network_2d/bmps/"
prop("P25", "Monte-Carlo sweeps keep the sector, the bookkeeping and the |psi|^2 distribution",
     "Whatever the wave function (real or complex, with equal or zero weights), the configuration updaters (neighbour exchange and full-space update on open and periodic lattices, three-site exchange, Hubbard update with both spin numbers) leave the distribution |psi|^2 stationary: configurations drawn from it are still distributed by it after a sweep, and the exchange updaters realise exactly the Metropolis transition probabilities of trying each bond once (open) or as many random bonds as the lattice has (periodic). No sweep enters a configuration of zero weight or leaves the conserved sector, long runs from generic weights reach every configuration of the sector, the component's configuration, amplitude and network belong together after every sweep, the reported acceptance rate is accepted over tried moves, and an updater built from a seed repeats its run exactly.",
     ["histories", "schedules", "inputs"], "all wave functions on lattices of at least two rows and columns (three for the three-site update), start configurations, seeds and sweep histories",
     "A biased chain still produces plausible configurations; bias shows only in distributions, for unequal (or exactly equal) weights, complex amplitudes or particular sectors. No test in the build runs an updater.",
     ["vmc_basic/configuration_update_strategies/square_nn_updater.h", "vmc_basic/configuration_update_strategies/square_3site_updater.h", "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h", "vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_base.h", "vmc_basic/monte_carlo_tools/suwa_todo_update.h"],
     [("MCUpdateSquareNNExchangeOBC/PBC, MCUpdateSquareNNFullSpaceUpdateOBC/PBC", "vmc_basic/configuration_update_strategies/square_nn_updater.h"), ("MCUpdateSquareTNN3SiteExchange", "vmc_basic/configuration_update_strategies/square_3site_updater.h"), ("MCUpdateSquareNNHubbardU1U1OBC", "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h")], note=SHN)
prop("P27", "Sampler start-up: every rank gets a usable configuration or the run is refused",
     "Whatever initial configurations the ranks bring, after construction of the sampling engine every rank holds a configuration whose amplitude lies strictly inside the rescue limits: a rank with a usable one keeps it, a rank without takes over that of the lowest-numbered usable rank and counts as not warmed up, and when none is usable (or rescue is disabled and one is not) the whole job is aborted, never left hanging. All ranks rescale the state by one common factor per site that makes the largest amplitude over the ranks one; configuration, amplitude and projected network belong together. Warm-up runs its sweeps exactly once per rank that needs it; each rank draws ceil(total/ranks) samples. Boundary condition, lattice size and contractor that do not fit are refused with an exception.",
     ["inputs", "schedules", "histories"], "all rank counts, message schedules, initial configurations, limits, warm-up states and sweep counts; open lattices of two or more columns and square periodic ones",
     "Rescue needs some ranks bad and some good, and only a mixed job shows a deadlock, a wrong donor or per-rank scale factors; no test in the build starts an engine.",
     ["algorithm/vmc_update/monte_carlo_engine.h", "algorithm/vmc_update/monte_carlo_peps_params.h", "vmc_basic/wave_function_component.h"],
     [("MonteCarloEngine (EnsureConfigurationValidity, NormalizeStateOrder1, WarmUp, StepSweep, ValidateBoundaryCondition_)", "algorithm/vmc_update/monte_carlo_engine.h")], note=SHN)
prop("P28", "Sampled energy and gradient are the estimators of the samples of all ranks",
     "For whatever configurations the ranks' samplers visit, the reported energy is the mean local energy over all ranks' samples that fill whole bins of floor(sqrt(n)) and is the same on every rank; the reported gradient is the mean of E_loc* O* over all samples of all ranks minus E* times the mean of O*, with O* = conj(d ln psi); its norm, the mean and the per-sample O* kept for stochastic reconfiguration, the raw energies and the acceptance rates are those of the same samples. The evaluation uses the state handed to the master rank, on every rank, advances by the configured number of sweeps per sample, and leaves that state and the last sample in the engine; the energy-only evaluation agrees.",
     ["inputs", "schedules", "histories"], "all sample sequences with non-zero amplitudes, sample counts, rank counts, message schedules, real and complex states, models and sequences of evaluations",
     "A missing conjugate, a rank's samples dropped or a stale state on one rank only bias the gradient - optimisation still runs; no test in the build evaluates one.",
     ["algorithm/vmc_update/mc_energy_grad_evaluator.h", "algorithm/vmc_update/monte_carlo_engine.h", "vmc_basic/monte_carlo_tools/statistics.h"],
     [("MCEnergyGradEvaluator::Evaluate, EvaluateEnergyOnly", "algorithm/vmc_update/mc_energy_grad_evaluator.h"), ("MeanAndBinnedErrorSqrtNUniformBin", "vmc_basic/monte_carlo_tools/statistics.h")], note=SHN)
prop("P33", "Exact summation gives the true energy, its derivative and true averages",
     "Summed over any list of configurations of non-zero amplitude and any number of ranks, the exact evaluator returns on the master rank the |psi|^2-weighted mean of the local energy and the gradient that is its exact derivative with respect to the conjugated tensors, and the exact measurer the weighted mean of every observable, key by key and entry by entry; the result does not depend on the rank count or on what states the other ranks hold, and no rank hangs. The enumerations of a sector and of all binary configurations list every configuration exactly once.",
     ["inputs", "configurations", "schedules"], "all lattices, sectors, models, real and complex states, configuration lists, rank counts (also more ranks than configurations) and message schedules",
     "This is the reference every optimisation is compared with: a configuration counted twice or lost for particular rank counts still gives plausible numbers; no test in the build runs it.",
     ["algorithm/vmc_update/exact_summation_energy_evaluator.h", "algorithm/vmc_update/exact_summation_measurer.h"],
     [("ExactSumEnergyEvaluatorMPI, GenerateAllPermutationConfigs, GenerateAllBinaryConfigs", "algorithm/vmc_update/exact_summation_energy_evaluator.h"), ("ExactSumMeasurerMPI", "algorithm/vmc_update/exact_summation_measurer.h")], note=SHN)
prop("P32", "Natural-gradient steps (SR, MinSR) solve the sampled equations on any ranks",
     "With the samples of all ranks together, the SR matrix acts as the covariance of the sampled derivatives plus the diagonal shift (once, not once per rank), the SR direction x solves (S + shift) x = gradient, and the T matrix is the centred, 1/N-normalised Gram matrix with each rank holding its own rows. The MinSR direction is the minimum-norm solution of S x = gradient, i.e. the combination of centred samples with coefficients from the filtered pseudo-inverse of T: 1/lambda above r*|lambda|max + a and 0 below (hard), lambda^5/(lambda^6 + cutoff^6) (soft), for real and complex samples alike. The new state on the master rank is the old one minus learning rate (divided by the norm when normalising) times the direction, the reported norm is the direction's, other ranks keep their state, nothing depends on what they pass for gradient and mean, no rank hangs, and a solver that is not available is refused.",
     ["inputs", "schedules"], "all rank counts, message schedules, sample counts per rank (also repeated samples), real and complex samples with absent components, spectra including negative, zero and degenerate eigenvalues, cutoffs and shifts",
     "A wrong conjugate or a cutoff on signed values changes only complex or indefinite cases; a ring exchange can hang for one rank count; the direction still looks like a descent direction. The tests in the build contain none of it.",
     ["optimizer/minsr_tmatrix.h", "optimizer/minsr_eigensolve.h", "optimizer/stochastic_reconfiguration_smatrix.h", "optimizer/optimizer_impl.h"],
     [("MinSRTMatrix::Construct", "optimizer/minsr_tmatrix.h"), ("MinSREigenSolveDispatch", "optimizer/minsr_eigensolve.h"), ("SRSMatrix", "optimizer/stochastic_reconfiguration_smatrix.h"), ("CalculateNaturalGradient, StochasticReconfigurationUpdate, MinSRUpdate", "optimizer/optimizer_impl.h")], note=SHN)
prop("P34", "Measured observables are the averages over all ranks' samples, on disk too",
     "The Monte-Carlo measurement program takes its share of samples on every rank, each after the set number of sweeps from the previous one (after the warm-up), or stops on all ranks at the same check when any rank got a stop signal. Every observable the model reports, in whatever order each rank lists them, ends up in the results as the average over the samples of all ranks with the standard error of the rank averages (none with one rank); the energy estimate is that of the observable energy and is absent before the run. The files hold exactly those numbers in row-major tables of the declared shape, index maps and coordinates, the amplitude summary of each sample, the particle numbers of each rank, sample counts that are the true ones also after an early stop, and the final configuration. The replica test starts every rank from the first rank's configuration and compares neighbours for any number of samples. Missing states and inconsistent tables or shapes are refused.",
     ["inputs", "schedules", "histories"], "all rank counts, message schedules, sample, sweep and warm-up counts, sets and shapes of observables, orders in which ranks list them, moments of a stop signal, real and complex observables",
     "Observables mixed up between ranks, transposed tables or a sample count that ignores an early stop give plausible numbers; no test in the build runs the program.",
     ["algorithm/vmc_update/monte_carlo_peps_measurer_impl.h", "algorithm/vmc_update/monte_carlo_peps_measurer.h", "algorithm/vmc_update/model_measurement_solver.h"],
     [("MCPEPSMeasurer::Execute, DumpData, ReplicaTest", "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h"), ("SampleData::StatisticRegistry", "algorithm/vmc_update/monte_carlo_peps_measurer.h"), ("EvaluatePsiSummary", "algorithm/vmc_update/model_measurement_solver.h")], note=SHN)
prop("P37", "Model solvers report the true local energy, environments and observables",
     "For every built-in model (XXZ and J1-J2 XXZ on open and periodic square lattices, transverse-field Ising, triangular Heisenberg and J1-J2, spinless fermions, Hubbard, t-J(-V) with and without Jastrow factor), every configuration and every coupling, the reported local energy is the sum over configurations S' of <S'|H|S> conj(psi(S')/psi(S)) with every bond, diagonal, knight-move and on-site term of the documented Hamiltonian counted once, the returned environments are those of the sample, and each observable (bond energies, Sz, charge, sigma_x, row and all-to-all correlators, structure factor, psi summary) has the value, length and order its description states. Evaluation leaves the sample - configuration, tensors, amplitude - as it was, so further evaluations and updates in any order stay right.",
     ["inputs", "configurations", "histories"], "all open lattices of at least 2x2 and periodic ones the contractor accepts, couplings including zero, real and complex states without truncation, evaluation histories; fermion solvers through their bond formulas on sign-free tensors",
     "A dropped bond in the last row, a missing conjugate (visible only for complex states), a stale environment after a measurement, or a wrong Jastrow quotient changes energies without any error; no test in the build evaluates a solver.",
     ["algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h", "algorithm/vmc_update/model_solvers/square_tJ_model.h", "algorithm/vmc_update/model_solvers/square_hubbard_model.h", "algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h", "algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h", "algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h", "algorithm/vmc_update/model_solvers/base/structure_factor_measurement_mixin.h"],
     [("CalEnergyAndHoles, EvaluateObservables of the built-in solvers", "algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"), ("EvaluateBondEnergy, EvaluateNNNEnergy", "algorithm/vmc_update/model_solvers/square_tJ_model.h"), ("MeasureStructureFactor", "algorithm/vmc_update/model_solvers/base/structure_factor_measurement_mixin.h")], note=SHN)
prop("P38", "Sums and conversions of tensor product states keep every amplitude",
     "The sum of tensor product states, plain, of two with coefficients, or of a list, with real or complex coefficients of any sign, phase or zero, is the state whose amplitude on every configuration is that combination of theirs. Converting a PEPS into a tensor product state, splitting and regrouping physical indices, projecting on a configuration, and writing to and reading from disk all keep every amplitude, for open and periodic lattices of any shape, and a product state initialised from a configuration has amplitude one there and zero elsewhere.",
     ["inputs", "configurations", "histories"], "all lattices including single rows and columns, bond dimensions, physical dimensions, real and complex tensors and coefficients, chains of such operations, no truncation",
     "A lost phase, a bond enlarged on one side only, or swapped legs on non-square lattices leave valid-looking tensors with wrong amplitudes.",
     ["two_dim_tn/tps/tps.h", "two_dim_tn/tps/tps_impl.h", "two_dim_tn/tps/split_index_tps_impl.h", "two_dim_tn/peps/square_lattice_peps_basic_impl.h", "api/conversions.h"],
     [("WaveFunctionSum", "two_dim_tn/tps/tps_impl.h"), ("ToTPS, ToSplitIndexTPS, SplitPhyIndex", "api/conversions.h"), ("SplitIndexTPS::Project, GroupIndices, FromTPS", "two_dim_tn/tps/split_index_tps_impl.h"), ("SquareLatticePEPS::Initial, ToTPS", "two_dim_tn/peps/square_lattice_peps_basic_impl.h")], note=SHN)
prop("P39", "Gates on a PEPS act on the whole state exactly as the operator does",
     "Without truncation, applying a two-site gate to a horizontal or vertical bond or a three-site gate to any of the four kinds of triangle of a PEPS multiplies the represented state by that operator on those sites in the documented leg order, up to the reported norm; it rewrites only the tensors of those sites and the weights of the bonds between them, and reports the bond dimension it left and no truncation error. Truncation never exceeds the bond dimension asked for and reports the weight it dropped; the local energy of an isolated cluster is the expectation value after the gate. Normalising, regularising index directions, copying, moving, dumping and loading leave the state as it was.",
     ["inputs", "histories"], "all open and periodic lattices, positions including those across the periodic boundary, physical dimensions, real and complex gates, unequal bond weights, sequences of gates and maintenance operations",
     "Weights divided out on the wrong leg or a gate leg order exchanged gives a plausible but wrong imaginary-time evolution.",
     ["two_dim_tn/peps/square_lattice_peps.h", "two_dim_tn/peps/square_lattice_peps_basic_impl.h", "two_dim_tn/peps/square_lattice_peps_projection_impl.h"],
     [("NearestNeighborSiteProject, Upper/Lower Left/Right TriangleProject", "two_dim_tn/peps/square_lattice_peps_projection_impl.h"), ("NormalizeAllTensor, RegularizeIndexDir, Dump, Load", "two_dim_tn/peps/square_lattice_peps_basic_impl.h")], note=SHN)
prop("P41", "Simple update evolves the state by every term once and stops by its rule",
     "Each sweep of the simple-update executors multiplies the state by exp(-tau h) for every bond, diagonal and on-site term of the model, each with total weight one whatever the lattice shape and boundary, uniform or not (the triangular executor: each of its two halves covers the lattice once), up to the reported norm, and a basis state's reported energy is its energy. Advanced stopping ends the run at the first sweep that closes `patience` successive sweeps, none before `min_steps`, with unchanged bond dimensions, energy change within max(abs_tol, rel_tol max(1,|E|,|E'|)) and weight drift within its tolerance; anything else restarts the count; invalid settings are refused. Metrics, observer, printed lines and run summary agree with the sweeps of that run, and gates follow the step length.",
     ["inputs", "histories"], "all lattices including single rows and columns, open and periodic, physical dimensions, uniform and per-bond Hamiltonians, sequences of runs with changing step length; energies and drifts on both sides of every tolerance",
     "A wrong weight on an edge, a term taken from the wrong site, or a streak that is not reset gives a plausible evolution of another model or a premature stop.",
     ["algorithm/simple_update/simple_update.h", "algorithm/simple_update/simple_update_impl.h", "algorithm/simple_update/square_lattice_nn_simple_update.h", "algorithm/simple_update/square_lattice_nnn_simple_update.h", "algorithm/simple_update/triangle_nn_on_sqr_peps_simple_update.h"],
     [("SimpleUpdateExecutor::Execute, TaylorExpMatrix", "algorithm/simple_update/simple_update_impl.h"), ("SetEvolveGate_, SimpleUpdateSweep_ of the three executors", "algorithm/simple_update/square_lattice_nn_simple_update.h")], note=SHN)
prop("P31", "Amplitudes, replacement traces and environments are exact contractions, always",
     "With no truncation, every value a contractor reports for a lattice network - the full trace, the value with one, two (neighbouring, diagonal, knight-move) or three sites replaced, the trial value of a proposed update, a row contraction of a boundary walker, and every environment of a site - equals the exact contraction of the network as it is now with the stated replacement, for open lattices (boundary MPS, every compression scheme) and periodic ones (coarse graining), whatever sequence of window moves, cache growth, single- and multi-site updates, accepted and rejected trials, global replacements and cache clearing came before. The wave-function component's configuration and amplitude always belong together.",
     ["histories", "inputs", "configurations"], "all lattice sizes with at least two columns, bond dimensions, real and complex tensors and operation histories; for periodic lattices of four or more sites per side the environments are exact for tensors of generic rank",
     "Stale cache layers, swapped legs and off-by-one windows appear only for particular histories, non-square lattices or unequal bonds; no test in the build contracts anything.",
     [BC_ + "bmps_contractor.h", BC_ + "impl/bmps_contractor_trace.h", "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h", "two_dim_tn/tensor_network_2d/tensor_network_2d.h", "vmc_basic/wave_function_component.h"],
     [("BMPSContractor (growth, window shifts, Replace*Trace, PunchHole, walker)", BC_ + "bmps_contractor.h"), ("TRGContractor (Trace, EvaluateReplacement, BeginTrial/CommitTrial, PunchAllHoles)", "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h"), ("TPSWaveFunctionComponent (UpdateLocal, trials, ReplaceGlobalConfig)", "vmc_basic/wave_function_component.h")], note=SHN)
