#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
S = "src/MuyGPyS/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MPI_TESTS = ("The distributed tests run on four real ranks with one batch size (500, divisible by four), one response, "
             "OpenMPI's own schedule and test-local metrics; uneven or empty chunks, other rank counts, other arrival orders, "
             "several responses and the public metrics are never exercised. ")

p("C01", "Distributed tensor construction partitions the batch exactly",
  "With the MPI backend, tensors built for a prediction or training batch are spread over the ranks so that joining the rank-local pieces in rank order gives exactly the tensor a single process would build: every batch row is on exactly one rank, none is lost, repeated or reordered. The pieces of all tensors built by one call (differences, targets, neighbour targets) are row-aligned on each rank, and piece sizes differ by at most one.",
  ["inputs", "schedules", "configurations"],
  "every rank count, every batch size (also smaller than or not divisible by the rank count), every neighbour/feature/response count, isotropic and anisotropic deformations, every message schedule (eager or blocking sends, any delay, any rank speed)",
  MPI_TESTS + "They compare only the shapes and values of an even split.",
  ["_src/mpi_utils.py", "_src/gp/tensors/mpi.py", "gp/muygps.py", "gp/deformation/isotropy.py", "gp/deformation/anisotropy.py", "gp/multivariate_muygps.py", "gp/tensors.py"],
  [("chunk size computation and row slicing", "_src/mpi_utils.py:_get_chunk_sizes/_prepare_parallel_data"), ("point-to-point scatter from rank 0", "_src/mpi_utils.py:_big_scatter"), ("distributing decorator", "_src/mpi_utils.py:mpi_chunk")],
  ["return values of the tensor-making calls on every rank"])

p("C02", "Distributed posterior means and variances equal the single-process posterior",
  "With the MPI backend, joining the posterior means (and variances) computed on the ranks in rank order gives, row for row, the posterior mean and scaled posterior variance of the same model, data and neighbours in a single process, which is the Gaussian-process conditional at the model's current hyperparameters. Each rank's result has exactly the rows of that rank's piece of the batch.",
  ["inputs", "schedules", "configurations"],
  "every rank count and batch size, kernel, smoothness, metric, deformation, noise and scale, one or several responses, every message schedule",
  MPI_TESTS + "They compare backend functions, not the model-level calls a user makes.",
  ["gp/muygps.py", "gp/mean.py", "gp/variance.py", "_src/gp/muygps/mpi.py", "_src/gp/muygps/numpy.py", "_src/gp/noise/mpi.py", "_src/gp/kernels/mpi.py", "examples/from_indices.py"],
  [("posterior applied to the rank-local chunk", "gp/muygps.py:posterior_mean/posterior_variance"), ("mpi re-exports of the local math", "_src/gp/muygps/mpi.py")],
  ["posterior_mean and posterior_variance return values per rank"])

p("C03", "Distributed losses equal the single-process loss on every rank",
  "With the MPI backend, every loss function evaluated on rank-local predictions, targets and variances returns, on every rank, the same number: the loss of the whole batch as a single process computes it. This holds however unevenly the batch is split, including ranks that hold no rows.",
  ["inputs", "schedules", "configurations"],
  "all public loss functions and their options, every split of the batch over every number of ranks, every reduction order and message schedule",
  MPI_TESTS + "Losses are only compared on equal chunks, where per-rank and global normalisation coincide up to a constant.",
  ["_src/optimize/loss/mpi.py", "_src/optimize/loss/numpy.py", "optimize/loss.py", "optimize/objective.py"],
  [("sum-reduction of local contributions", "_src/optimize/loss/mpi.py"), ("global denominator of mean-type losses", "_src/optimize/loss/mpi.py:_mse_fn")],
  ["loss values returned on every rank", "objective values seen by the optimiser on every rank"])

p("C04", "Distributed scale optimisation equals the single-process scale on every rank",
  "With the MPI backend, optimising the variance scale leaves every rank's model with the same scale, and for the analytic scale that value is the one a single process computes from the whole batch. It depends neither on how the batch is split over ranks nor on per-rank random state.",
  ["inputs", "schedules", "configurations"],
  "every rank count and split (also empty pieces), analytic scale with any iteration count, down-sampled scale with any per-rank random state, fixed scale, every message schedule",
  MPI_TESTS + "The scale is checked with equal chunks through the backend function only; the down-sampled scale is never run distributed.",
  ["_src/optimize/scale/mpi.py", "_src/optimize/scale/numpy.py", "gp/hyperparameter/scale.py", "gp/muygps.py"],
  [("global sum and global batch count", "_src/optimize/scale/mpi.py:_analytic_scale_optim"), ("scale update and rebuild of the variance function", "gp/muygps.py:optimize_scale")],
  ["scale value and posterior variance on every rank"])

p("C05", "Distributed hyperparameter optimisation keeps all ranks in lock step",
  "With the MPI backend, both optimisers finish on every rank with exactly the same hyperparameters, inside their bounds, whatever the per-rank random state, and every rank evaluates the same sequence of trial points. Each trial's objective value is that of the whole batch as a single process evaluates it, and the returned point is one the search evaluated whose objective is no worse than at the starting point. Given a random state, the search begins with the same points as in a single process.",
  ["inputs", "schedules", "configurations", "histories"],
  "L-BFGS-B and Bayesian optimisation, with and without an explicit random state, all losses, any subset of free hyperparameters, every rank count, split, reduction order and message schedule, different random state on every rank",
  MPI_TESTS + "Optimisation results are compared after the fact on one configuration with loose tolerances, so rank divergence that happens to land nearby, or only appears without a seed, passes.",
  ["_src/optimize/chassis/mpi.py", "_src/optimize/chassis/numpy.py", "optimize/chassis.py", "optimize/objective.py", "_src/optimize/loss/mpi.py"],
  [("every rank runs the same optimiser on a globally reduced objective", "_src/optimize/chassis/mpi.py"), ("bound clamping of the result", "_src/optimize/chassis/numpy.py:_new_muygps")],
  ["trial points and objective values on every rank", "hyperparameters of the returned models"])

p("C06", "Sampled initial hyperparameters agree across ranks and respect their bounds",
  "A hyperparameter whose initial value is drawn at random takes a value within its bounds, and with the MPI backend takes the same value on every rank although each rank has its own random state. Fixed hyperparameters refuse a random initial value on every rank without exchanging messages.",
  ["inputs", "schedules", "configurations"],
  "uniform and log-uniform sampling, any bounds, scalar and vector hyperparameters and noise, any random state per rank, any rank count, any message schedule",
  "Tests construct sampled hyperparameters in one process only and check a few hundred draws.",
  ["gp/hyperparameter/scalar.py", "gp/hyperparameter/vector.py", "gp/noise/homoscedastic.py"],
  [("draw then broadcast from rank 0", "gp/hyperparameter/scalar.py:Parameter._sample_val")],
  ["hyperparameter values on every rank"])

p("C07", "Every distributed operation terminates and leaves no message behind",
  "With the MPI backend, whenever all ranks make the same sequence of library calls, every call returns on every rank under any legal MPI behaviour: sends that block until received or are buffered, arbitrary delays between different pairs of ranks, arbitrarily slow ranks. When all calls have returned there is no unreceived message, no pending request, and all ranks took part in the same collectives in the same order.",
  ["schedules", "inputs", "configurations", "histories"],
  "every rank count, every batch size including smaller than the rank count, every sequence of library calls, every legal message timing and buffering choice, bounded slow-downs of any rank",
  MPI_TESTS + "OpenMPI on one host with small buffered messages shows one timing; a send/receive order that needs buffering or a call that only some ranks enter does not hang there.",
  ["_src/mpi_utils.py", "_src/optimize/loss/mpi.py", "_src/optimize/scale/mpi.py", "_src/gp/tensors/mpi.py", "gp/hyperparameter/scalar.py"],
  [("fixed send order from rank 0, single receive on others", "_src/mpi_utils.py:_big_scatter"), ("collectives entered unconditionally by all ranks", "_src/optimize/loss/mpi.py")],
  ["progress of every rank, message queues at quiescence"])

p("C08", "Distributed training and prediction histories equal the single-process history",
  "Any sequence of library operations on one or several models (building tensors, optimising hyperparameters, optimising the scale, predicting on further batches), performed with the MPI backend, gives at every step the same model state on all ranks and the same (joined) results as the same sequence in a single process. An operation's result never depends on tensors, models or batches of earlier, unrelated operations.",
  ["histories", "schedules", "inputs", "configurations"],
  "all operation sequences over several models and batches of different sizes and neighbour counts, every rank count, every message schedule",
  "Distributed tests each run one operation on freshly built state; sequences in which a later operation meets state or messages of an earlier one are not run.",
  ["gp/muygps.py", "gp/multivariate_muygps.py", "optimize/chassis.py", "examples/from_indices.py", "examples/regress.py", "_src/mpi_utils.py"],
  [("all distributed state is in the call's own chunks", "_src/mpi_utils.py:mpi_chunk"), ("replicated model state", "gp/muygps.py:MuyGPS")],
  ["per-rank results and model parameters after every operation"])

p("C09", "A failing rank never makes another rank return a wrong result",
  "With the MPI backend, if a rank fails during an operation (it dies, runs out of memory, or a linear solve raises), no other rank returns from that operation with a value different from the fault-free one: it returns the correct value, raises, or makes no further progress until the job is aborted. Re-running the same operations from the same inputs after a restart gives the fault-free results.",
  ["fault_sequences", "crash_points", "schedules"],
  "a failure of any one rank (process death, memory error, numerical error) at any communication or linear-algebra call of any operation, or, for memory errors, at any line of its computation, under every message schedule",
  "No test injects a failure in a distributed run.",
  ["_src/mpi_utils.py", "_src/optimize/loss/mpi.py", "_src/optimize/scale/mpi.py", "_src/optimize/chassis/numpy.py"],
  [("errors propagate; no fallback values, no partial reductions", "_src/optimize/loss/mpi.py"), ("no time-outs or retries in the scatter", "_src/mpi_utils.py:_big_scatter")],
  ["values returned on surviving ranks"])

p("C10", "Operations the distributed backend lacks are refused on every rank",
  "With the MPI backend, an operation documented as unsupported (fast posterior mean and its precomputation, heteroscedastic noise, stand-alone difference tensors) raises an error on every rank instead of returning values or blocking. The refusal exchanges no messages, so the following supported operations work on all ranks.",
  ["histories", "schedules", "configurations"],
  "every unsupported operation placed anywhere in a sequence of supported ones, every rank count and message schedule",
  "No distributed test calls an unsupported operation.",
  ["_src/gp/muygps/mpi.py", "_src/gp/noise/mpi.py", "_src/gp/tensors/mpi.py"],
  [("NotImplementedError stubs", "_src/gp/muygps/mpi.py")],
  ["outcome of the call on every rank and of the operations after it"])

p("C11", "Concurrent callers sharing a model get the sequential answers",
  "Threads that share one trained model and the same arrays and concurrently evaluate kernels, predict, build tensors, look up neighbours or compute objectives each get the result they would get alone, for every interleaving. None of these calls modifies the model, its hyperparameters or any array passed to it.",
  ["schedules", "histories", "inputs"],
  "all interleavings, at the granularity of source lines of the library, of two to four callers issuing read-only operations on shared models, lookups and arrays; kernels, deformations, noise and loss types",
  "All tests are single-threaded; an in-place update or a value parked on the shared object between two statements is invisible to them.",
  ["gp/muygps.py", "gp/kernels/kernel_fn.py", "gp/kernels/matern.py", "gp/kernels/rbf.py", "gp/mean.py", "gp/variance.py", "gp/hyperparameter/scale.py", "_src/gp/kernels/numpy.py", "_src/gp/muygps/numpy.py", "_src/gp/noise/numpy.py", "gp/deformation/metric.py", "neighbors.py"],
  [("closures over immutable hyperparameters, results in fresh arrays", "gp/kernels/matern.py:Matern._make"), ("copies instead of in-place updates", "_src/gp/noise/numpy.py")],
  ["return values per caller, byte-wise snapshots of all inputs and model parameters"])

p("C12", "Optimisation never changes the caller's model, even when it fails midway",
  "Optimising hyperparameters returns a new model and leaves the model it was given, and all its training arrays, exactly as they were, whether it completes or is interrupted by an exception (numerical failure, memory exhaustion, user interrupt) at any point. Running the same optimisation again after a failure gives the result the uninterrupted run would have given.",
  ["fault_sequences", "crash_points", "inputs"],
  "an exception raised at any executed source line or solver call of the optimisation, both optimisers, all losses, kernels and free hyperparameters",
  "Tests look only at the returned model of successful optimisations.",
  ["_src/optimize/chassis/numpy.py", "optimize/chassis.py", "optimize/objective.py", "gp/hyperparameter/scale.py"],
  [("deep copy of the model before values are written", "_src/optimize/chassis/numpy.py:_new_muygps"), ("trial values passed as arguments, not stored", "optimize/objective.py")],
  ["hyperparameters, scale and predictions of the original model after success or failure"])

p("C13", "Independently constructed models do not influence each other",
  "Operations on one model (optimisation, scale optimisation, changing hyperparameters, prediction) never change the hyperparameters, scale, training status or predictions of another model that was constructed separately, in any order of operations. This includes models that rely on default noise, scale or deformation, components of a multivariate model, and a model and the copy an optimiser returned for it.",
  ["histories", "fault_sequences"],
  "all interleavings of operations on two to four models of any kind, with failures of individual operations",
  "Each test builds its models afresh and looks at one model at a time.",
  ["gp/muygps.py", "gp/multivariate_muygps.py", "gp/kernels/rbf.py", "gp/kernels/matern.py", "_src/optimize/chassis/numpy.py", "gp/hyperparameter/scalar.py"],
  [("per-model hyperparameter objects", "gp/hyperparameter/scalar.py:NamedParameter"), ("deep copy in the optimiser", "_src/optimize/chassis/numpy.py:_new_muygps")],
  ["parameters and predictions of all models after every operation"])

p("C14", "Training batches are valid for every random draw",
  "A sampled training batch has distinct in-range indices and min(batch size, training size) members, each paired with its own neighbours. A class-balanced batch contains only points whose neighbourhoods are not of one single class, and from each class exactly as many as the equal share allows or exist; if the data do not exceed the batch size it contains every such point.",
  ["inputs", "histories"],
  "every outcome of the random draws, any data set, label set and batch size, exact and approximate neighbour lookups",
  "Tests check average proportions for a few seeds and data sets.",
  ["optimize/batch.py", "neighbors.py"],
  [("choice without replacement", "optimize/batch.py:sample_batch"), ("non-constant neighbourhood mask and per-class counts", "optimize/batch.py:sample_balanced_batch")],
  ["returned indices and neighbour indices"])

p("C15", "Training neighbours never include the point itself",
  "Neighbours looked up for training points (leave-one-out) have the requested number of distinct entries, never contain the point itself, and come nearest-first with distances matching the reported indices, also when training data contain duplicate points or the approximate index returns a legal but inexact answer. Neighbours for new points have the requested number, nearest first.",
  ["inputs", "fault_sequences", "configurations"],
  "any data set including duplicates and ties, every answer an approximate index may legally give (missed neighbours, any tie order), exact and approximate methods",
  "Tests use random distinct points, for which the library's nearest neighbour is always the point itself.",
  ["neighbors.py"],
  [("query k+1 and drop the point itself", "neighbors.py:NN_Wrapper.get_batch_nns")],
  ["returned neighbour indices and distances"])

p("C16", "Mini-batch optimisation does what its report says",
  "Mini-batch optimisation evaluates in every epoch a freshly drawn batch of distinct training points of the requested size (the whole training set when state is kept between epochs), each conditioned on its own neighbours, probes the numbers of points and steps it reports, and reports the processor time that elapsed. The first epoch tries the starting hyperparameters and, when probing of earlier points is asked for, every later epoch tries them and the best points of the earlier epochs again. The model it returns has hyperparameters within bounds equal to a point it evaluated, and leaves the input model unchanged, for every random draw and clock behaviour.",
  ["histories", "schedules", "fault_sequences"],
  "any number of epochs, keep-state and probe-previous modes, every random draw, clocks that stall or jump",
  "No test runs mini-batch optimisation under varied draws; its accounting is unchecked.",
  ["optimize/experimental/chassis.py"],
  [("epoch loop with fresh batches and probe accounting", "optimize/experimental/chassis.py:optimize_from_tensors_mini_batch")],
  ["evaluated batches and points, returned tuple"])

p("C17", "Predictions always reflect the current hyperparameters",
  "After any history of hyperparameter changes, scale optimisations, optimisations, copies and failed operations, a model's kernel, posterior mean and posterior variance are those of the Gaussian process at the hyperparameters the model then reports, and the variance is multiplied by the scale exactly once; an objective built from it is the loss at the given values, and at the reported ones where none is given. A new model reports the values and bounds it was given, and no noise and a unit scale where it was given none. A value outside its bounds and malformed bounds are refused and change nothing. This holds for single models and for every component of a multivariate model, with the numpy and with the torch backend.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of state-changing and predicting operations, including failing ones, on all kernels, deformations, noise and scale models",
  "Tests check one freshly built model after at most one change; stale values captured when the model was built, or applied twice after it is rebuilt, need longer histories.",
  ["gp/muygps.py", "gp/multivariate_muygps.py", "gp/variance.py", "gp/mean.py", "gp/hyperparameter/scale.py", "gp/hyperparameter/scalar.py", "gp/hyperparameter/vector.py", "gp/kernels/matern.py", "gp/kernels/kernel_fn.py", "optimize/objective.py", "_src/optimize/chassis/numpy.py", "_src/gp/muygps/torch.py", "_src/gp/kernels/torch.py"],
  [("rebuilding of the model's functions after each change", "gp/muygps.py:MuyGPS._make"), ("scale captured by the variance function", "gp/hyperparameter/scale.py:ScaleFn.scale_fn")],
  ["kernel values, means and variances compared with a reference model after each step"])

p("C18", "Optimised hyperparameters are in bounds and never worse than the start",
  "Whatever random points the search draws, the optimised model's free hyperparameters lie within their bounds, equal a point at which the objective was evaluated, and give an objective at least as good as the starting values and as every other evaluated point of a Bayesian search; fixed hyperparameters are unchanged. Each trial's objective is the loss of the model that has exactly the trial's values, whichever hyperparameters are fixed or free; a given random state decides where a Bayesian search begins.",
  ["inputs", "histories", "fault_sequences"],
  "every random draw of the search, any mix of fixed and free hyperparameters (isotropic, anisotropic, smoothness, noise), all losses, objectives that are flat, steep or momentarily not finite (where the search may also end with an error)",
  "Tests compare the mean error over a few seeds with a loose tolerance.",
  ["_src/optimize/chassis/numpy.py", "optimize/chassis.py", "optimize/objective.py", "gp/hyperparameter/vector.py", "gp/noise/homoscedastic.py", "gp/muygps.py"],
  [("probe of the initial point, maximum of the evaluated points", "_src/optimize/chassis/numpy.py:_bayes_opt_optimize"), ("names, values and bounds kept in one order", "gp/muygps.py:get_opt_params"), ("clamping to bounds", "_src/optimize/chassis/numpy.py:_new_muygps")],
  ["trial points and objective values, the returned model"])

p("C19", "High-level workflows equal the composition of their parts",
  "The regression, classification and fast-regression workflows return the predictions obtained by applying the returned model to the neighbours the returned lookup reports for the test points, with every test row in its own place (a row whose neighbours all carry one class label takes that label), and time reports that add up to the simulated time elapsed. Results depend on the data and the random seed only, not on clocks.",
  ["histories", "inputs", "schedules"],
  "any data, options and random draws, approximate lookups with any legal answer, clocks that advance arbitrarily or stall",
  "Tests bound the mean error of the predictions, which hides misaligned rows and stale state; clocks and draws are not varied.",
  ["examples/regress.py", "examples/classify.py", "examples/two_class_classify_uq.py", "examples/fast_posterior_mean.py", "examples/from_indices.py"],
  [("workflow drivers", "examples/regress.py:do_regress"), ("neighbourhood of the closest training point in the fast path", "examples/fast_posterior_mean.py:fast_posterior_mean_any")],
  ["returned predictions, models, lookups and timings"])

p("C20", "Deep-kernel training keeps neighbours consistent with the embedding",
  "At the end of a training run and after every neighbour update, the model's stored training neighbours and neighbour targets are those of the training points in the current embedding, do not include the point itself, and refer to the same training rows. A training run that is interrupted and resumed, or has its neighbours updated explicitly, satisfies the same. Each training step follows the gradient of the training loss, through both the predictions and the variances of the layer, in the embedding and in the length scale.",
  ["histories", "fault_sequences", "crash_points"],
  "any sequence of training runs, neighbour updates and predictions, any update frequency and batch, an interruption at any iteration",
  "Tests run one short training and look at the mean error only.",
  ["examples/muygps_torch.py", "torch/muygps_layer.py", "torch/multivariate_muygps_layer.py"],
  [("neighbour refresh in the training loop", "examples/muygps_torch.py:train_deep_kernel_muygps"), ("explicit refresh", "examples/muygps_torch.py:update_nearest_neighbors")],
  ["stored neighbour indices and targets, predictions, gradients at every optimiser step"])

p("C21", "Configuration overrides are confined to their context and thread",
  "A configuration value set for the duration of a context is seen only by the thread that set it and only inside the context, and when the context ends, normally or by an exception, every reader sees exactly what it saw before, for any nesting and interleaving. The configuration and the state the library itself consults always agree.",
  ["schedules", "histories", "fault_sequences"],
  "all nestings and interleavings of overrides on several threads and of global updates (of each name by one thread), with exceptions raised inside contexts",
  "No test uses a configuration context, let alone two threads.",
  ["_src/jaxconfig.py", "_src/config.py"],
  [("thread-local override with restore", "_src/jaxconfig.py:_StateContextManager"), ("update hooks mirroring values", "_src/config.py")],
  ["configuration values read by each thread"])

p("C22", "Kernel matrices are valid covariances",
  "Every kernel gives symmetric positive semi-definite matrices with unit diagonal that match its textbook formula for all distances and hyperparameters.",
  ["inputs"], "all points, distances and hyperparameters",
  "Tests check a few random matrices.",
  ["_src/gp/kernels/numpy.py", "gp/kernels/matern.py", "gp/kernels/rbf.py"],
  [("closed-form kernels", "_src/gp/kernels/numpy.py")], ["kernel values"])

p("C23", "All numeric backends compute the same functions",
  "The numpy, torch and JAX implementations of every tensor, kernel, posterior, loss and scale function agree to floating-point accuracy on every valid input.",
  ["inputs", "configurations"], "all inputs and precisions",
  "Tests compare backends on a few random arrays.",
  ["_src/gp/tensors/torch.py", "_src/gp/kernels/torch.py", "_src/gp/muygps/torch.py", "_src/optimize/loss/torch.py", "_src/optimize/scale/torch.py"],
  [("parallel implementations", "_src/gp/muygps/torch.py")], ["function values"])

p("C24", "Shear kernels equal the derivatives they stand for",
  "The shear kernels' blocks equal the corresponding mixed second and fourth derivatives of the scalar kernel for all separations and length scales.",
  ["inputs"], "all separations and length scales",
  "Tests compare with a second hand-written implementation on one grid.",
  ["_src/gp/kernels/shear/numpy.py", "gp/kernels/experimental/shear.py"],
  [("closed-form blocks", "_src/gp/kernels/shear/numpy.py")], ["kernel values"])

p("C25", "Exact neighbour search returns the true nearest neighbours",
  "The exact lookup returns, for every query, the k training points of smallest distance.",
  ["inputs"], "all data sets and queries",
  "Tests compare with brute force on random data.",
  ["neighbors.py"], [("delegation to the exact search library", "neighbors.py:NN_Wrapper._get_nns")], ["neighbour indices"])

p("C26", "Loss functions match their formulas and are minimised by the right model",
  "Each loss equals its documented formula on every input, including multi-response covariances.",
  ["inputs"], "all predictions, targets, variances and options",
  "Tests evaluate a few arrays.",
  ["_src/optimize/loss/numpy.py", "optimize/loss.py"],
  [("closed-form losses", "_src/optimize/loss/numpy.py")], ["loss values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
