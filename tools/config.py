"""What each check runs.  quick/thorough are numbers of seeds."""
REAL = ["all of MParT's host library (src/, MParT/), rebuilt from the working tree", "Kokkos core and its OpenMP back end", "Eigen", "NLopt", "cereal"]
STUB = ["libgomp entry points: worker threads are fibres chosen by the seeded scheduler at every memory access", "heap (malloc/new): seeded contents, reuse, failures, bounds and use-after-free detection", "clocks (time, clock_gettime, gettimeofday, std::chrono): simulated", "storage: streams over a simulated disk"]
ASSUME = ["library code is compiled at -O1 with access instrumentation instead of -O3; IEEE arithmetic without contraction",
          "the interleaving granularity is one memory access of instrumented code; sequentially consistent memory (data races are reported separately by a happens-before check)",
          "system libraries (Kokkos core, NLopt, libstdc++) run real code but their own accesses are not scheduling points"]
CHECKS = {
 "P01": dict(level="exploration", workloads=[dict(name="p01", quick=9000, thorough=150000)],
   rule="Each seed draws a map, expansion or density from the factory options, a batch, memory layouts, output contents, a team size, a schedule strategy and heap contents; every operation of the batch is compared entry by entry with the same point processed alone in turn on clean memory, under happens-before race detection and memory checking. Non-trivial: at least one operation compared."),
 "P02": dict(level="exploration", workloads=[dict(name="p02", quick=12000, thorough=250000)],
   rule="Each seed builds a map from random options and drives it through a history of coefficient changes and operations of every kind in random order, layout and thread schedule, on scribbled memory; each result is compared with an independent reference that evaluates the definition point by point (accurate quadrature, analytic chain rule). Non-trivial: at least one result compared."),
 "P03": dict(level="exploration", workloads=[dict(name="p03", quick=5000, thorough=60000)],
   rule="Each seed builds a map, batches of conditioning inputs and targets (including unreachable, non-finite and extreme ones), and checks under random schedules that forward of inverse gives the target, inverse of forward the input, that unreachable entries are not-a-number without disturbing other points, and that outputs increase in their own input. Non-trivial: at least one round trip completed."),
 "P04": dict(level="exploration", workloads=[dict(name="p04", quick=24000, thorough=400000)],
   rule="Each seed builds an object graph (components, containers, shared parts) and runs 10-35 steps of set, wrap, edit through views, wrong lengths, rebuilding and dropping containers, and use; after every step every object's coefficients and every caller buffer and kept result are compared with an explicit ownership model. Non-trivial: at least one comparison."),
 "P05": dict(level="exploration", workloads=[dict(name="p05", quick=6000, thorough=90000)],
   rule="Each seed builds serialisable objects (maps set and unset, index sets in both storage forms, options), writes them through a simulated disk that may fill up, write short, fail or lose a suffix at any byte, reads them back in arbitrary chunks, truncated, or with errors, and compares every operation of what loads with the original. Non-trivial: at least one object loaded and compared."),
 "P06": dict(level="exploration", workloads=[dict(name="p06", quick=24000, thorough=450000)],
   rule="Each seed builds a map, density or index set and runs 4-10 steps: operations, coefficient changes, container building, factories, saving, sampling and objectives with the n-th (or the n-th and all later) allocation failing under random schedules, malformed arguments, and overflowing values; every failure must reach the caller as an ordinary exception, leave all coefficients as they were, and the repeated call must give the fault-free result. Non-trivial: at least one fault fired or malformed argument offered."),
 "P07": dict(level="exploration", workloads=[dict(name="p07", quick=8000, thorough=100000)],
   rule="Each seed trains a random map (or its coefficients under a synthetic objective) with one of thirteen NLopt algorithms under evaluation and simulated-time limits through a recording objective; the k-th evaluation throws, returns non-finite values or gradients, or runs out of memory, and the clock stalls or jumps; every evaluation, the limits, the reported value, the coefficients left behind and the result under other schedules are checked, and the built-in objective and gradient are compared with the reference log-likelihood. Non-trivial: at least one training judged."),
 "P08": dict(level="exploration", workloads=[dict(name="p08", quick=4500, thorough=80000)],
   rule="Each seed runs adaptive training on a random problem (data, initial sets, size, degree and patience limits) through a recording objective; a model of the growth rule replays what the objective reported and predicts every added term, every candidate map, when growth stops and which sets come back; runs are repeated under other schedules (must be identical), with the objective failing or reporting zero or non-finite gradients at a chosen evaluation, and with malformed arguments. Non-trivial: at least one adaptive training followed."),
 "P09": dict(level="exploration", workloads=[dict(name="p09", quick=16000, thorough=250000)],
   rule="Each seed builds one or two Gaussian samplers and up to three transport samplers over them (nested, shared maps, through the distribution factories) and runs 4-13 steps of seeding (often with the same seed again), drawing in every form and layout under random schedules, clock jumps and coefficient changes; every draw is compared, bit by bit for Gaussians, with the same draws repeated on a freshly built twin (at once or at the end of the run) taken through the maps, and larger draws with the mean, covariance, shape and reported density. Non-trivial: at least one draw compared."),
 "P10": dict(level="exploration", workloads=[dict(name="p10", quick=14000, thorough=200000)],
   rule="Each seed builds a tower of Gaussian, pullback and pushforward densities over maps that may be shared, changes coefficients between calls, and compares log-densities and gradients with the change of variables computed by the reference. Non-trivial: at least one value compared."),
 "P11": dict(level="exploration", workloads=[dict(name="p11", quick=3500, thorough=40000)],
   rule="Each seed composes 1-12 layers (shared, nested) under every checkpoint budget in turn and interleaves all operations; each result is compared with the chain computed layer by layer in the reference, and across budgets. Non-trivial: at least one result compared."),
 "P12": dict(level="exploration", workloads=[dict(name="p12", quick=24000, thorough=400000)],
   rule="Each seed runs 4-28 edits (add, activate, expand, force, merge, re-limit, copy, assign) on up to five sets of dimension 1-4 under limiters including non-monotone ones, with heap reuse and quarantine checks; after each edit numbering, neighbourhood queries and the set of newly active terms are compared with those computed from the definition. Non-trivial: at least one state compared."),
 "P13": dict(level="exploration", workloads=[dict(name="p13", quick=16000, thorough=150000)],
   rule="Each seed is a whole process life: start-up calls in all argument forms (or the application starting Kokkos first), uses of the library under a random schedule, exit handlers, manual shutdown, and exit through the real handlers; the runtime's state, thread count, warnings and number of shutdowns are checked. Non-trivial: at least one start-up call checked."),
}
NA = {
 "P14": "Pure functions of their arguments: a basis value or quadrature rule depends on no schedule, clock, I/O, fault or history, so there is nothing for a simulator to decide; formula checks belong to other techniques. (Their use inside maps is exercised against the reference model under P02.)",
 "P15": "The Julia and MATLAB bindings and the GPU back ends are not built here (no Julia, MATLAB or CUDA). The Python module is built, but each binding call is a single-threaded argument conversion around the host call whose behaviour is decided under the other properties; the interpreter itself cannot be put behind the simulator's seams.",
}
