"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(d)


OPT = "nevergrad/optimization/"
PAR = "nevergrad/parametrization/"
BEN = "nevergrad/benchmark/"
FUN = "nevergrad/functions/"

prop("P01", "Seeding the parametrization makes a run reproducible",
     "Every random choice made by an optimizer, a parametrization, a sampler or a mutation is drawn from the random state "
     "attached to the parametrization, or from a generator seeded from it. None of them draws from the process-wide numpy or "
     "standard-library generators, from an unseeded generator, from the clock, or from hash-dependent iteration order. "
     "Sub-parametrizations and sub-optimizers created internally share or derive that same random state before they draw.",
     ["inputs", "histories", "configurations"],
     "every registered optimizer, every parametrization, every ask/tell history, every process",
     "Tests seed both the global generator and the random state, in one process with PYTHONHASHSEED=0, for a few asks of one "
     "configuration of each optimizer: a draw from the wrong source on another branch, or an order that depends on string hashing, is invisible.",
     [OPT + "base.py", OPT + "optimizerlib.py", OPT + "differentialevolution.py", OPT + "recastlib.py", OPT + "metamodel.py", OPT + "sequences.py",
      PAR + "core.py", PAR + "data.py", PAR + "mutation.py", PAR + "choice.py"],
     [("optimizers pull from the parametrization's random state", OPT + "base.py Optimizer._rng"),
      ("random state is lazily created once and propagated to sub-parameters", PAR + "core.py Parameter.random_state, _set_random_state"),
      ("sub-optimizers get the wrapper's parametrization or a synchronised one", OPT + "optimizerlib.py SplitOptimizer.__init__, Portfolio.__init__, _Chain.__init__")],
     observe=["sequence of candidate values for a given seed"])

prop("P02", "Asked, told and reference parameters are frozen, and frozen means immutable",
     "A candidate is frozen before it is returned by ask on every path, and before tell processes it; the parametrization given "
     "to an optimizer is frozen at construction. Every operation that changes a parameter's value or its data refuses "
     "to run on a frozen parameter before it has changed anything, including when it is applied through a container to sub-parameters. "
     "Library code only writes a parameter's data through those guarded operations, or on an object it has just created.",
     ["inputs", "histories"],
     "every parameter type, every mutating entry point, every ask and tell path",
     "Tests exercise a handful of mutators on arrays; nothing enumerates every mutator of every parameter class or every direct write in the optimizers.",
     [PAR + "core.py", PAR + "data.py", PAR + "_layering.py", PAR + "_datalayers.py", PAR + "container.py", PAR + "choice.py", PAR + "mutation.py", OPT + "base.py"],
     [("guard", PAR + "core.py Parameter._check_frozen"), ("freeze propagates to sub-parameters", PAR + "core.py Parameter.freeze"),
      ("ask/tell freeze", OPT + "base.py Optimizer.ask, tell, __init__")],
     state=[("_frozen", "the parameter may not change any more", PAR + "core.py")])

prop("P03", "Copies and children share no mutable state with the original",
     "A copy or child of a parameter (and of each of its layers, sub-parameters and function metadata) can be changed in any way without the original or a "
     "sibling observing it, and conversely; the random state is the only object deliberately shared. A copy starts with a fresh identity, "
     "unfrozen, without loss and without algorithm metadata.",
     ["inputs", "histories"],
     "every parameter/layer class, every attribute, every interleaving of changes to original and copies",
     "Tests copy a few parameters and change one or two attributes; aliasing of any other container only shows up for a specific later mutation.",
     [PAR + "core.py", PAR + "_layering.py", PAR + "_datalayers.py", PAR + "data.py", PAR + "choice.py", PAR + "container.py", PAR + "utils.py"],
     [("copy protocol", PAR + "_layering.py Layered.copy; " + PAR + "core.py Parameter.copy"),
      ("sub-parameter handling", PAR + "utils.py Subobjects.new")])

prop("P04", "Reading a parameter never changes it, and reads are never stale",
     "After any change to a parameter's data made through that parameter (setting its value or an item, standardized data, mutation, recombination, copy), every later read of its value, dimension, sampled choice or mutation width reflects that change: anything "
     "computed and remembered from the data is discarded whenever the data is rewritten. Reading the value never alters the underlying data, except that data outside the bounds or the constraint is replaced by the point whose value is returned.",
     ["inputs", "histories"],
     "every parameter with layers (integer casting, bounds, choices, softmax), every order of reads and writes",
     "Tests read after write once; a stale cache needs a read, then a particular write path, then another read, on a particular layer stack.",
     [PAR + "_layering.py", PAR + "_datalayers.py", PAR + "data.py", PAR + "choice.py", PAR + "mutation.py", PAR + "core.py"],
     [("cache invalidation", PAR + "_layering.py ValueProperty, Layered._layered_del_value; " + PAR + "core.py set_standardized_data"),
      ("per-layer caches", PAR + "_layering.py Int; " + PAR + "_datalayers.py SoftmaxSampling, AngleOp...")])

prop("P05", "Each ask and each tell is counted exactly once and classified correctly",
     "Every ask that returns a candidate increases the ask counter by exactly one whatever happened inside, and registers the candidate as asked unless it is a "
     "user suggestion. Every tell of an evaluation that returns normally (a bare multi-objective reference point is none) increases the tell counter by exactly one and delivers the loss exactly once to the algorithm, through the "
     "asked route if and only if the candidate was asked for and not yet told, and otherwise through the not-asked route with the not-asked counter increased by one. "
     "A tell that rejects its arguments (wrong type, wrong number of losses, misplaced reference) leaves all counters and the archive untouched.",
     ["inputs", "histories", "fault_sequences"],
     "every path through ask and tell, every algorithm, every order of asks and tells, every rejected input",
     "Tests check counters on one or two happy histories; constraint retries, penalised tells, suggestions, multi-objective references and error paths multiply.",
     [OPT + "base.py", OPT + "recaster.py", OPT + "optimizerlib.py"],
     [("counters and asked set", OPT + "base.py Optimizer.ask, Optimizer.tell")],
     state=[("_asked", "uids asked and not yet told", OPT + "base.py"), ("_num_ask/_num_tell/_num_tell_not_asked", "counters", OPT + "base.py")])

prop("P06", "minimize never overspends the budget and never loses or repeats an evaluation",
     "minimize asks at most the remaining budget, keeps at most as many evaluations in flight as there are workers, submits each asked candidate exactly once, and tells "
     "each finished evaluation exactly once with the candidate it belongs to. If it is interrupted (exception, early stopping, time limit) no started or finished evaluation that was not told is "
     "dropped, so that calling it again resumes; an exception of the objective propagates to the caller.",
     ["schedules", "histories", "fault_sequences"],
     "every executor completion order, every interruption point, every budget and worker count",
     "Tests use two or three executors and one interruption; the property quantifies over completion orders and exception points.",
     [OPT + "base.py", OPT + "utils.py"],
     [("job bookkeeping", OPT + "base.py Optimizer.minimize"), ("sequential executor", OPT + "utils.py SequentialExecutor, DelayedJob")],
     state=[("_running_jobs/_finished_jobs", "evaluations in flight / to be told", OPT + "base.py")])

prop("P07", "Incumbents and the archive only record admissible, sanitised evaluations",
     "A told scalar loss that is NaN, plus infinity or above the clipping threshold is clipped (with a warning) before anything records or uses it, whatever numeric type it is wrapped in. "
     "When a budget is given, an evaluation whose candidate violates a constraint never updates the archive or the current bests; every other one updates the archive exactly once and each of the current bests "
     "is replaced only by an entry that is at least as good for its own criterion, and re-elected from the whole archive when the entry it relied on changes; pruning the archive never removes an entry that is among the best.",
     ["inputs", "histories"],
     "every loss type and value, every constraint status, every sequence of repeated evaluations of the same point",
     "Tests tell a few floats; wrapped NaNs, repeated evaluations that worsen the incumbent and constraint paths are combinations they do not sample.",
     [OPT + "base.py", OPT + "utils.py"],
     [("loss checks", OPT + "base.py Optimizer.tell"), ("archive update", OPT + "base.py Optimizer._update_archive_and_bests"),
      ("estimates", OPT + "utils.py MultiValue")])

prop("P08", "Optimizers and parametrizations stay picklable",
     "No optimizer, parametrization, layer, transform, sampler or executor that can be checkpointed ever stores in its attributes an object that pickle refuses: a lambda or local function or class, a "
     "generator or iterator, a lock, a thread or an open file, unless its own state hooks remove and rebuild it. Dumping writes the whole optimizer to the given file, and loading checks the class of what it read.",
     ["histories", "configurations"],
     "every class, every configuration option and every moment at which an optimizer may be dumped",
     "Tests dump each registered optimizer once after two asks; attributes set lazily, by other options or later in the run are not reached.",
     [OPT + "base.py", OPT + "recaster.py", OPT + "optimizerlib.py", OPT + "recastlib.py", PAR + "core.py", PAR + "_layering.py", PAR + "data.py"],
     [("dump/load", OPT + "base.py Optimizer.dump, load"), ("state hooks", OPT + "recaster.py RecastOptimizer.__getstate__, SequentialRecastOptimizer")])

prop("P09", "Wrapped blocking optimizers always hand over, finish and clean up",
     "When an algorithm written as a blocking loop runs in a background thread, every exit of that loop, normal or exceptional, is reported to the waiting side, so ask never hangs: it returns a "
     "candidate or raises or falls back. Each query posted by the thread is answered exactly once with the loss told for that query, the thread never keeps the optimizer or the program alive, and deleting or stopping the "
     "optimizer releases the thread.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of the two threads, every exception in the wrapped algorithm, every deletion point",
     "Tests run a few wrapped optimizers to the end of their budget; hangs need an exception or a deletion at a particular moment.",
     [OPT + "recaster.py", OPT + "recastlib.py"],
     [("message exchange", OPT + "recaster.py _MessagingThread, MessagingThread"), ("ask/tell over messages", OPT + "recaster.py RecastOptimizer")])

prop("P10", "The reported Pareto front contains only, and all, non-dominated evaluations",
     "In multi-objective runs every told evaluation is offered to the front and dominated points are filtered out (by Pareto dominance) before the front or any subset of it is returned. A point is left out only because an already kept "
     "point dominates or equals it, because it adds no dominated volume, or because it exceeds the reference bounds while better points are known. The front returned never aliases the internal list, and a requested subset is drawn from the filtered front without repetition.",
     ["inputs", "histories"],
     "every sequence of multi-objective losses, every subset method",
     "Tests check a few two-objective sequences.",
     [OPT + "multiobjective/core.py", OPT + "multiobjective/nsga2.py", OPT + "base.py"],
     [("front maintenance", OPT + "multiobjective/core.py HypervolumePareto"), ("ranking", OPT + "multiobjective/nsga2.py")])

prop("P11", "A seeded experiment plan is entirely determined by its seed",
     "Every experiment produced by a registered experiment plan receives its own seed from the plan's seed generator, and the plan itself (which experiments, in which order, with which settings) makes no draw from an unseeded or "
     "global generator. Running an experiment seeds every generator it uses before building the function copy and the optimizer, and only then.",
     ["configurations", "inputs"],
     "every registered plan and every experiment it yields",
     "Tests look at the first few experiments of each plan and skip many; a plan that forgets its seed on a later branch is not reached.",
     [BEN + "experiments.py", BEN + "frozenexperiments.py", BEN + "gymexperiments.py", BEN + "xpbase.py", BEN + "core.py"],
     [("seed generator", BEN + "xpbase.py create_seed_generator"), ("seeding of a run", BEN + "xpbase.py Experiment._run_with_error"), ("plans", BEN + "experiments.py registry")])

prop("P12", "Configuration options reach the algorithm and names identify it",
     "Every option accepted by a configurable optimizer is delivered to the algorithm it builds and read there, with the same default on both sides, and two different option values are never silently treated alike because an option is dropped. "
     "Every optimizer is registered once, under the name of the public object it denotes, so that looking the name up gives that very object.",
     ["configurations"],
     "every configurable optimizer, every option, every registered name",
     "Tests instantiate defaults; an option that is accepted but ignored changes nothing a smoke test observes.",
     [OPT + "base.py", OPT + "optimizerlib.py", OPT + "oneshot.py", OPT + "differentialevolution.py", OPT + "es.py", OPT + "recastlib.py", OPT + "families.py", OPT + "experimentalvariants.py", OPT + "externalbo.py", "nevergrad/common/decorators.py"],
     [("configured optimizers", OPT + "base.py ConfiguredOptimizer"), ("registry", "nevergrad/common/decorators.py Registry")])

prop("P13", "Meta-optimizers route every evaluation back to the sub-optimizers that need it",
     "An optimizer that delegates to sub-optimizers tells each sub-optimizer the loss of the very candidate that sub-optimizer produced, exactly once, and on every path on which it accepts a loss at least one sub-optimizer is told. "
     "Sub-optimizers work on the same parametrization (or a synchronised part of it), receive the worker count and budget of their share, and requests to become picklable are forwarded to all of them.",
     ["histories", "configurations"],
     "every delegating optimizer, every ask/tell interleaving",
     "Tests run each meta-optimizer for a couple of steps with one worker.",
     [OPT + "optimizerlib.py", OPT + "base.py"],
     [("delegation", OPT + "optimizerlib.py Portfolio, _Chain, _Rescaled, SplitOptimizer, _MetaModel, NGOptBase, _MSR")])

prop("P14", "Bounded parameters never leave their bounds",
     "A bounding transform maps every real input into the closed interval between its bounds, and maps back only values inside it, rejecting others. A bounded parameter's value is produced through such a transform or a clipping, reflecting or wrapping step that ends inside the bounds, on "
     "every path that sets data, and every supported bounding method is implemented by exactly one such step.",
     ["inputs"],
     "every real input, every pair of bounds, every bounding method",
     "Tests sample a few values per method.",
     [PAR + "transforms.py", PAR + "_datalayers.py", PAR + "data.py"],
     [("transforms", PAR + "transforms.py BoundTransform subclasses"), ("bound layers", PAR + "_datalayers.py Bound, BoundLayer"), ("entry", PAR + "data.py Data.set_bounds")])

prop("P15", "Cheap constraints are honoured or the failure is announced",
     "ask never returns a candidate that violates a registered constraint without having retried, run the constraint solver when that is allowed, and emitted the dedicated warning. Constraint checks cover the constraints of sub-parameters as well as the parameter's own, treat a float as satisfied exactly when its penalty "
     "is not positive, and survive copying and spawning of the parameter. The penalty of a violating candidate adds up the violations of its own constraints and of those of its sub-parameters.",
     ["inputs", "histories"],
     "every constraint set, every candidate, every path of ask",
     "Tests use two or three constraints on arrays.",
     [OPT + "base.py", PAR + "core.py", PAR + "utils.py", OPT + "utils.py"],
     [("constraint loop", OPT + "base.py Optimizer.ask"), ("check", PAR + "core.py Parameter.satisfies_constraints"), ("penalty", PAR + "utils.py float_penalty")])

prop("P16", "Instantiating a code folder never touches the original files",
     "Running a user's code folder with substituted placeholders only ever writes inside the temporary copy: a file that may be a link into the original folder is removed before it is rewritten, the temporary copy is deleted when the run ends or fails, and the original "
     "folder is only read. The command is run without a shell, its failure (non-zero exit) is raised as an error, and the child process is always reaped.",
     ["inputs", "fault_sequences"],
     "every folder content, every placeholder set, every failure of the command",
     "Tests use one small folder; damage to an original through a link, or a leaked temporary folder, needs a failure at a particular step.",
     [PAR + "instantiate.py", PAR + "utils.py"],
     [("copy and substitution", PAR + "utils.py TemporaryDirectoryCopy; " + PAR + "instantiate.py FileTextFunction, FolderInstantiator"), ("command", PAR + "utils.py CommandFunction")])

prop("P17", "Temporary settings are always put back",
     "Every piece of state the library changes temporarily (environment variables, deterministic sampling of a parameter, warning filters, an optimizer's own budget while it evaluates alternatives, the current directory) has its previous value again when the operation "
     "ends, whether it ends normally or by an exception.",
     ["fault_sequences", "inputs"],
     "every exit of every scope that overrides state",
     "Tests exercise the normal exit.",
     ["nevergrad/common/tools.py", PAR + "helpers.py", OPT + "base.py", OPT + "optimizerlib.py", PAR + "_layering.py"],
     [("environment", "nevergrad/common/tools.py set_env"), ("deterministic sampling", PAR + "helpers.py deterministic_sampling"), ("competence maps", OPT + "optimizerlib.py _select_optimizer_cls")])

prop("P18", "Optimizer instances do not influence each other",
     "Building or running one optimizer never changes registered optimizers, configured-optimizer factories, class-level or module-level state or default argument values, so that the behaviour of an optimizer depends only on its own arguments and history, not on which other optimizers were "
     "created or run before it in the process.",
     ["histories", "configurations"],
     "every sequence of constructions and runs of any optimizers in one process",
     "Each test builds its optimizers in one fixed order.",
     [OPT + "base.py", OPT + "optimizerlib.py", OPT + "es.py", OPT + "differentialevolution.py", OPT + "oneshot.py", OPT + "recastlib.py", PAR + "core.py"],
     [("factories are read-only after construction", OPT + "base.py ConfiguredOptimizer"), ("per-instance state", OPT + "base.py Optimizer.__init__")])

prop("P19", "The package works with its mandatory dependencies only",
     "Importing the package, its optimizers, parametrizations and functions needs nothing beyond the declared mandatory requirements: anything else is imported lazily inside the feature that needs it, or its absence is tolerated and every use of it is guarded. Modules of the parametrization layer never import "
     "the optimization or benchmark layers at import time.",
     ["configurations"],
     "every subset of installed optional packages",
     "The test environment has one fixed set of packages installed.",
     ["nevergrad/__init__.py", OPT + "*.py", PAR + "*.py", FUN + "*.py", BEN + "xpbase.py", "requirements/main.txt"],
     [("lazy/guarded imports", OPT + "recastlib.py, optimizerlib.py; " + BEN + "xpbase.py")])

prop("P20", "Standardized data is always read and written against the same reference",
     "Whenever an optimizer converts a candidate to or from the standardized space, it uses the optimizer's own parametrization as the reference on both sides (never the candidate itself, another candidate, or a possibly mutated relative), so that points from different candidates are comparable; only a random step added to a candidate, or a distance to it, may be relative to that candidate.",
     ["inputs", "histories"],
     "every conversion in every optimizer, for every candidate lineage",
     "With the default parametrizations of the tests a wrong reference often gives the same numbers.",
     [OPT + "base.py", OPT + "optimizerlib.py", OPT + "differentialevolution.py", OPT + "es.py", OPT + "oneshot.py", OPT + "recaster.py", OPT + "utils.py", PAR + "core.py"],
     [("conversion API", PAR + "core.py get_standardized_data/set_standardized_data")])

prop("P21", "Competence maps always select a usable optimizer",
     "For any given budget and whatever the problem (dimension, workers, noise, discreteness, objectives), an automatic selector ends by returning an optimizer class or factory, never nothing and never an undefined choice. Every composite it builds is well formed: chains have one more optimizer than budgets, "
     "budget keywords and registered names exist, and options are accepted by the factory they are given to.",
     ["configurations", "inputs"],
     "every branch of every selector, every composite optimizer expression in the library",
     "Tests reach a few dozen branches out of several hundred.",
     [OPT + "optimizerlib.py", OPT + "experimentalvariants.py", OPT + "families.py"],
     [("selectors", OPT + "optimizerlib.py *._select_optimizer_cls"), ("chains", OPT + "optimizerlib.py _Chain")])

prop("P22", "Telling points the algorithm did not ask for is safe",
     "Every algorithm either processes a told candidate that it never asked for (including user suggestions and candidates from other optimizers) without relying on information it only attaches to its own candidates, or refuses it with the dedicated error before changing the state of the algorithm.",
     ["histories"],
     "every algorithm, every order of asked and not-asked tells",
     "Tests tell one unasked point to each registered default configuration at the start of a run.",
     [OPT + "base.py", OPT + "optimizerlib.py", OPT + "differentialevolution.py", OPT + "es.py", OPT + "oneshot.py", OPT + "recaster.py", OPT + "externalbo.py"],
     [("dispatch", OPT + "base.py Optimizer.tell"), ("per-algorithm hooks", OPT + "*.py _internal_tell_not_asked")])

prop("P23", "Errors of user code and of algorithms are never swallowed",
     "An exception raised by the objective function, by a constraint, by a callback or inside an algorithm reaches the caller: the core loop, the executors, the wrappers and the parametrization catch only specific, expected exceptions and otherwise re-raise. The benchmark runner is the one place that records an "
     "objective's error in the result instead, and it does so without hiding which error it was.",
     ["fault_sequences"],
     "every raise point under every try block of the library core",
     "Tests raise errors at one or two places.",
     [OPT + "base.py", OPT + "recaster.py", OPT + "callbacks.py", OPT + "utils.py", PAR + "utils.py", BEN + "xpbase.py", BEN + "execution.py"],
     [("error transport", OPT + "recaster.py RecastOptimizer._check_error"), ("benchmark error capture", BEN + "xpbase.py Experiment.run")])

prop("P24", "Callbacks run exactly once per event and logging never disturbs the run",
     "Each callback registered for ask runs exactly once per ask before the candidate is produced, and each callback registered for tell runs exactly once per successful tell with the candidate and its loss, in registration order. The bundled loggers append one record per tell or report at the requested intervals, never alter the candidate, the loss or the optimizer's "
     "algorithmic state, and only the stopping callback may interrupt the run, with the dedicated exception.",
     ["histories"],
     "every callback set, every ask/tell history",
     "Tests register one callback and look at one log file.",
     [OPT + "base.py", OPT + "callbacks.py"],
     [("dispatch", OPT + "base.py Optimizer.ask, Optimizer.tell"), ("callbacks", OPT + "callbacks.py")])

prop("P25", "Copying a benchmark function yields an equivalent, independent function",
     "A copy of an experiment function has the same descriptors, the same parametrization traits, the same constraints and the same multi-objective bounds as the original, gets its own random state, and shares no mutable object with it; settings assigned before the base initialisation "
     "are not lost. Every function class records all its init arguments, so the default copy rebuilds it.",
     ["inputs", "configurations"],
     "every experiment function class and every setting that can be changed after construction",
     "Tests copy a few instances and compare descriptors.",
     [FUN + "base.py", FUN + "functionlib.py", PAR + "core.py"],
     [("copy", FUN + "base.py ExperimentFunction.copy, _internal_copy, __new__")])

prop("P26", "Population bookkeeping survives any order of asks and tells",
     "Population-based algorithms keep their population and their queue of identifiers consistent whatever the order of asks and tells (late, repeated, for a removed parent, of points never asked for): every queued identifier designates a member and every member is queued, a removed member leaves no identifier behind, and only identifiers known to be there are looked up or removed. "
     "Points that are ranked against each other are distinct and already evaluated.",
     ["histories", "schedules"],
     "every path of the ask and tell hooks of every algorithm with a queue, from any consistent state",
     "Tests tell each point once, in order, and mostly with one worker and one objective.",
     [OPT + "differentialevolution.py", OPT + "es.py", OPT + "optimizerlib.py", OPT + "utils.py", OPT + "multiobjective/nsga2.py"],
     [("queue", OPT + "utils.py UidQueue"), ("populations", OPT + "differentialevolution.py _DE, " + OPT + "es.py _EvolutionStrategy, " + OPT + "optimizerlib.py _PSO")])

prop("N01", "Optimizers converge on well-behaved functions",
     "Given enough budget, each optimizer recommends a point whose loss approaches the optimum of smooth unimodal functions.",
     ["inputs", "histories"], "every smooth unimodal function and every seed",
     "Tests check one quadratic for a few algorithms.", [OPT + "optimizerlib.py"], [("algorithms", OPT + "*.py")])
prop("N02", "Standardized data round-trips exactly",
     "Exporting a parameter to the standardized space and importing it back on a fresh child with the same reference reproduces the value, for every deterministic parameter type and every admissible value.",
     ["inputs"], "every parameter value", "Tests sample a few values.", [PAR + "data.py", PAR + "_datalayers.py", PAR + "transforms.py"], [("export/import", PAR + "data.py")])
prop("N03", "The hypervolume indicator equals the dominated volume",
     "The hypervolume returned for a set of losses and a reference point is the Lebesgue measure of the region they dominate, for any number of objectives.",
     ["inputs"], "every finite set of loss vectors", "Tests check small fixed sets.", [OPT + "multiobjective/hypervolume.py"], [("algorithm", OPT + "multiobjective/hypervolume.py")])
prop("N04", "Samplers have the advertised distribution or discrepancy",
     "Points produced by the quasi-random and random samplers lie in the unit cube and have the low discrepancy or distribution their documentation announces.",
     ["inputs"], "every dimension and budget", "Tests compare a few points.", [OPT + "sequences.py", OPT + "oneshot.py"], [("samplers", OPT + "sequences.py")])
prop("N05", "Splitting a benchmark partitions its experiments",
     "Splitting an experiment plan into any number of chunks, recursively, assigns each experiment index to exactly one chunk and the chunk lengths add up to the total.",
     ["inputs"], "every total length and every split tree", "Tests split one small plan.", [BEN + "core.py"], [("moduler", BEN + "core.py Moduler")])
prop("N06", "The mocked parallel executor releases jobs in simulated-time order",
     "In steady mode the simulated executor makes exactly one unread job available at a time, in order of release time with submission order as tie-break, and its clock never goes back.",
     ["schedules"], "every sequence of submissions and reads and every delay function", "Tests check a few delay sequences.", [BEN + "execution.py"], [("executor", BEN + "execution.py MockedTimedExecutor")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P), "properties")
