"""Writes properties.jsonl (kept as a script so the JSON stays well formed)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
      mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Concurrent calls on different threads do not affect each other",
  "Any number of threads may call init and apply (plain or under jax.jit) at the same time, on the same or on different transformed functions and sharing parameters, state, keys and initialisers, and every call returns or raises exactly what it does when it runs alone. Creators, getters, interceptors, name scopes and RNG scopes opened by one thread are never seen by code running on another thread, and concurrent calls never deadlock.",
  ["schedules", "programs"], "every interleaving of every set of calls made from several threads",
  "The only threaded unit test pushes onto one stack from a second thread; no test interleaves two calls, so every race between calls is unexplored.",
  ["haiku/_src/data_structures.py", "haiku/_src/base.py", "haiku/_src/module.py", "haiku/_src/transform.py", "haiku/_src/random.py", "haiku/_src/stateful.py"],
  [("thread-local frame, creator, getter and interceptor stacks", "haiku/_src/base.py, haiku/_src/module.py"), ("a fresh context per init/apply call", "haiku/_src/transform.py")],
  [("frame stack", "the transform each thread is currently inside", "haiku/_src/base.py")], ["hk.transform_with_state(f).init", "hk.transform_with_state(f).apply"])

p("C02", "A failed init or apply leaves nothing behind",
  "If anything fails while init or apply runs (the user's function, an initialiser, a creator, getter, interceptor, or a JAX call that Haiku makes), at any point and with any exception type including KeyboardInterrupt and SystemExit, that same exception reaches the caller. Afterwards the thread is outside every transform, no scope, creator, getter or interceptor of the failed call is still active, and every later call on that or any other thread behaves as if the failed call had never been made.",
  ["fault_sequences", "histories", "programs"], "every point at which a call can fail, every exception type, and every history of calls after it",
  "One unit test raises one exception type at one point of one function; failure inside initialisers, constructors, nested transforms or Haiku's own JAX calls, and what later calls then do, is not sampled.",
  ["haiku/_src/base.py", "haiku/_src/data_structures.py", "haiku/_src/module.py", "haiku/_src/transform.py", "haiku/_src/random.py"],
  [("context manager exit pops exactly the frame it pushed", "haiku/_src/base.py"), ("try/finally in stack scopes", "haiku/_src/data_structures.py")],
  [("frame stack", "must be back to its depth before the call", "haiku/_src/base.py")], ["exceptions raised by init/apply", "results of later calls"])

p("C03", "Scopes cover exactly their block, also when it fails and is caught",
  "Inside a transformed function, a module method, name scope, RNG scope, creator, getter or method interceptor is in force for exactly the dynamic extent of its block: nested ones run outermost first, a getter or interceptor that does not call the next one short-circuits the rest, and none is in force after its block ends. When a block ends by an exception that the user's code catches, the surrounding scopes are again exactly those in force where it is caught, so later parameters, state, keys, module names and interceptions are those of a program whose failed block was simply cut short at the failure.",
  ["fault_sequences", "programs", "schedules"], "every nesting of scopes, every failure point inside it that user code catches, on every thread",
  "Tests open one or two scopes and leave them normally; scope restoration after a caught failure at an arbitrary depth is not tested.",
  ["haiku/_src/base.py", "haiku/_src/module.py", "haiku/_src/data_structures.py"],
  [("stack context managers", "haiku/_src/data_structures.py"), ("method wrapping", "haiku/_src/module.py"), ("run_creators / run_getters / run_interceptors", "haiku/_src/base.py, haiku/_src/module.py")],
  (), ["hk.get_parameter", "hk.get_state", "hk.next_rng_key", "module.module_name", "interceptor calls"])

p("C04", "Haiku's JAX control flow commits all of its effects or none",
  "hk.jit, remat, grad, value_and_grad, cond, switch, scan, fori_loop, while_loop, vmap and named_call return what the same function computes in plain Python (taken branch, loop iterations in order) and leave parameters, state and (when keys are requested one at a time and none were reserved in advance) the RNG sequence exactly as that plain execution would. If the wrapped function or JAX fails at any point during apply and the failure is caught, parameters, state and the RNG sequence are exactly as they were before the call; hk.eval_shape never changes any of them.",
  ["fault_sequences", "programs", "schedules"], "every wrapped function, nesting of wrappers, failure point inside them, and interleaving with other threads",
  "Tests run fixed single wrappers that succeed; nesting, repeated use with short-lived functions, state and keys threaded through several wrappers in a row, and failure inside a wrapper are not covered.",
  ["haiku/_src/stateful.py", "haiku/_src/base.py"],
  [("temporary_internal_state / update_internal_state", "haiku/_src/stateful.py"), ("difference", "haiku/_src/stateful.py"), ("reserve_up_to_full_rng_block", "haiku/_src/stateful.py")],
  [("internal state", "params, state and rng of the current frame", "haiku/_src/stateful.py")], ["values returned by the wrappers", "state returned by apply", "keys drawn after the wrapper"])

p("C05", "RNG keys never repeat and depend only on the key and the requests",
  "All keys handed out within one init or apply call (or by one hk.PRNGSequence) are pairwise distinct, whatever mix of single, multiple and optional requests, reservations, RNG scopes with different keys, RNG optimisation and JAX control flow draws them, and also when some requests fail and are retried. The keys depend only on the key passed in and the sequence of requests made since: each is split from that key in the documented order, never influenced by failed requests, other calls, other sequences or other threads.",
  ["histories", "fault_sequences", "schedules"], "every sequence of requests, reservations and failures, on every interleaving with other calls",
  "Tests draw a handful of keys in fixed orders; failed splits, retries, partially used reservations and concurrent use of the RNG optimiser are not sampled.",
  ["haiku/_src/base.py", "haiku/_src/random.py", "haiku/_src/stateful.py"],
  [("PRNGSequence.reserve/take/next", "haiku/_src/base.py"), ("optimize_rng_use", "haiku/_src/random.py")],
  [("key and subkeys", "key kept for splitting, keys still to hand out", "haiku/_src/base.py")], ["hk.next_rng_key", "hk.next_rng_keys", "hk.maybe_next_rng_key", "hk.PRNGSequence"])

p("C06", "A training job killed at any point resumes bit for bit from a checkpoint",
  "Everything a model needs to continue is in the params and state returned by init and apply plus the caller's key and step: a process that dies at any point and restarts with freshly loaded code from the last checkpoint (pickled, converted to plain dicts, or stored as flat leaves) produces exactly the outputs, gradients, parameters and state of a run that was never interrupted. This holds for Haiku's own modules as well as user modules, whatever calls (training, evaluation, failed steps) were made in between.",
  ["crash_points", "histories", "configurations"], "every crash point of every training history, every library module and every checkpoint form",
  "The checkpoint test loads fixed files and compares parameters once; no test continues a run from a checkpoint or notices state kept outside params and state.",
  ["haiku/_src/data_structures.py", "haiku/_src/transform.py", "haiku/_src/moving_averages.py", "haiku/_src/batch_norm.py", "haiku/_src/spectral_norm.py", "haiku/_src/recurrent.py", "haiku/_src/nets/vqvae.py"],
  [("all model values collected into params and state", "haiku/_src/base.py"), ("FlatMapping.__reduce__ and pytree registration", "haiku/_src/data_structures.py")],
  (), ["init/apply results across a restart", "pickle.dumps/loads of params and state"])

p("C07", "Inputs are never modified and returned mappings never change",
  "init and apply never modify the params, state, key or arguments they are given, and changes the caller makes to its own dicts once the function body is running do not affect that call. The mappings they return cannot be modified through the mapping interface and always show the same keys, values, order, length, equality, hash, pytree leaves and pickled contents, no matter which threads read them first, in which order, concurrently with what, or which calls are made later.",
  ["histories", "schedules"], "every history of calls, caller-side mutations and reads, on every interleaving of the reading threads",
  "Tests check single-threaded equality of small mappings once; lazily built contents read by several threads and aliasing between calls are not covered.",
  ["haiku/_src/data_structures.py", "haiku/_src/base.py", "haiku/_src/transform.py"],
  [("FlatMapping", "haiku/_src/data_structures.py"), ("to_immutable_dict copies", "haiku/_src/data_structures.py")],
  [("lazily materialised mapping", "contents rebuilt from leaves on first read", "haiku/_src/data_structures.py")], ["FlatMapping read API", "arguments of init/apply after the call"])

p("C08", "Module names are unique and reproducible across calls and restarts",
  "A program's module, parameter and state names depend only on its structure: init and every apply, on any thread, after any earlier calls or failures, and in a freshly started process give the same names. Two modules created in the same scope of one call (the body of a JAX control-flow wrapper counts as a scope of its own) never get the same full name (a clash of explicitly numbered names is an error), names follow the enclosing module, method and name scopes, and params_dict and state_dict list exactly the entries of a module and of the modules called below it, also when some constructors or methods failed and were caught.",
  ["programs", "histories", "fault_sequences"], "every program structure, every history of earlier calls and failures, every restart",
  "Tests check fixed names of small fixed programs, always in a fresh context without earlier failures.",
  ["haiku/_src/module.py", "haiku/_src/base.py"],
  [("unique_and_canonical_name", "haiku/_src/module.py"), ("counter and used-name stacks per scope", "haiku/_src/base.py")],
  (), ["module.module_name", "keys of params and state", "module.params_dict", "module.state_dict"])

p("C09", "Params and state are an exact ledger over any history of calls",
  "init returns exactly the parameters created by the call and the first value of every state entry; apply reads exactly the params and state passed in (also through nested transforms and lift), never creates or changes a parameter, fails if a parameter is missing or has another shape, and returns the last value set for every state entry, unchanged entries included. An entry whose initialiser or creator raised is not recorded and is created anew when asked for again, and over any history of successful and failed applies the state equals the fold of the successful ones only.",
  ["histories", "fault_sequences", "programs"], "every history of init and apply calls over every program, with failures at any point",
  "Tests make one or two successful calls on fixed functions; long histories, failed creations followed by retries, and failed applies in between are not sampled.",
  ["haiku/_src/base.py", "haiku/_src/transform.py", "haiku/_src/lift.py"],
  [("get_parameter / get_state / set_state", "haiku/_src/base.py"), ("collect_params / collect_initial_state / collect_state", "haiku/_src/base.py"), ("LiftingModule", "haiku/_src/lift.py")],
  [("StatePair", "initial and current value of a state entry", "haiku/_src/base.py")], ["params and state returned by init/apply"])

p("C10", "Inspection tools leave no footprint",
  "hk.experimental.eval_summary, tabulate, to_dot and abstract_to_dot may be run on any function at any time, succeed or fail at any point, and run concurrently with each other and with init and apply on other threads: each returns the same summary or graph structure as when run alone, other calls return the same results, and settings such as profiler_name_scopes end up as the user last set them.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of inspection calls with other calls, and every failure point inside them",
  "Tests run one tool on one thread to completion; overlapping runs, failing runs and the setting they toggle are not covered.",
  ["haiku/_src/dot.py", "haiku/_src/summarise.py", "haiku/_src/module.py"],
  [("thread-local graph stack and side channel", "haiku/_src/dot.py, haiku/_src/summarise.py"), ("profiler_name_scopes toggle around to_dot", "haiku/_src/dot.py")],
  [("modules_with_named_call", "process-wide profiler setting", "haiku/_src/module.py")], ["tool outputs", "profiler_name_scopes return value", "concurrent apply results"])

p("C11", "The checkpointing example resumes from the newest complete checkpoint",
  "With the transformer example's checkpointing updater, whenever the job is killed (between or inside file operations, with unsynced data lost or torn) or a write fails (disk full, I/O error), the next start resumes from the newest checkpoint that was completely written, whatever order the directory lists its files in, and training then continues exactly as an uninterrupted run. A crash while checkpointing never makes the job unable to start or lose an older complete checkpoint.",
  ["crash_points", "fault_sequences", "histories"], "every crash point and write failure of every training history, every directory listing order",
  "There is no test of the example's checkpointing at all.",
  ["examples/transformer/train.py"],
  [("CheckpointingUpdater.init/update", "examples/transformer/train.py")], (), ["CheckpointingUpdater.init after a crash", "files in the checkpoint directory"])

p("C12", "The IMPALA example delivers every trajectory once and always shuts down",
  "In the IMPALA example, every batch the learner trains on consists of trajectories the actors enqueued, each used at most once and in the order it was enqueued, and the actor-visible parameters advance by whole updates. Under every interleaving of actors, transfer worker and learner, and every delay of the queue timeouts, the learner finishes its requested number of updates and, once it stops and the actors are told to stop, every thread terminates.",
  ["schedules", "fault_sequences"], "every interleaving of actor, worker and learner threads and every timing of queue timeouts",
  "The example's own tests are not runnable here and exercise the learner with one pre-filled queue.",
  ["examples/impala/learner.py", "examples/impala/run_catch.py", "examples/impala/actor.py", "examples/impala_lite.py"],
  [("host and device queues, done flag", "examples/impala/learner.py"), ("stop signal", "examples/impala/run_catch.py")], (), ["Learner.run returning", "actor threads joining", "batches passed to update"])

p("C13", "Moving statistics count every committed training step exactly once",
  "After any history of training steps, evaluations, calls that ask for no update, failed and retried steps, and restarts from a checkpoint, the state of ExponentialMovingAverage, EMAParamsTree, BatchNorm, SpectralNorm and the EMA vector quantiser is that of its defining recurrence applied once for each committed training step, in order, with the configured decay, warm-up and zero-debiasing. Evaluations and no-update calls read that state and never change it.",
  ["histories", "crash_points", "fault_sequences"], "every history of updates, evaluations, failures and restarts, and every configuration",
  "Tests apply each module two or three times in a row with training on; mixed histories with failures, warm-up boundaries and restarts are not sampled.",
  ["haiku/_src/moving_averages.py", "haiku/_src/batch_norm.py", "haiku/_src/spectral_norm.py", "haiku/_src/nets/vqvae.py"],
  [("get_state/set_state of counter, hidden and average", "haiku/_src/moving_averages.py"), ("update only when training", "haiku/_src/batch_norm.py")],
  (), ["state returned by apply", "module outputs in evaluation"])

# Pure functions of their inputs: not simulation targets (see MANIFEST not_applicable).
p("C20", "Layers compute their documented mathematical functions",
  "Linear, convolution, depthwise, pooling, embedding, attention, layer/group/instance norm, dropout, padding, reshape and recurrent cores compute the documented function of their inputs and parameters for every valid shape, dtype and option.",
  ["inputs", "configurations"], "every input, shape, dtype and option", "Tests sample a few shapes and options.",
  ["haiku/_src/basic.py", "haiku/_src/conv.py", "haiku/_src/pool.py", "haiku/_src/recurrent.py", "haiku/_src/attention.py"], [("the layer implementations", "haiku/_src")])
p("C21", "Initialisers draw from their documented distributions",
  "Each initialiser returns an array of the requested shape and dtype drawn from its documented distribution and scale as a function of the key.",
  ["inputs", "configurations"], "every shape, dtype and configuration", "Tests check a few moments on a few shapes.",
  ["haiku/_src/initializers.py"], [("initialiser __call__", "haiku/_src/initializers.py")])
p("C22", "Filtering, partitioning and merging obey set algebra",
  "partition splits a structure into two disjoint parts whose merge is the original; filter, map and merge keep every path and value they should.",
  ["inputs"], "every two-level structure and predicate", "Tests use a few small structures.",
  ["haiku/_src/filtering.py"], [("partition/filter/map/merge", "haiku/_src/filtering.py")])
p("C23", "Static and dynamic unrolls agree",
  "static_unroll and dynamic_unroll of any core give the same outputs and final state for every sequence, batch layout and length.",
  ["inputs", "programs"], "every core, sequence and layout", "Tests compare a few cores on fixed sequences.",
  ["haiku/_src/recurrent.py"], [("static_unroll/dynamic_unroll", "haiku/_src/recurrent.py")])
p("C24", "Reports describe the model correctly",
  "The rows of tabulate/eval_summary and the nodes and edges of to_dot describe exactly the module calls, shapes, parameter counts and operations of the function.",
  ["programs", "inputs"], "every function", "Tests compare fixed reports.",
  ["haiku/_src/summarise.py", "haiku/_src/dot.py"], [("report builders", "haiku/_src/summarise.py")])
p("C25", "Invalid arguments are rejected with clear errors",
  "Constructors and calls given invalid options, shapes, names or keys raise the documented error instead of computing something else.",
  ["inputs", "configurations"], "every invalid argument", "Tests sample some invalid arguments.",
  ["haiku/_src"], [("argument validation", "haiku/_src")])

with open("properties.jsonl", "w") as f:
  for x in P: f.write(json.dumps(x) + "\n")
