#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay editable)."""
import json, os
ML = ["src/multilinear/regular.rs", "src/multilinear/rectilinear.rs",
      "src/multilinear/regular_recursive.rs", "src/multilinear/rectilinear_recursive.rs"]
MC = ["src/multicubic/regular.rs", "src/multicubic/rectilinear.rs",
      "src/multicubic/regular_recursive.rs", "src/multicubic/rectilinear_recursive.rs", "src/multicubic/mod.rs"]
NE = ["src/nearest/regular.rs", "src/nearest/rectilinear.rs"]
OD = ["src/one_dim/mod.rs", "src/one_dim/linear.rs", "src/one_dim/hold.rs"]
PY = ["src/python.rs", "src/interpn/__init__.py", "src/interpn/raw.py", "src/interpn/serialization.py",
      "src/interpn/multilinear_regular.py", "src/interpn/multilinear_rectilinear.py",
      "src/interpn/multicubic_regular.py", "src/interpn/multicubic_rectilinear.py",
      "src/interpn/nearest_regular.py", "src/interpn/nearest_rectilinear.py"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
             observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Concurrent callers sharing an interpolator each get their lone result",
  "An interpolator built from thread-safe number types can be shared between threads without locking, and however the steps of concurrent calls on the same interpolator, on different interpolators, or on the same grid and value arrays are interleaved, each call returns the same success or error and writes bit for bit the same output as when that call is made alone. No call changes the interpolator, the grid, the values, the observation points or another caller's output.",
  ["schedules"],
  "Every interleaving, down to single machine instructions, of any number of threads calling any evaluation entry point (struct methods, free functions, recursive and one-dimensional interpolators, bounds checks), for every grid, dimension count 1-8 and batch.",
  "Every existing test is single threaded, so no schedule other than the sequential one is ever executed; a cached cell index, a scratch buffer or a lazily computed coefficient shared between callers would pass all of them.",
  ML+MC+NE+OD,
  [("All evaluation takes &self and fixed-size stack storage; no interior mutability, statics or thread locals anywhere", "interp / interp_one in every interpolator module"),
   ("unsafe_code = forbid", "Cargo.toml")],
  ["out slices and return values of interp / interp_one / interpn / eval / eval_one / check_bounds"],
  state=[("interpolator struct", "borrowed grid/values plus dims, starts, steps; must be immutable", "src/*/{regular,rectilinear}.rs")])

p("C02", "Results do not depend on history, batching, order or retries",
  "After any history of earlier evaluations (other points, other tables, failed or abandoned calls, tables updated or replaced in place between calls, memory reused for a new table), each evaluated point gets bit for bit the value it would get as the first and only point of the first call on the current data, and that value is the documented interpolation method's value for the current grid and values up to floating-point rounding. So a batch split into chunks that workers evaluate in any order, on any thread, repeatedly, or again after a worker is lost, assembles to the same output as one call.",
  ["histories", "schedules", "fault_sequences"],
  "Every sequence of calls mixing interpolators, tables, entry points, batch sizes, point orders, duplicated, dropped and retried chunks and failed calls, over dimension counts 1-8 and all methods.",
  "Tests call each interpolator once per table with one fixed point order and one batch size, so nothing remembered from an earlier point or call (last cell, last table, partially filled scratch) can be seen.",
  ML+MC+NE+OD,
  [("Every point is evaluated by interp_one from freshly initialised storage", "interp loops in every module"),
   ("Interpolators borrow the data, nothing is precomputed from values", "new() in every module")],
  ["returned values per point, assembled outputs"])

p("C03", "A failed or interrupted evaluation never leaves a wrong value behind",
  "If an evaluation into a caller's output stops early at any point (an error is returned, a panic unwinds out of the number type's arithmetic, or the calling thread stops running), every output element holds either the value it had before the call or the correct value for its own point, and nothing outside the output changes. The same interpolator then still gives every other caller and every retry the undisturbed result, and the retry completes the output.",
  ["crash_points", "fault_sequences"],
  "Every instruction or arithmetic operation of every evaluation at which the call is stopped, every failing numeric conversion, every batch position of a failing point, all methods and dimension counts.",
  "The existing tests have no evaluation that fails part way through a batch and never look at an output after an error.",
  ML+MC+NE+OD,
  [("out[i] is assigned once per point, after interp_one(..)? has fully succeeded", "interp loops"),
   ("No state outlives a call", "all structs")],
  ["out slice during and after the interrupted call; results of the retry"])

p("C04", "A stalled or dead caller never blocks or slows another caller",
  "If any thread stops for ever at an arbitrary point inside a call into the library, every other thread's call, on the same or any other interpolator, still completes within the same number of its own steps as when it runs alone, up to a small constant factor. Evaluation takes no lock, waits for no other thread, and makes no blocking system call.",
  ["schedules", "crash_points"],
  "Every instruction at which callers stall, every set of stalled callers, and every call the remaining threads make meanwhile.",
  "Progress under a stalled peer cannot be observed from single-threaded tests; a lock around a cache passes them all.",
  ML+MC+NE+OD,
  [("No locks, channels, I/O or shared mutable state in the crate", "whole crate; no_std support in src/lib.rs")],
  ["completion and step count of the surviving threads' calls"])

p("C05", "Corrupted data never crashes or hangs an evaluation",
  "Whatever bits the stored values, grid coordinates, starts, steps or observation points hold when an evaluation reads them (NaN, infinities, subnormals, huge values, unsorted or duplicated coordinates, corrupted before construction or at any later moment between calls), every construction, evaluation and bounds check returns a result or an ordinary error within a bounded number of steps: it never panics, aborts, loops or reads outside the arrays. Once the damaged bits are restored, results are again exactly what they were.",
  ["fault_sequences", "inputs"],
  "Every placement and timing of bit flips and special values in every array of every interpolator, all methods, dimension counts 1-8, f32 and f64.",
  "Tests feed only finite, well-formed data; one special value per array is a handful of the corruption patterns possible at each read.",
  ML+MC+NE+OD+["src/utils.rs"],
  [("Index location saturates into the grid (max/min clamps) before indexing", "get_loc in every module"),
   ("Fallible NumCast mapped to Err(Unrepresentable coordinate value)", "get_loc in regular modules")],
  ["panic / error / value of each call, step count"])

p("C06", "Damage stays local to the points that depend on it",
  "Corrupting stored values at any moment changes only results for points whose interpolation stencil contains a damaged grid node (the 2^N corners of the containing cell for multilinear, at most the 4^N surrounding nodes for multicubic, the selected node for nearest, the bracketing nodes in 1-D); and an observation point that is corrupted or makes its own evaluation fail never changes the result of another point. All other results stay bit for bit the same, in the same batch and in all later ones.",
  ["fault_sequences", "histories"],
  "Every set and timing of corrupted table entries and corrupted observation coordinates, each method, dimension counts 1-8, batches mixing affected and unaffected points.",
  "No test damages a table or a point and compares the remaining results; the dependency cone of a result is a for-all-nodes statement.",
  ML+MC+NE+OD,
  [("Footprint indexing from the located origin cell", "interp_one / index_arr in every module"),
   ("Per-point fresh storage", "interp_one")],
  ["results of unaffected points before/after the damage"])

p("C07", "Construction and evaluation succeed when every allocation fails",
  "Building any interpolator and evaluating it into caller-supplied output (struct methods, free functions without _alloc, recursive and one-dimensional interpolators, bounds checks; success and error paths alike, any dimension count, any batch size) makes no heap allocation at any moment, so it completes with identical results in a process whose allocator refuses every request.",
  ["fault_sequences", "inputs"],
  "Every allocation attempt from construction to the end of a call being refused, across all methods, dimension counts, batch sizes, grid sizes, saturation zones, successes and failures.",
  "Allocation is invisible to value-checking tests, and a growth path may only trigger beyond sizes the tests use or on an error path.",
  ML+MC+NE+OD,
  [("Fixed-size stack arrays sized by const generics", "interp_one and constructors"),
   ("no_std without alloc by default", "src/lib.rs, Cargo.toml")],
  ["calls into the global allocator during library calls"])

p("C08", "Stack use is bounded and independent of grid and batch size",
  "The peak stack used by any construction or evaluation depends only on the method, the number type and the dimension count: it does not grow with the number of grid nodes, the number of points in the batch, the position or value of the points, or the history of calls. So a call that fits a thread's stack once always fits it, including on error paths.",
  ["inputs", "histories"],
  "Every grid size, batch size, point position (inside, edge, extrapolated, corrupted) and call history, for each method and dimension count, run on a stack that ends where the smallest instance's need ends.",
  "Tests run on megabyte stacks and never measure them; recursion proportional to grid or batch size would only overflow at sizes they do not use.",
  ML+MC+NE+OD,
  [("Recursion bounded by the dimension count; fixed-size storage", "regular_recursive.rs, rectilinear_recursive.rs, interp_one")],
  ["lowest stack address touched during the call"])

p("C09", "1-D evaluation over failing storage reports the failure and never invents values",
  "When user-supplied one-dimensional grid storage fails any read (once, repeatedly, or only for some indices), the evaluation that needed that read returns an error, never a value computed without it, and does not panic; output elements not yet evaluated keep their previous contents and those already written are right. Evaluations that need no failed read are unaffected, and once the storage recovers the same interpolator returns the undisturbed results.",
  ["fault_sequences", "histories"],
  "Every sequence of read failures, recoveries and value changes in the storage behind the Grid1D trait, for every 1-D method, point and batch.",
  "The only storages tested are in-memory slices that fail nothing; error propagation through each hold/linear variant is never executed.",
  OD,
  [("Grid1D::at returns Result and is propagated with ?", "src/one_dim/linear.rs, src/one_dim/hold.rs"),
   ("Interp1D::eval writes out per point after success", "src/one_dim/mod.rs")],
  ["Result of eval/eval_one, out contents, read log of the storage"])

p("C10", "Requests damaged in transit are refused cleanly by the Rust API",
  "A request whose parts were lost, duplicated, truncated, padded, swapped for another request's, or given impossible sizes (dims, starts, steps, grids, values, observation columns, output, bounds-check output), so that its sizes are inconsistent or unsupported, gets an ordinary error from every constructor, evaluation and bounds-check function: never a panic, abort, out-of-bounds access or success. A refused request writes nothing to the output, and the intact request sent again right after it gets its undisturbed result.",
  ["fault_sequences", "inputs"],
  "Every combination of lost, duplicated, truncated, padded and swapped parts over every entry point that takes slices, all methods, dimension counts 0-9.",
  "Tests exercise a few matching shapes only; the mismatch space is a product over every argument and every entry point, and each one has its own hand-written size check.",
  ML+MC+NE+OD,
  [("Size checks returning Err(\"Dimension mismatch\") etc.", "interpn / new / interp / check_bounds in every module")],
  ["Result of the call, out contents, panic capture"])

p("C11", "Python: overlapping output and input memory is refused or computed correctly",
  "When the output array given to any Python evaluation or bounds-check call shares memory with the observation points, the grid, the values or another view of the output (whole, partial, offset, reversed, reshaped or reinterpreted views), the call either raises and leaves every array as it was, or writes exactly the results for the contents the inputs had when the call began. Afterwards all the arrays can again be used and written by everyone.",
  ["inputs", "histories"],
  "Every overlap between the memory of the arguments of one call, every order of such calls and of ordinary calls, both number types and all methods and entry points (raw functions, classes, front-end function).",
  "No test passes overlapping arrays; protection rests on run-time borrow tracking across the Python/native boundary, whose failure is silent corruption.",
  PY,
  [("PyReadonlyArray1 / PyReadwriteArray1 run-time borrow checking", "src/python.rs"),
   ("inputs raveled / copied before the native call", "src/interpn/*.py eval")],
  ["array contents after the call, exception raised, writeability of the arrays afterwards"])

p("C12", "Python: threads sharing interpolators each get their lone result",
  "However the Python threads of a process are interleaved, at any bytecode boundary and at any native instruction at which another Python thread could run, each construction, evaluation, bounds check, save and front-end call on shared or separate interpolators and shared input arrays returns the same result or error as when made alone on the data as passed. A returned array is the caller's own: no later or concurrent call changes it, and no two results share memory unless the caller supplied the output.",
  ["schedules", "histories"],
  "Every interleaving of any number of Python threads over all six classes, the raw functions and the interpn() front end, in both number types.",
  "The Python tests are single threaded and look at each result immediately, before another call could disturb it.",
  PY,
  [("Frozen models, no module-level mutable state", "src/interpn/*.py"),
   ("GIL held for the whole native call", "src/python.rs")],
  ["returned arrays at return and at the end of the run, exceptions"])

p("C13", "Python: an interrupt at any instant leaves no lasting effect",
  "If KeyboardInterrupt, MemoryError or any other asynchronous exception is raised at any bytecode boundary of the package (or of the Python code it calls, pydantic's own machinery excepted) inside a construction, evaluation, bounds check, save, restore or front-end call, it propagates out of the call (a save may instead complete with its undisturbed result, because pydantic retries serialisers); every element of a caller-supplied output holds its previous or its right value; inputs, interpolator and saved data are unchanged. No array stays locked and no partial state survives: the same call made again, and every other call, gives its undisturbed result.",
  ["crash_points", "fault_sequences"],
  "Every bytecode boundary inside the package at which an exception is delivered, every sequence of such interruptions followed by retries, all classes and entry points.",
  "No test interrupts a call; every one of the several hundred instants inside a call is a different crash point.",
  PY,
  [("Frozen pydantic models with no caches", "src/interpn/*.py"),
   ("Borrow guards released on drop", "src/python.rs")],
  ["output contents, input contents, borrow state, retry results"])

p("C14", "Python: save, restart and restore gives back the same interpolator",
  "Serialising any interpolator to JSON (at any point of a history of evaluations and saves) and restoring it in a fresh process gives an interpolator of the same class, number type, settings and data, bit for bit, whose evaluations, bounds checks and errors are bit for bit those of the original (all NaNs counting as one value). Any number of save-restore generations changes nothing further, and saves in the released format keep restoring.",
  ["histories", "crash_points"],
  "Every interpolator that can be built (all classes, number types, dimension counts 1-8, settings, values including infinities, NaN, signed zeros, subnormals, extremes, non-contiguous and byte-swapped source arrays), every number of generations, restart between any two.",
  "The tests round-trip a few benign float64 tables in the same process, once; restart and exactness for every representable value are not reached.",
  PY,
  [("ArrayF64/ArrayF32 serialisers with full-precision JSON", "src/interpn/serialization.py"),
   ("pydantic model_dump_json / model_validate_json", "src/interpn/*.py")],
  ["restored fields, evaluation results, second-generation JSON text"])

p("C15", "Python: a torn or damaged save is refused or yields a sound interpolator",
  "Restoring from a save that was truncated, torn, partly overwritten by another save, bit-flipped, or lost fields or array elements either raises an ordinary exception or yields an interpolator that satisfies every constructor check and whose data are exactly what the damaged document literally says; it never hangs, crashes or panics. Evaluating the restored interpolator gives the right results for those data or an ordinary exception, and the failed restore affects no later restore of an intact save.",
  ["fault_sequences", "crash_points"],
  "Every truncation point, every mix of blocks of two saves, every byte or field level corruption of every save, all classes, sequences of damaged and intact restores.",
  "No test feeds a damaged document; validity must hold for each of the unboundedly many corruptions.",
  PY,
  [("pydantic validation plus model_validator consistency checks", "src/interpn/*.py _validate_model"),
   ("array decoding", "src/interpn/serialization.py"),
   ("native size checks", "src/python.rs and Rust constructors")],
  ["exception type or restored object; evaluation of it"])

p("C16", "Python: interpolators are isolated from the caller's arrays",
  "An interpolator built through a constructor or restored from a save is a snapshot: whatever the caller, or another thread at any instant after construction returned, does to the arrays it was built from (writing, resizing, freeing), evaluations, bounds checks and saves keep giving the results for the data at construction. The library never writes to any array it was given as input, never returns a view of its own or of the caller's data, and construction refuses to alter an interpolator afterwards.",
  ["histories", "schedules"],
  "Every interleaving of caller mutations with constructions, evaluations and saves; every memory layout and number type of the source arrays.",
  "Tests never modify an input array after construction, so sharing and snapshotting are indistinguishable to them.",
  PY,
  [("np.array/astype copies in new(), frozen models", "src/interpn/*.py")],
  ["results before/after mutation, input bytes, np.shares_memory"])

p("C17", "Python: damaged requests raise ordinary errors and change nothing",
  "Any Python call whose arguments were lost, truncated, duplicated, of the wrong number type, layout or dimensionality, too numerous, or whose sequences fail part way through being read, raises an ordinary exception (a subclass of Exception, never a panic, abort or hang) and leaves the output, the inputs and every interpolator unchanged; no array stays locked. The intact call made right afterwards gives its undisturbed result.",
  ["fault_sequences", "inputs"],
  "Every damage pattern over the arguments of every raw function, class constructor, evaluation and bounds check and of the front end, including failures raised by the argument sequences themselves at any access.",
  "The Python tests make only well-formed calls.",
  PY,
  [("argument extraction and size checks", "src/python.rs"), ("assertions and pydantic validation", "src/interpn/*.py")],
  ["exception class, output and input bytes, writeability afterwards, follow-up results"])

p("C18", "Python: results depend only on the arguments, whatever the process went through",
  "Whatever a Python process has been through (earlier calls on other data of the same shape, arrays refilled in place or freed and their memory used again, failed or interrupted calls, garbage collection, threads started and ended, interpolators copied, pickled or dropped, processes forked, process-wide settings such as numpy's printing or error handling, the locale, the environment or the garbage collector changed), each construction, evaluation, bounds check, save, restore and front-end call gives exactly what it gives as the first call of a fresh process on the current data, however often it is repeated, and leaves every process-wide setting as it was. A worker process killed at any instant leaves in a shared output only previous or right values and disturbs no other process; making its calls again elsewhere completes the output.",
  ["histories", "crash_points", "fault_sequences"],
  "Every history of calls, buffer reuse, interruptions, copies, threads and forked workers, every instant at which a worker is killed, all classes, raw functions and the front end, in both number types.",
  "The Python tests build fresh arrays for every call and use one process, so a result remembered by object identity, address, shape or process state (or an output assembled in private memory first) passes them all.",
  PY,
  [("No module-level mutable state; regularity, sizes and data read anew in each call", "src/interpn/__init__.py, src/python.rs"),
   ("Frozen pydantic models that copy and pickle by their fields", "src/interpn/*.py")],
  ["returned values, supplied (shared-memory) outputs, exceptions, saved text"])

p("C19", "Rust: a call may be made while another one is interrupted on the same thread",
  "A call made in the middle of another call of the same thread - by an interrupt or signal handler that runs at any instruction, by a handler that interrupts such a handler, on the same interpolator and arrays or on others, with an output of its own - gives exactly the result or error it gives alone, and so does the interrupted call when it goes on. Neither waits for the other, panics, or changes anything but its own output.",
  ["schedules", "fault_sequences"],
  "Every instruction of a call at which a handler can run, every entry point, method and number type inside every other, nested and repeated interruptions.",
  "The tests make one call after the other; a scratch buffer, busy flag or lock per interpolator, thread or process is invisible to them until a call begins inside another.",
  ML + MC + NE + OD,
  [("No state outside the arguments and the stack frame of each call; interpolators evaluate through &self; usable in no_std code without an allocator", "src/multilinear, src/multicubic, src/nearest, src/one_dim")],
  ["output of the interrupted call", "output of the handler's call", "errors", "input arrays"])

p("C20", "Python: a call may be made in the middle of another one on the same thread",
  "A construction, evaluation, bounds check, save, restore or front-end call made while another one is in progress on the same thread - by a signal handler, finaliser or hook at any bytecode, by a sequence of observation points that calls back when it is read, or inside such a call again - gives exactly the result, output, text or error it gives alone, and so does each call it interrupts. None waits for another, and no input, interpolator or process-wide setting changes.",
  ["schedules", "fault_sequences"],
  "Every bytecode boundary and every read of an argument sequence at which another call can begin, every class, raw function and the front end inside every other, several levels deep.",
  "The Python tests make one call after the other; a scratch list, busy flag or lock per module, class, interpolator or thread shows only when a call begins inside another.",
  PY,
  [("No module-level or per-interpolator mutable state; arguments and outputs are local to each call", "src/interpn/__init__.py, src/interpn/*.py"),
   ("Argument extraction that may run Python code before the evaluation", "src/python.rs")],
  ["returned values, supplied outputs, exceptions, saved text of every call", "input arrays and interpolators"])

def na(id, title, st, over, text, why, files, mech):
    p(id, title, st, over, text, why, files, mech, ["returned values"])

na("N01", "Multilinear interpolation is exact on multilinear data and at nodes",
   "For every valid grid and every point inside or outside it, multilinear evaluation reproduces any multilinear function sampled on the grid up to rounding, and extrapolates it linearly.",
   ["inputs"], "All grids, dimension counts 1-8, tables and points.", "Tests sample a few small grids and functions.", ML,
   [("repeated linear interpolation over the located cell", "interp_one in src/multilinear/*")])
na("N02", "Cubic interpolation reproduces quadratics, is C1, extrapolates as asked",
   "For every valid grid, cubic evaluation passes through the nodes, reproduces quadratic functions, is continuous with continuous first derivative across cells, and outside the grid continues quadratically or, when asked, linearly.",
   ["inputs"], "All grids, dimension counts 1-8, tables, points and the linearize setting.", "Tests sample a few quadratics and linspaces.", MC,
   [("Hermite spline with three-point slopes", "src/multicubic/mod.rs and interp_one")])
na("N03", "Nearest-neighbour returns the value of a closest node",
   "For every valid grid and point, nearest-neighbour evaluation returns the stored value of the closest node, taking the lower node on exact ties and the edge node outside the grid.",
   ["inputs"], "All grids, dimension counts 1-6, tables and points.", "Tests sample few ties.", NE,
   [("half-step comparison", "get_loc/interp_one in src/nearest/*")])
na("N04", "Regular, rectilinear, recursive and 1-D variants agree",
   "On the same grid and data the regular, rectilinear, flattened, recursive and one-dimensional variants of a method agree up to rounding for every point.",
   ["inputs"], "All grids, tables, points.", "Tests compare on a few fixed grids.", ML+MC+NE+OD, [("parallel implementations", "each module")])
na("N05", "Bounds checks flag exactly the violated dimensions",
   "The bounds check reports for each dimension whether any observation lies outside that dimension's grid by more than the tolerance, and nothing else.",
   ["inputs"], "All grids, tolerances, points.", "Tests use a couple of points.", ML+MC+NE, [("check_bounds", "each module")])
na("N06", "Build configurations and number types agree",
   "Results with and without the fma feature, with and without std, and in f32 versus f64 differ only by rounding of the narrower or unfused arithmetic.",
   ["inputs", "configurations"], "All inputs and feature sets.", "Each configuration is only tested against itself on a few inputs.", ["src/lib.rs", "Cargo.toml"]+ML+MC, [("mul_add under cfg(feature = fma)", "arithmetic sites")])
na("N07", "Grid helpers produce the documented sequences",
   "linspace returns n evenly spaced values including both ends and meshgrid returns the full Cartesian product in C order, for every input.",
   ["inputs"], "All ends, counts and grids.", "Used only as test fixtures.", ["src/utils.rs"], [("linspace, meshgrid", "src/utils.rs")])
na("N08", "The front-end function picks the right interpolator",
   "interpn() detects regular versus rectilinear grids and dispatches to the requested method and setting for every input, giving that interpolator's result.",
   ["inputs"], "All grids, methods, flags.", "A few combinations are tested.", ["src/interpn/__init__.py"], [("regularity test and dispatch", "src/interpn/__init__.py")])
na("N09", "Evaluation time is deterministic and linear in the batch",
   "Evaluation cost per point is bounded by a constant of the method and dimension count, with logarithmic grid search for rectilinear grids.",
   ["inputs"], "All inputs.", "Benchmarks only sample.", ML+MC+NE, [("constant-time index location / binary search", "get_loc")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
