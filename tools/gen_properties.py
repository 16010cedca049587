#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

K = "prima_undine/src/devices/naive/"
F = "prima_undine/src/functions/"
O = "prima_undine/src/operators/"
S = "prima_undine/src/"

p("C01", "Every tensor operation computes its mathematical function",
  "For every operation of the tensor API (arithmetic with tensor, scalar-tensor and constant operands on either side, powers, trigonometric, exponential, rectifier, reduction, broadcast, softmax/cross-entropy, matrix, slicing/picking/concatenation/reshaping and batch operations) and every accepted combination of shapes, batch sizes, dimensions and arguments, each element of the result equals the value the operation's definition assigns to that element, within single-precision rounding. Elements are addressed column-major with the batch outermost, an operand of batch size 1 is shared by all samples, and a scalar operand is shared by all elements of its sample. Operations that only move or select values (slices, picks, concatenation, reshaping, transposition, broadcast, maximum, minimum) return them unchanged, infinities included, and basic arithmetic, square roots, sums and matrix products treat infinities and NaN as IEEE 754 prescribes.",
  ["inputs"], "all operations x all shapes of depth 0..8, batch sizes, dimension arguments, index lists and finite inputs away from overflow and domain errors",
  "The tests evaluate each kernel on one to three hand-picked shapes, nearly always through the kernel name rather than the public operation, and mostly with equal batches; off-by-one strides, batch shifts, dimensions beyond the depth and swapped left/right operands on other shapes stay unseen.",
  [F, K, S+"shape_ops.rs"],
  [("kernels", K+"*.rs"), ("operand dispatch (tensor/scalar/constant, left/right)", F+"arithmetic/tensor.rs, "+F+"basic/tensor.rs"), ("allocation of the result with the inferred shape", F+"basic/device.rs, "+F+"arithmetic/device.rs")],
  observe=["values read back from result tensors"])

p("C02", "Operations accept exactly compatible shapes and infer the result shape",
  "An operation succeeds exactly when its operands' shapes, batch sizes, dimension, range and index arguments satisfy that operation's rule (equal dimensions or a scalar operand, batch sizes equal or 1, indices and ranges inside the extent, matching inner matrix extents, matching other dimensions for concatenation, divisible splits, equal element counts for reshape), and then the result has exactly the shape and batch size the rule determines. Otherwise the call panics, for eager tensors at the call and for graph nodes at the latest when the node is evaluated, and it never returns a wrongly shaped or partial result.",
  ["inputs"], "all operations x all combinations of operand shapes, batch sizes and arguments, valid and invalid",
  "The tests hold almost no negative cases: shape rules are exercised by the few valid shapes of the kernel tests, so a relaxed or tightened acceptance condition passes them.",
  [S+"shape.rs", S+"shape_ops.rs", F+"basic/device.rs", F+"arithmetic/device.rs", O],
  [("shape rules", S+"shape_ops.rs"), ("shape predicates", S+"shape.rs"), ("per-operation assertions", F+"basic/device.rs")],
  observe=["result shape", "panic or return of the call"])

p("C03", "Lazy graph evaluation gives the same results as eager evaluation",
  "For every expression over the operations that both graph nodes and tensors offer (including the contributed functions), evaluating it through graph nodes yields the same shape and the same values as evaluating it directly on tensors, and index-valued queries agree too. A node's shape is known, and equal to the evaluated shape, before anything is computed, and an expression accepted in one mode is accepted in the other.",
  ["programs", "inputs"], "all expressions (single operations and compositions, with shared subexpressions and either operand order) over all accepted shapes and arguments",
  "The two front ends are separate hand-written implementations with separate operand dispatch and separate shape inference; the tests only drive kernels and never compare the two.",
  [F+"basic/node.rs", F+"arithmetic/node.rs", F+"basic/tensor.rs", F+"arithmetic/tensor.rs", O, S+"graph.rs", "prima_undine_contrib/src/functions/contrib/node.rs", "prima_undine_contrib/src/functions/contrib/tensor.rs"],
  [("node operand dispatch", F+"arithmetic/node.rs, "+F+"basic/node.rs"), ("operator forward and shape inference", O+"*.rs")],
  observe=["node shape before evaluation", "node values", "tensor values"])

p("C04", "Every differentiable operation's gradient is the true derivative",
  "For every differentiable graph operation, every accepted shape/batch/argument combination and every point where the operation is differentiable, back-propagating through it adds to each operand's gradient exactly the vector-Jacobian product of the operation's mathematical definition with the incoming gradient (within single-precision rounding). An operand of batch size 1 or a scalar operand that was shared receives the sum over everything it was shared with; for maximum/minimum with ties the whole gradient goes to exactly one of the tied elements.",
  ["inputs"], "all operations x operand positions x shapes of depth 0..8, batch combinations (equal, left 1, right 1), dimension/index arguments, incoming gradients, and finite inputs away from singularities and kinks (softmax cross entropy: target rows summing to one)",
  "Backward kernels are tested on a few shapes in isolation; the operators that route gradients to operands (splits, scalar operands, cross entropy, concatenation, reductions) have no test at all.",
  [O, K, F+"basic/device.rs", F+"arithmetic/device.rs"],
  [("operator backward functions", O+"*.rs"), ("backward kernels", K+"*.rs"), ("backward dispatch by kernel name", F+"basic/device.rs")],
  observe=["gradients left in parameters after backward"])

p("C05", "Backward through any graph accumulates the exact total derivative",
  "For every graph, including ones that use a node several times, use only some outputs of a multi-output operation, or start from one output of a multi-output operation, backward from a node adds to each parameter's gradient exactly the derivative of the sum of that node's elements with respect to that parameter. Repeating backward, running it from several nodes of one graph, or running it on several graphs over the same parameter adds the contributions up, until the gradient is reset; parameters the node does not depend on and parameter values are left unchanged.",
  ["programs", "histories"], "all computation graphs (DAGs with sharing, diamonds, unused outputs, several roots) and sequences of backward / gradient-reset calls",
  "No test builds a graph and calls backward.",
  [S+"graph.rs", O+"parameter.rs", O+"split.rs", O+"batch_split.rs"],
  [("reverse topological traversal and gradient seeding", S+"graph.rs"), ("accumulation into the parameter", O+"parameter.rs")],
  state=[("gradient of a node output", "sum of the contributions of all consumers reached from the root", S+"graph.rs"), ("depth of an operation", "topological order key", S+"graph.rs")],
  observe=["parameter gradients and values", "node gradients"])

p("C06", "Graph evaluation runs each needed operation exactly once, in order",
  "Evaluating a node runs exactly the not-yet-evaluated operations the node depends on, each exactly once over the graph's whole life and only after all operations that produce its inputs, with those inputs in argument order; operations it does not depend on are not run and creating nodes computes nothing. An operation that fails counts as not evaluated. A backward pass first evaluates what is missing, then visits each operation the start node depends on exactly once and only after all its consumers in that pass have contributed, and never visits an operation the start node does not depend on.",
  ["programs", "schedules", "histories"], "all graphs (any fan-in/fan-out, operations with several or no inputs and several outputs) and all sequences of node creations, evaluations, queries and backward calls",
  "Evaluation order and multiplicity are invisible in values for pure operations; no test builds a graph.",
  [S+"graph.rs", S+"operator.rs"],
  [("reachability queue and depth-ordered heap", S+"graph.rs"), ("evaluated flag", S+"graph.rs")],
  state=[("evaluated flag", "operation already computed", S+"graph.rs"), ("depth", "1 + maximum depth of the inputs", S+"graph.rs")],
  observe=["calls made on user-defined operations: forward, backward, argument and result tensors"])

p("C07", "The safe API never causes undefined behaviour",
  "No sequence of calls to the safe public interface (tensor and graph operations with valid or invalid arguments, in-place updates, replacement, views, shape changes, caught panics, drops in any order, use of several devices or tensors from the wrong device) reads or writes outside the memory of the tensors involved, reads freed or uninitialised memory, frees memory twice, or races. Calls with incompatible arguments panic instead.",
  ["programs", "inputs", "fault_sequences"], "all sequences of safe calls with arbitrary shapes, batch sizes, dimensions, ranges, indices and devices, including those that panic",
  "Kernels work on raw pointers with unchecked strides and buffers are rounded up to at least 64 elements, so an out-of-bounds access is silent in the tests' tiny shapes; nothing runs under a sanitizer.",
  [S+"tensor.rs", S+"memory_pool.rs", K, F+"arithmetic/device.rs", F+"basic/device.rs", S+"shape.rs"],
  [("argument assertions before each kernel call", F+"*/device.rs"), ("ownership of buffers by tensors", S+"tensor.rs"), ("recycling pool", S+"memory_pool.rs")],
  observe=["AddressSanitizer and Miri reports", "process death"],
  hook="exact-size, non-recycling buffers so that the sanitizers see every stray access")

p("C08", "Device memory is owned exclusively and returned exactly once",
  "At every moment each live buffer handed out by a device belongs to exactly one owner and has at least the requested capacity, no two live buffers overlap, a buffer is handed out again only after its owner released it, and buffers of different devices never mix. The device asks its backend to free each buffer exactly once, never while somebody still owns it, and when the device is destroyed after all owners are gone every buffer it obtained has been freed.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all sequences (also from several threads) of buffer/tensor creations of any size, clones, replacements, views, drops and device destruction, including backend allocation failures by panic",
  "The tests create one or two small tensors per device with the built-in backend and never look at what the backend is asked to do.",
  [S+"memory_pool.rs", S+"tensor.rs", S+"device.rs"],
  [("size-class free lists", S+"memory_pool.rs"), ("live-buffer size map", S+"memory_pool.rs"), ("release on tensor drop", S+"tensor.rs")],
  state=[("free lists", "released buffers by size class", S+"memory_pool.rs"), ("live map", "size class of each live buffer", S+"memory_pool.rs")],
  observe=["backend allocation/free calls", "handles returned by the device"])

p("C09", "Repeated work does not grow memory",
  "Repeating a workload (tensor expressions, graph construction, evaluation, backward, training steps, in-place updates, serialisation, rejected calls) on one device, with everything from an iteration dropped at its end, needs no new backend memory once the first iterations have warmed up, whatever the mixture of sizes. A released buffer serves the next request of the same size, and the backend memory held by a device is at most a small constant times the sum, over the size ranges between consecutive powers of two, of the peak simultaneous demand in that range.",
  ["histories", "programs"], "all repeated workloads; request sequences with arbitrary sizes and drop orders",
  "Leaks and missed recycling do not change any value; no test repeats anything or observes the backend.",
  [S+"memory_pool.rs", S+"tensor.rs", S+"graph.rs"],
  [("recycling of released buffers", S+"memory_pool.rs"), ("drop of graph nodes and temporaries", S+"graph.rs, "+S+"tensor.rs")],
  observe=["backend allocation calls per iteration", "process memory"])

p("C10", "A device can be shared by threads without changing any result",
  "When several threads use one device at the same time (each with its own tensors, graphs and parameters, or reading shared tensors), every thread obtains exactly the results it would obtain alone, random operations included apart from their randomness, and all threads finish: there is no data race, deadlock or corruption. A panic in one thread does not stop the others from using the device.",
  ["schedules", "programs"], "all interleavings of concurrent device use by any number of threads",
  "All tests are single-threaded.",
  [S+"device.rs", S+"memory_pool.rs", S+"tensor.rs", K+"random.rs"],
  [("locks in the buffer pool", S+"memory_pool.rs"), ("lock around the random generator", K+"random.rs"), ("Send/Sync requirements of backends and kernels", S+"device_impl.rs")],
  observe=["per-thread results against a sequential run", "ThreadSanitizer reports", "thread states when progress stops"])

p("C11", "Operations are pure: operands stay intact, results depend only on them",
  "Evaluating any operation, expression or backward pass leaves every operand tensor, parameter value and unrelated tensor bit-for-bit unchanged (only the destination of an in-place update and the gradients being accumulated change). Results are bit-for-bit reproducible: they depend only on operand values, never on what a recycled buffer contained, on previous work done on the device, or on whether operands are owned, borrowed or views.",
  ["inputs", "histories", "programs"], "all operations and expressions x all prior contents of recycled buffers x operand passing styles",
  "The tests run each operation once on a fresh device whose buffers are zero, so a kernel that accumulates into or leaves parts of a recycled buffer passes.",
  [K, S+"memory_pool.rs", F+"arithmetic/tensor.rs"],
  [("each kernel writes its whole result", K+"*.rs"), ("buffers are recycled without clearing", S+"memory_pool.rs")],
  observe=["operands before/after", "results on clean and poisoned devices"])

p("C12", "Optimizers follow their published update rules for the whole training",
  "For any sequence of gradients, SGD moves each parameter by -rate*gradient, momentum SGD keeps a velocity v := momentum*v - rate*gradient and adds it, and Adam keeps bias-corrected exponential moments and moves by -rate*m_hat/(sqrt(v_hat)+eps) with the step counter starting at one. Every parameter is updated from its own gradient and its own statistics, starting from zero statistics, however many parameters, shapes, steps or reconfigurations there are.",
  ["histories", "inputs"], "all hyperparameters, numbers and shapes of parameters, gradient sequences and training lengths",
  "Optimizers have no tests.",
  [S+"optimizers/sgd.rs", S+"optimizers/momentum_sgd.rs", S+"optimizers/adam.rs", S+"optimizer.rs", S+"parameter.rs"],
  [("update rules", S+"optimizers/*.rs"), ("statistics tensors", S+"parameter.rs")],
  state=[("statistics", "per-parameter moments/velocity", S+"parameter.rs"), ("epoch", "number of completed steps", S+"optimizers.rs")],
  observe=["parameter values and statistics after every step"])

p("C13", "Decay, clipping, rate scaling and bookkeeping apply once per step",
  "In every update step, weight decay adds strength*value to each gradient first, then, if the Euclidean norm over all gradients of the step (its square being representable) exceeds the clipping threshold, all gradients are scaled by threshold/norm, and then the update rule is applied with the rate multiplied by the learning-rate scale; each feature is off at its default. After the step every gradient of the updated parameters is zero, the step counter has grown by exactly one, parameters that were not passed are untouched, configuring again keeps existing statistics, and settings read back as set while negative settings are refused.",
  ["histories", "configurations", "inputs"], "all optimizers x settings of decay, clipping and scale (also changed between steps) x parameter lists x gradients",
  "Optimizers have no tests.",
  [S+"optimizer.rs", S+"optimizers.rs", S+"parameter.rs"],
  [("update_parameters sequence", S+"optimizer.rs"), ("settings", S+"optimizers.rs"), ("gradient reset", S+"parameter.rs")],
  state=[("epoch", "number of completed steps", S+"optimizers.rs"), ("settings", "decay, clipping threshold, rate scale", S+"optimizers.rs")],
  observe=["gradients, values, step counter and settings around every step"])

p("C14", "Saved tensors, parameters and models reload exactly and resume training",
  "Serialising any shape, tensor, parameter or model and deserialising it, in a text or a binary format, and moving it to a device (the same or another one) reproduces shape, batch size, every value, gradient and every named optimizer statistic bit-for-bit for finite values; saving does not alter the object and views are saved by value. Training continued from the reloaded state takes exactly the same steps as training that was never interrupted.",
  ["inputs", "histories", "crash_points"], "all shapes (depth 0..8, trailing ones, batches), values, statistics, model structures and interruption points of a training run",
  "There is no serialisation test.",
  [S+"tensor.rs", S+"parameter.rs", S+"shape.rs", S+"model.rs"],
  [("tensor (de)serialisation and host values", S+"tensor.rs"), ("shape (de)serialisation", S+"shape.rs"), ("move to device", S+"tensor.rs, "+S+"parameter.rs, "+S+"model.rs")],
  state=[("host values", "data of a tensor not yet on a device", S+"tensor.rs")],
  observe=["serialised bytes", "reloaded values, shapes, statistics", "subsequent training trajectory"])

p("C15", "Malformed saved data is refused without panicking",
  "Deserialising a shape, tensor or parameter from arbitrary, truncated or inconsistent data (too many dimensions, zero extents or batch, sizes that overflow, a number of values that differs from the shape's size) returns an error; it never panics, never aborts and never yields an object whose data disagrees with its shape. Data that is accepted can be moved to a device and read back.",
  ["inputs"], "all byte strings / JSON documents, in particular mutations of valid saved data",
  "There is no serialisation test, and malformed inputs form an unbounded space.",
  [S+"shape.rs", S+"tensor.rs", S+"parameter.rs"],
  [("shape validation while deserialising", S+"shape.rs"), ("consistency of values and shape", S+"tensor.rs")],
  observe=["Ok/Err/panic of deserialisation", "accepted object's shape and values"])

p("C16", "Models enumerate exactly their parameters, in order, at any nesting",
  "For every model (structs deriving the model trait with generics, lifetimes and constants, nested models, vectors of models or of parameters, empty ones) the immutable and the mutable enumeration list every parameter of every field not marked as skipped exactly once, in declaration/element order, recursively, and nothing else. Moving a model to a device moves exactly these parameters, configuring or updating a model with an optimizer acts on exactly these parameters, and skipped fields stay untouched.",
  ["programs", "configurations"], "all model type structures (field orders, skip markers, nesting, vectors, generic parameters)",
  "There is no test of the derive macro or of the model trait.",
  ["prima_undine_derive/src/lib.rs", S+"model.rs", S+"optimizer.rs"],
  [("derive macro", "prima_undine_derive/src/lib.rs"), ("vector implementations", S+"model.rs")],
  observe=["identity and order of enumerated parameters", "device and statistics of every field afterwards"])

p("C17", "Random tensors and initializers follow the requested distribution",
  "Every random tensor or initializer result has the requested shape, each element (over the whole tensor, batch included) is an independent draw from the requested distribution with the requested parameters: Bernoulli in {0,1} with probability p, uniform within its bounds, normal, Xavier-uniform within +-scale*sqrt(6/(rows+columns)), constant exactly constant. Successive draws differ, invalid distribution parameters panic without affecting later draws, and a parameter starts with its initializer's value and a zero gradient.",
  ["inputs", "histories"], "all shapes, distribution parameters and draw sequences",
  "Random kernels and initializers have no test.",
  [S+"random.rs", K+"random.rs", F+"random/device.rs", S+"initializers/", S+"device.rs"],
  [("fillers", S+"random.rs"), ("kernels passing parameters", K+"random.rs"), ("initializers", S+"initializers/*.rs")],
  observe=["empirical moments, ranges, tail fractions, correlations between positions and draws"])

p("C18", "A rejected or failing call leaves everything else usable and unchanged",
  "When a call panics (incompatible arguments, missing kernel, wrong device, backend allocation failure, a panic inside a user-supplied kernel, initializer or operator) and the panic is caught, all tensors, parameter values and other graphs keep their values and stay usable (only the destination or the gradients the failing call was already writing may be incomplete), an evaluation that failed can be retried, the device keeps working for this and other threads, no buffer is lost or freed twice, and later results are the same as if the failed call had never been made.",
  ["fault_sequences", "histories"], "all points at which a call can be rejected or a backend/kernel/operator can fail, within any surrounding history",
  "No test provokes a failure.",
  [S+"memory_pool.rs", S+"device.rs", S+"tensor.rs", S+"graph.rs", K+"random.rs"],
  [("validation before side effects", F+"*/device.rs"), ("locks not held across calls that can fail", S+"memory_pool.rs, "+K+"random.rs"), ("release of temporaries while unwinding", S+"tensor.rs")],
  observe=["state before/after the caught panic", "backend allocation ledger", "subsequent results"])

p("C19", "Contributed layers compute their definition and gradients",
  "Mean, batch mean, sum of a list, batch normalisation and layer normalisation compute exactly their definitions (biased variance, eps inside the square root, gain and bias applied after normalisation; batch normalisation disabled returns its input) for tensors and for nodes, and their gradients are the true derivatives. Dropout keeps each element, and per-dimension dropout each whole line along the dimension, independently with probability 1-rate scaled by 1/(1-rate), zeroes the rest, uses the same mask for the gradient, returns the input when disabled and zeros when the rate is 1 or more.",
  ["inputs", "programs"], "all shapes, batches, dimensions, rates, eps and inputs",
  "The contributed crate has no tests.",
  ["prima_undine_contrib/src/functions/contrib/node.rs", "prima_undine_contrib/src/functions/contrib/tensor.rs"],
  [("definitions in terms of basic functions", "prima_undine_contrib/src/functions/contrib/*.rs")],
  observe=["values and gradients against a double-precision reference", "mask statistics"])

p("C20", "argmax, argmin and argsort return correct indices",
  "Along the requested dimension of every sample, argmax/argmin return the position of the first largest/smallest element, laid out like the corresponding reduction's result. Argsort returns, laid out like the tensor, for each line a permutation of the flat positions (in the tensor's value vector) of that line's own elements that orders the line's values ascending; tensors and nodes agree.",
  ["inputs"], "all shapes, batches, dimensions (also beyond the depth) and values incl. ties, negative values and infinities",
  "Three hand-made examples each.",
  [K+"argmax.rs", K+"argmin.rs", K+"argsort.rs", F+"basic/device.rs"],
  [("kernels", K+"argmax.rs, "+K+"argmin.rs, "+K+"argsort.rs")],
  observe=["returned index vectors"])

p("C21", "In-place updates and views change exactly what they should",
  "Adding or subtracting a tensor in place and scaling in place equal the corresponding out-of-place arithmetic on the destination (a source of batch size 1 is shared by all samples, a destination of batch size 1 receives the sum over the source's samples), resetting sets exactly all elements, and incompatible shapes or devices are refused with the destination unchanged. Copies are independent of their source, a view shows exactly its referent's shape and values without copying and never frees it, replacing moves the contents, and only the destination's own elements ever change.",
  ["histories", "inputs"], "all sequences of creations, in-place updates, resets, copies, views, replacements, reshapes and drops over all shapes and batches",
  "In-place kernels are tested on two shapes; the public operators, views, replacement and refusal have no test.",
  [S+"tensor.rs", S+"device.rs", F+"arithmetic/tensor.rs", F+"arithmetic/device.rs", K+"add_assign.rs", K+"sub_assign.rs", K+"mul_assign.rs", K+"reset_tensor.rs"],
  [("in-place kernels", K+"add_assign.rs, "+K+"sub_assign.rs, "+K+"mul_assign.rs"), ("reference/replace/copy", S+"tensor.rs, "+S+"device.rs")],
  state=[("reference", "referent a view borrows its buffer from", S+"tensor.rs")],
  observe=["all live tensors after every step of a history against a model"])

p("C22", "Shapes keep their algebra for all dimensions and refuse overflow",
  "Every shape, however it was built, resized or reloaded, has a depth of at most 8 with no trailing extents of one, positive extents, a volume equal to the product of its extents and a size equal to volume times batch, extents beyond its depth read as one, and two shapes are equal exactly when their extents (trailing ones ignored) and batch sizes are. Comparison predicates (scalar, vector, matrix, same dimensions, same dimensions except one, batch compatibility) and partial volumes agree with those definitions, and zero extents, zero batches, more than 8 dimensions, or totals that do not fit the size type are refused rather than wrapped.",
  ["inputs", "histories"], "all extents including those near and beyond the integer range, all resize sequences and dimension arguments",
  "No test targets shapes; the kernel tests use a few literal shapes with small extents.",
  [S+"shape.rs", S+"macros.rs"],
  [("construction and resizing", S+"shape.rs"), ("predicates", S+"shape.rs")],
  state=[("depth, volume, dims, batch", "cached derived quantities", S+"shape.rs")],
  observe=["all accessors after every step", "panic or success"])

p("C23", "Softmax-family and saturating functions stay finite and accurate",
  "For finite inputs of any magnitude, log-sum-exp, log-softmax, softmax, (sparse) softmax cross entropy, sigmoid, tanh, softplus and ELU and their gradients do not overflow, produce NaN, or lose accuracy: every result is finite whenever the exact real value is representable and matches it within a small multiple of the single-precision rounding of the inputs involved (relative to the largest of the result, one and the magnitudes in the line). Up to that rounding softmax probabilities are within [0,1] and sum to one, log-softmax is never positive, and shifting all logits by a constant changes neither.",
  ["inputs"], "all finite inputs including magnitudes up to 1e4..1e30, mixed magnitudes and long reduction lines",
  "The tests use inputs within +-10 on tiny lines.",
  [K+"logsumexp.rs", K+"sigmoid.rs", K+"softplus.rs", K+"tanh.rs", K+"elu.rs", O+"logsumexp.rs", O+"softmax_cross_entropy.rs", O+"softplus.rs", F+"basic/tensor.rs", F+"basic/node.rs"],
  [("stable accumulation", K+"logsumexp.rs"), ("stable activation forms", K+"sigmoid.rs, "+K+"softplus.rs"), ("softmax via log-sum-exp", F+"basic/tensor.rs")],
  observe=["values and gradients against a double-precision reference"])

p("C24", "Graph depth and width are limited by memory only",
  "Graphs of any depth and fan-out, such as long recurrences of hundreds of thousands of operations or chains of shared nodes with exponentially many paths, can be built, evaluated, differentiated and dropped: the work grows in proportion to the number of operations, not paths, and the call stack does not grow with depth. Results equal those of the same computation done eagerly step by step.",
  ["programs", "configurations"], "all depths, widths and sharing patterns, also on threads with small stacks, and all drop orders of node handles",
  "No test builds a graph of more than a few nodes.",
  [S+"graph.rs"],
  [("iterative traversal with visited set", S+"graph.rs"), ("release of operations when the last node goes", S+"graph.rs")],
  observe=["process survival on a bounded stack", "operation execution counts", "results"])

p("C25", "Batched computation equals computing each sample separately",
  "For every expression over sample-wise operations, evaluating it on batched inputs gives, for each sample, exactly the result of evaluating it on that sample alone, with batch-1 operands acting as if repeated. Likewise the gradient of a batched evaluation with respect to shared parameters equals the sum of the per-sample gradients, and concatenating, slicing, splitting, picking and summing over the batch are mutually consistent inverses/decompositions.",
  ["programs", "inputs"], "all expressions, batch sizes and mixtures of batched and shared operands",
  "Kernel tests mix at most one batched shape per operation; no test compares batched with per-sample evaluation.",
  [K, O, S+"shape_ops.rs"],
  [("batch strides in kernels", K+"*.rs"), ("batch reduction in gradients", K+"add_assign.rs, "+O+"*.rs")],
  observe=["batched and per-sample values and gradients"])

p("C26", "Backends only ever see valid, well-shaped, correctly addressed calls",
  "Whatever the user does through tensors, nodes, parameters and optimizers, a backend's kernels are only called with buffers that this backend allocated (a tensor that never got one shows an empty handle), that are still live and at least as large as their tensor, with inputs holding computed values, with operand, result and gradient shapes that satisfy the kernel's contract, and with the kernel of the operation that was requested and its arguments in order. A device assembled from user-supplied kernels with the same contract therefore gives the same results as the built-in one, operations on tensors of different devices or on a missing kernel panic, and no call reaches a backend it was not meant for.",
  ["programs", "inputs", "configurations"], "all programs over the public interface on any registered backend",
  "The tests call kernels directly by name on the built-in backend; no test supplies a backend or inspects what is passed to it.",
  [S+"device.rs", S+"device_impl.rs", F+"basic/device.rs", F+"arithmetic/device.rs", F+"random/device.rs", O],
  [("registration and lookup by name", S+"device.rs"), ("argument checks and packing", F+"*/device.rs")],
  state=[("kernel tables", "registered kernels by name", S+"device.rs")],
  observe=["every kernel call seen by an interposing backend", "results against the built-in backend"])

p("C27", "Kernels called by name compute their operation; user kernels run as given",
  "A kernel of the built-in backend called by its registered name through Device::call_fw_impl, call_bw_impl, call_fw_u32_impl or call_fw_f32_impl, with fitting operands (tensors or views of them), the integer and number arguments the built-in operations pass and a destination the caller allocated, computes exactly its operation for every shape, batch combination and argument: a forward kernel writes every element of the destination whatever it held before, a backward kernel adds the vector-Jacobian product to what the gradient held, and no operand changes. That includes the kernels no operation uses: permute_dims (extent i of the result is extent perm[i] of the operand), flip (reverses one dimension) and identity. A kernel the user registers under a name replaces the earlier one of that name in its own table (forward, index-valued, number-valued and backward kernels are four separate tables) and is then called exactly once per call, with the tensors, integers and numbers unmodified and in order; calling a name that is not registered, or giving a view as the destination of a forward or backward kernel, panics without calling any kernel.",
  ["inputs", "configurations"], "all registered kernels x all fitting shapes, batches, arguments and prior destination contents; all sequences of registrations and calls on built-in and user-made devices",
  "The kernel tests call each kernel once or twice on a fresh zeroed destination with one shape; permute_dims, flip and their gradients are sampled on single shapes, and no test registers a kernel of its own, replaces one or looks at what it receives.",
  [K, S+"device.rs", S+"device_impl.rs"],
  [("kernels", K+"*.rs"), ("registration and lookup by name", S+"device.rs")],
  state=[("kernel tables", "registered kernels by name", S+"device.rs")],
  observe=["contents of destinations, gradients and operands after direct calls", "arguments seen by recording kernels", "panic or success"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
