#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "src/Tensor/"; O = "src/Operation/"; F = "src/Function/"; D = "src/Distributed/"

prop("T01", "Caching allocator: live blocks stay disjoint, sized, reusable, OOM-recovering",
 "For every sequence of allocations and frees, each block handed out is at least as large as requested, overlaps no other live block and lies inside memory currently obtained from the underlying allocator; freeing a block makes its memory available again without touching any other live block. "
 "When the underlying allocator refuses memory, cached unused memory is given back and the request retried before failure is reported, and a failed request leaves the allocator usable. "
 "After all blocks are freed and the allocator is destroyed, every underlying block has been returned exactly once.",
 ["histories", "fault_sequences"], "all allocate/free/release histories up to the stated depth over sizes at every bucket boundary, and every placement of an underlying out-of-memory answer",
 "Tests exercise the allocator only as a by-product of building a few tensors; no test frees in unusual orders, splits and merges blocks, or ever sees an allocation failure.",
 [T+"CachedAllocator.cpp", T+"CachedAllocator.h", T+"Allocator.cpp", T+"Allocator.h"],
 [("split/merge of cached blocks", T+"CachedAllocator.cpp"), ("best-fit free pools", T+"CachedAllocator.cpp"), ("release cached blocks and retry on OOM", T+"CachedAllocator.cpp")],
 ["CachedAllocator::allocate/deallocate with a harness-owned base allocator"])

prop("T02", "In-place writes never leak into clones or views; handles see their own writes",
 "After any history of creating, cloning, viewing, slicing and modifying tensors, writing through one tensor changes the values seen through that tensor (and through copies of the same handle for the plain fill, scatter and masked-fill writes) and never the values of any clone, of any tensor derived from it earlier by a shape or slicing operation, or of the tensor it was derived from. "
 "The one documented exception is copying data into a contiguous leading-dimension slice, which writes through to the parent buffer.",
 ["histories", "programs"], "all operation histories up to the stated depth over a small pool of tensors and every in-place operation, followed by a read of every live tensor",
 "Tests check the written tensor only, in one history each; isolation is a property of every sharing pattern between every pair of live tensors.",
 [T+"Storage.cpp", T+"TensorImpl.cpp", T+"Tensor.cpp", O+"OpElemWiseCpu.h", O+"OpTransformCpu.h", O+"OpFillingCpu.h", O+"OpTransform.cpp"],
 [("copy-on-write of shared storage", T+"TensorImpl.cpp"), ("in-place operators re-seat the local handle", T+"Tensor.cpp"), ("views share storage with an offset", O+"OpTransform.cpp")],
 ["values read back with toList() from every live handle"])

prop("T03", "Shape operations and views preserve values and order for every shape",
 "reshape, view, flatten, unflatten, squeeze, unsqueeze, permute, transpose and t, and their in-place forms, produce exactly the shape the PyTorch-style definition gives (including inferred -1 sizes and negative dimensions) and the same elements at the positions that definition dictates. "
 "An impossible request for an in-place reshape-type operation leaves shape and data unchanged.",
 ["inputs"], "all shapes up to 4 dimensions with extents 0 to 3 (plus higher-rank and larger samples of the grid), all dimension arguments including negative ones, all target shapes, several element types, and views as inputs",
 "Tests use one or two hand-picked shapes per operation; off-by-one errors on rank, negative dims, size-1 or zero extents and views are outside them.",
 [T+"TensorImpl.cpp", T+"Tensor.cpp", O+"OpTransform.cpp", O+"OpTransformCpu.h", F+"FuncTransform.h"],
 [("contiguous stride recomputation", T+"TensorImpl.cpp"), ("permute/transpose element copy", O+"OpTransform.cpp")],
 ["shape(), toList()"])

prop("T04", "Slicing, indexing, joining and masking move exactly the selected elements",
 "Indexing, narrow, split, chunk, concat, stack, hstack, vstack, gather, scatter, index-select, index assignment, expand, repeat-interleave, tril and triu return or write exactly the elements that the PyTorch-style definition selects, in order, and leave all other elements alone. "
 "This holds for every shape, dimension and in-range index (negative ones where accepted), for every element type, and for inputs that are themselves slices of other tensors.",
 ["inputs"], "all shapes up to 3 dimensions with small extents, all dims, all index/section arguments on them, inputs as fresh tensors and as offset views",
 "Tests use a couple of literal tensors per operation and never feed one slicing operation's result to another.",
 [O+"OpTransform.cpp", O+"OpTransformCpu.h", F+"FuncTransform.h", T+"Tensor.cpp"],
 [("storage-offset views for leading-dimension slices", O+"OpTransform.cpp"), ("index arithmetic for gather/scatter/advanced indexing", O+"OpTransformCpu.h")],
 ["shape(), toList() of results and of the source tensors"])

prop("T05", "Elementwise binary operations follow broadcasting for every pair of shapes",
 "For every pair of broadcast-compatible operands, add, subtract, multiply, divide, power, maximum, minimum, comparisons, logical operations, clamping and fused multiply-add return the broadcast shape and, at each position, the result of the scalar operation on the corresponding operand elements, whether the operand is a tensor, a scalar or a view, and in the in-place form as well. "
 "The operands themselves are never modified by the out-of-place form.",
 ["inputs"], "all pairs of shapes up to 4 dimensions with extents 0 to 3, all operations, float, half, bfloat16 and integer types where supported, special values including NaN, infinities and signed zero, scalar operands on either side",
 "Tests cover a handful of shape pairs and benign values; the space of rank/size-1 alignments, special values and operand orders is untested.",
 [T+"TensorIterator.cpp", T+"TensorIterator.h", O+"OpElemWiseCpu.h", O+"OpElemWiseCpu.cpp", F+"FuncElemWise.h", T+"Tensor.cpp"],
 [("broadcast stride computation", T+"TensorIterator.cpp"), ("elementwise kernels", O+"OpElemWiseCpu.h")],
 ["shape(), toList()"])

prop("T06", "Unary maths, fills and element-type conversion are value-exact for every value",
 "Every unary operation (abs, neg, sign, sqrt, square, exp, log, sin, cos, sigmoid, tanh, relu, gelu, silu, logical not) and every constructor or fill (zeros, ones, full, arange, linspace, masked fill) yields the mathematically defined value for every input value, in every supported element type, to within that type's rounding. "
 "Conversion between Float32, Float16, BFloat16, Int32, Int64 and Bool gives the correctly rounded (nearest-even) or truncated value, and converting to a wider type and back is lossless.",
 ["inputs"], "all 65536 half and bfloat16 bit patterns, a boundary lattice of float32 bit patterns including all rounding ties near every exponent, all fills over small shapes and types",
 "Tests convert a few small integers; rounding ties, subnormals, infinities and NaN patterns cannot be covered by examples.",
 ["src/Utils/Half.h", "src/Utils/BFloat16.h", T+"DType.h", T+"Tensor.cpp", O+"OpElemWiseCpu.h", O+"OpFillingCpu.h", O+"OpTransformCpu.h"],
 [("software half/bfloat16 rounding", "src/Utils/Half.h, src/Utils/BFloat16.h"), ("dtype cast kernels", O+"OpTransformCpu.h")],
 ["toList(), Half/BFloat16 conversions"])

prop("T07", "Reductions match their definition on every shape, axis set and value pattern",
 "sum, mean, min, max, argmin, argmax, var and var-mean over the whole tensor, over one dimension or over a set of dimensions return the defined shape (with or without kept dimensions) and the defined value for every element position, including ties (first occurrence), infinities, negative numbers and single-element dimensions. "
 "Reducing never modifies its input, and its result does not share state with it.",
 ["inputs"], "all shapes up to 4 dimensions with small extents, all dims and dim subsets including negative dims, keep-dims on and off, all value assignments from a small alphabet for short rows",
 "Tests use a few fixed matrices with distinct finite values; all-negative, infinite, tied, zero-dimensional and higher-rank inputs are not covered.",
 [O+"OpReduceCpu.h", O+"OpReduceCpu.cpp", O+"OpReduce.cpp", F+"FuncReduce.h", T+"Tensor.cpp"],
 [("dimension normalisation and index decomposition", O+"OpReduceCpu.h"), ("reduction identities and argmax bookkeeping", O+"OpReduceCpu.h")],
 ["shape(), toList()"])

prop("T08", "Matrix products equal the sum of products for every rank, batch and transpose",
 "matmul (with and without transposition flags), dot and linear return, for every legal combination of operand ranks, sizes and batch dimensions, the broadcast batch shape and at each position the sum of products defined by matrix multiplication, including zero-length and size-1 dimensions. "
 "Operands that are views or slices give the same result as fresh copies.",
 ["inputs"], "all operand shape pairs up to rank 4 with small extents (each legal broadcast alignment), both transpose flags, plus block-size-crossing matrix sizes",
 "Tests use a handful of fixed batch shapes, and only equal ranks with distinct sizes; mixed-rank batch broadcasting is not covered.",
 [O+"OpLinalg.cpp", O+"OpLinalgCpu.h", O+"OpLinalgCpu.cpp", F+"FuncLinalg.h", F+"FuncNNLayer.h"],
 [("batch broadcast offset computation", O+"OpLinalg.cpp"), ("gemm kernel", O+"OpLinalgCpu.h")],
 ["shape(), toList()"])

prop("T09", "Softmax, normalisation, rotary and embedding layers compute their definitions",
 "softmax and logSoftmax along any dimension, layerNorm, rmsNorm, rotary position embedding, gated SiLU product, and embedding lookup return the defined values at every position for every shape, for large-magnitude inputs without overflow, and without modifying their inputs. "
 "Each softmax slice is a probability distribution that does not change when a constant is added to the slice.",
 ["inputs"], "all shapes up to 4 dimensions with small extents, every dim including negative ones, value patterns including large magnitudes and infinities, with and without affine parameters",
 "Tests use one or two fixed matrices; other axes, ranks, magnitudes and views are not exercised, and several of these layers have no test.",
 [O+"OpNNLayer.cpp", O+"OpNNLayerCpu.h", O+"OpFusedCpu.h", F+"FuncNNLayer.h", F+"FuncActivation.h", F+"FuncFused.h", "src/Module/Norm.cpp", "src/Module/Basic.cpp"],
 [("slice decomposition around dim", O+"OpNNLayerCpu.h"), ("max subtraction", O+"OpNNLayerCpu.h")],
 ["shape(), toList()"])

prop("T10", "Scaled dot-product attention equals its definition, causal and masked",
 "Attention returns softmax(QK^T*scale + mask)V for every batch/head/sequence/feature size, with the default or an explicit scale; positions excluded by a boolean mask or by causality contribute exactly nothing, and additive masks are added before normalisation. "
 "Grouped key/value heads, where supported, behave as if the heads were repeated.",
 ["inputs", "configurations"], "all small batch/head/query/key/feature sizes, causal on/off, each mask kind (none, boolean, additive) over all boolean masks of small score matrices",
 "One or two fixed examples are tested; mask/causal/size combinations and masked-position independence are not.",
 [F+"FuncNNLayer.h", O+"OpNNLayer.cpp"],
 [("mask construction and scale", F+"FuncNNLayer.h")], ["shape(), toList()"])

prop("T11", "Convolution and pooling compute sliding windows for all channels, strides, pads",
 "conv2d returns, for every batch, channel count, kernel size, stride and zero-padding that fits, the cross-correlation sum plus bias at every output position and channel; maxPool2d returns the maximum over each window's real elements, per channel. "
 "Output sizes follow the floor formula, and inputs and parameters are not modified.",
 ["inputs", "configurations"], "all small batch/in-channel/out-channel/height/width/kernel/stride/padding combinations with values that make every element distinguishable, including all-negative inputs",
 "Tests use one output channel, one input channel for pooling, and positive values, so layout mistakes between channels and positions and padding mistakes are invisible.",
 [F+"FuncNNLayer.h", O+"OpNNLayerCpu.h", "src/Module/Basic.cpp"],
 [("im2col/col2im layout", O+"OpNNLayerCpu.h"), ("reshape of the column product into the output layout", F+"FuncNNLayer.h")],
 ["shape(), toList()"])

prop("T12", "Sort, top-k, cumulative sum and sampling return exactly the right elements",
 "sort and topk return values in the requested order together with the indices they came from, each input position used at most once, agreeing with the multiset of inputs; cumulative sum returns every prefix sum along the chosen dimension; multinomial draws only indices of positive probability, and never repeats one when sampling without replacement. "
 "This holds for every shape, dimension, k and pattern of ties.",
 ["inputs"], "all small shapes, dims, k, largest/sorted flags, and all value assignments from a small alphabet (so all tie patterns and permutations), and all generator seeds in a range for sampling",
 "Tests use two or three literal inputs without ties; ordering and index consistency is a statement over all permutations.",
 [O+"OpSamplingCpu.h", O+"OpSamplingCpu.cpp", F+"FuncSampling.h"],
 [("per-slice sort/partial sort", O+"OpSamplingCpu.h"), ("multinomial draw", O+"OpSamplingCpu.h")], ["toList()"])

prop("A01", "Gradients of any composed expression equal the derivative, shared nodes included",
 "For every expression built from differentiable elementwise, reduction, shape and activation operations, including ones that use the same tensor several times, share sub-expressions, or broadcast operands, calling backward sets the gradient of each leaf that requires it to the true derivative of the output weighted by the incoming gradient, with the leaf's own shape. "
 "Tensors that do not require gradients receive none, and forward values and the caller's tensors, including the incoming gradient, are unchanged.",
 ["programs", "inputs"], "all expression DAGs up to the stated number of operation nodes over the differentiable operations, all choices of operands among leaves and earlier nodes, several leaf shapes (broadcasting), each subset of leaves requiring gradients",
 "Tests differentiate a few fixed expressions; graph topology (diamonds, repeated use, mixed requires-grad, broadcasting) is combinatorial.",
 [T+"AutogradMeta.cpp", T+"Function.h", T+"Function.cpp", T+"Tensor.cpp", F+"FuncElemWise.h", F+"FuncTransform.h", F+"FuncReduce.h", F+"FuncActivation.h"],
 [("topological order and gradient accumulation", T+"AutogradMeta.cpp"), ("per-function backward and broadcast reduction", F+"FuncElemWise.h")],
 ["grad() of leaves"])

prop("A02", "Backward histories accumulate exactly; zeroing, hooks and reuse are exact",
 "Over any history of building expressions, running backward one or more times (on the same or on overlapping graphs), reading and zeroing gradients, registering and unregistering gradient hooks, each leaf's gradient equals the sum of the derivatives of the backward calls since it was last zeroed. "
 "Each hook registered on a tensor runs once per backward that reaches the tensor, after its gradient has been computed (for a leaf: accumulated), and is given that gradient; an unregistered hook never runs, and no gradient shares memory with another tensor's gradient or with the caller's tensors.",
 ["histories"], "all histories up to the stated depth over {build, backward, backward again, zeroGrad, setGrad, register hook, unregister hook, in-place update of a leaf or gradient}",
 "Tests call backward once or twice on separate graphs; interactions between repeated backward, accumulation and aliasing are histories, not examples.",
 [T+"AutogradMeta.cpp", T+"AutogradMeta.h", T+"AutogradHook.h", T+"Tensor.cpp", T+"Function.h"],
 [("gradient accumulation", T+"AutogradMeta.cpp"), ("hook registry", T+"AutogradHook.h")], ["grad() of leaves, hook call log"])

prop("A03", "No-grad mode changes recording only: same values, no graph, nests, per thread",
 "Inside a no-grad scope every operation returns the same values and shapes as outside, and its result does not require gradients and has no graph behind it; nested scopes restore the previous mode exactly when they end, and a scope in one thread does not affect another thread. "
 "Outside any scope, an operation's result requires gradients exactly when one of its differentiable inputs does (comparison and index results never do).",
 ["histories", "schedules", "programs"], "all enter/leave nestings up to the stated depth interleaved with every operation, with gradient-requiring and plain inputs, and all interleavings of two threads' enter/leave/apply steps",
 "Tests enter the scope once around one expression; nesting, other operations and other threads are not covered.",
 [T+"NoGradGuard.cpp", T+"NoGradGuard.h", T+"Function.h", T+"Function.cpp"],
 [("thread-local mode flag", T+"NoGradGuard.cpp"), ("recording decision", T+"Function.h")], ["requiresGrad(), gradFn(), values"])

prop("A04", "Layer gradients match finite differences for every shape and configuration",
 "The gradients that backward produces through linear, conv2d, maxPool2d, dropout, softmax and logSoftmax with respect to input, weight and bias equal the derivative of the forward computation for every supported shape and configuration, and accumulate correctly when a layer or parameter is used more than once. "
 "The gradient of each parameter has that parameter's shape.",
 ["inputs", "configurations"], "all small shape/stride/padding/channel/bias configurations of each layer, every coordinate of every gradient, each subset of inputs requiring gradients, incoming gradients that single out each output coordinate",
 "Tests check one configuration per layer with symmetric or constant values.",
 [F+"FuncNNLayer.h", F+"FuncActivation.h", O+"OpNNLayerCpu.h", "src/Module/Basic.cpp"],
 [("layer backward formulas", F+"FuncNNLayer.h"), ("softmax backward kernels", O+"OpNNLayerCpu.h")], ["grad()"])

prop("L01", "Loss functions and their gradients honour reduction and upstream scaling",
 "mseLoss and nllLoss return, under none, mean and sum reduction, the defined loss for every input and target, and their gradients equal the derivative of the returned value multiplied by the incoming gradient, for example when the loss is scaled, added to another loss, or unreduced. "
 "Calling backward more than once through the same loss adds the same gradient again.",
 ["inputs", "configurations", "histories"], "all small batch/class sizes, all target assignments, all reductions, composition of the loss with scaling and addition, repeated backward",
 "Tests call backward directly on the loss with an implicit gradient of one, so the upstream factor never matters.",
 [O+"OpLossCpu.h", O+"OpLossCpu.cpp", O+"OpLoss.h", F+"FuncLoss.h", "src/Module/Loss.cpp"],
 [("loss kernels and reduction switch", O+"OpLossCpu.h"), ("loss backward", F+"FuncLoss.h")], ["toList(), grad()"])

prop("O01", "Optimizers apply their published update rule over every step history",
 "For SGD (momentum, dampening, Nesterov, weight decay), Adagrad, RMSprop (centered, momentum), AdaDelta, Adam, AdamW (with and without AMSGrad, taken over the bias-corrected second moment), every history of gradient assignments and steps leaves each parameter equal to what the documented update rule gives for that parameter's own gradient history. "
 "Parameters without a gradient are left untouched, gradients are not modified by a step, and zeroing gradients affects neither parameter values nor optimizer state. A parameter that is frozen (no longer requires gradients) counts as one without a gradient.",
 ["histories", "configurations"], "every option combination from a small grid, all histories up to the stated depth over {set gradient, step, zeroGrad, change learning rate}, two parameters with different histories",
 "Tests run one configuration for a few steps with loose tolerances; option combinations and per-parameter histories multiply.",
 ["src/Optimizer.cpp", "src/Optimizer.h"],
 [("per-parameter state buffers", "src/Optimizer.cpp")], ["parameter values after step()"])

prop("O02", "Learning-rate schedule follows step-size and gamma over every history",
 "After n scheduler steps the optimizer's learning rate equals the initial rate multiplied by gamma once for each completed period of step-size, for every step-size, gamma and number of steps, and the schedule leaves parameters and optimizer state alone. "
 "The optimizer uses the new rate from the next step on, and a rate set by the user in between is scaled from there.",
 ["histories", "configurations"], "all step sizes and gammas from a grid, all histories up to the stated depth of scheduler step, optimizer step and explicit rate change",
 "One schedule with one step size is tested.",
 ["src/Scheduler.cpp", "src/Scheduler.h", "src/Optimizer.h"], [("chained StepLR form", "src/Scheduler.cpp")], ["getLr(), parameter values"])

prop("M01", "Module trees enumerate every parameter once, by path, and switch mode everywhere",
 "For every tree of modules, the flat and named listings contain each registered parameter and state exactly once under its dotted path in registration order; training/evaluation mode, gradient zeroing and dtype conversion reach every module and parameter in the tree and nothing else. "
 "Sequential and module lists apply and expose their children in order, and dropout acts only in training mode.",
 ["programs", "histories"], "all module trees up to the stated depth and width over the provided module kinds (with and without bias), and all histories of train, eval, to, zeroGrad",
 "The module tests are few, are excluded from the stable baseline, and look at single layers, not trees.",
 ["src/Module/Module.h", "src/Module/Basic.h", "src/Module/Basic.cpp", "src/Module/Norm.h", "src/Module/Norm.cpp"],
 [("child registration and recursive traversal", "src/Module/Module.h")], ["namedParameters(), namedStates(), parameters(), forward values"])

prop("S01", "Saving then loading a model restores every parameter bit for bit",
 "For every module tree, element type and parameter value (including NaN payloads, infinities and zero-size tensors), loading a file written by save into a model of the same structure makes every parameter and state bit-identical to the saved one, and loading has no effect on any other tensor. "
 "Saving never changes the model, and files saved from equal models are identical.",
 ["inputs", "histories"], "all small module trees and parameter shapes, all element types, special value patterns, save/load/overwrite histories",
 "There is no serializer test in the suite.",
 ["src/Serializer.cpp", "src/Serializer.h", "src/Utils/MMapUtils.cpp", "src/Module/Module.h"],
 [("binary record format", "src/Serializer.cpp")], ["file bytes, parameter bytes"])

prop("S02", "A damaged file or failed write is reported and never half-applied or overread",
 "If a model file is truncated, has a corrupted structure (magic, version, counts, names, types, shapes, sizes) or does not match the model, load returns failure without reading outside the file and leaves every parameter as it was; if writing fails at any point, save returns failure. "
 "A save that fails or whose process dies never leaves, under the target name, a file that load accepts but that differs from what was saved, and a previously good file is not destroyed.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation length of a saved file, every single-byte corruption from a set of values, structure mismatches, and every position of a failing or short write or a crash during save",
 "No test opens a damaged file or injects an I/O error.",
 ["src/Serializer.cpp", "src/Utils/MMapUtils.cpp"],
 [("header and record parsing", "src/Serializer.cpp"), ("mmap reader", "src/Utils/MMapUtils.cpp")], ["return values, parameter bytes, file bytes; system calls intercepted at link time"])

prop("D01", "Each data-loader epoch yields every sample exactly once, in order, in batches",
 "For every dataset size, batch size, and shuffle and drop-last setting, iterating a data loader yields each selected sample exactly once, batched in sampler order with all batches full except possibly the last; the reported number of batches equals the number yielded. "
 "The order without shuffling is the index order; with shuffling it is a permutation determined by the seed and epoch, and a second iteration visits the same set again (a loader built with its own shuffle flag fixes its order when it is built; a random sampler's order follows from its seed and epoch).",
 ["inputs", "configurations"], "all dataset sizes and batch sizes in a range (plus sizes beyond exact float range for the count), shuffle/drop-last, several seeds and epochs, repeated and interleaved iterations",
 "The data pipeline has no test in the suite.",
 ["src/Data/DataLoader.h", "src/Data/Sampler.h", "src/Data/Dataset.h"],
 [("batch slicing and batch count", "src/Data/DataLoader.h"), ("sequential/random sampler", "src/Data/Sampler.h")], ["batches yielded"])

prop("D02", "Dataset files are parsed exactly or rejected, and transforms act per definition",
 "Loading an MNIST image/label pair yields each image and its own label in file order with pixel values scaled as documented; truncated or wrong-format files are rejected instead of being read past the end, and when the two counts differ only the pairs that both files contain are exposed. "
 "Transform composition applies each transform in order, and normalisation maps every element by (x-mean)/std.",
 ["inputs", "fault_sequences"], "all small synthetic file pairs (counts, sizes, magics), every truncation length, count mismatches, and all small transform chains and shapes",
 "No test reads the dataset files or runs a transform.",
 ["src/Data/DatasetMNIST.cpp", "src/Data/DatasetMNIST.h", "src/Data/Transform.h"],
 [("IDX header parsing", "src/Data/DatasetMNIST.cpp")], ["dataset size and items"])

prop("R01", "Seeded randomness is reproducible, advances between draws and stays in range",
 "After setting a manual seed, every program of random operations (uniform, normal, Bernoulli, dropout, initializers, shuffling) produces the same values each time it is run from that seed, successive draws within a program use fresh randomness rather than repeating the same stream, and different seeds give different streams. "
 "Uniform and Bernoulli values lie in their ranges, dropout keeps or zeroes each element and scales kept ones by 1/(1-p), and its backward uses the same mask.",
 ["programs", "histories", "inputs"], "all programs up to the stated length over the random operations, for a range of seeds, each run twice from the seed; all dropout probabilities on a grid including 0 and 1",
 "Tests only check that a random tensor has the right shape; reproducibility and freshness relate several calls.",
 ["src/Utils/RandomGenerator.cpp", "src/Utils/RandomGenerator.h", O+"OpFillingCpu.h", O+"OpSamplingCpu.h", F+"FuncNNLayer.h", "src/Initializer.cpp"],
 [("process-wide generator and manual seed", "src/Utils/RandomGenerator.h")], ["values of random tensors"])

prop("P01", "TCP store behaves as one atomic key-value map under any interleaving",
 "For any number of clients, each used by one thread at a time, and any interleaving of their set, get, add, wait, delete and count calls, every call returns what a single sequential map would return for some order of the calls consistent with real time, with add being atomic (on a value that is not a number it returns -1 and changes nothing); get and wait block until their keys exist and return promptly once they do. "
 "Partial network reads and writes never corrupt a message or mix up replies.",
 ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of 2-3 clients with 1-3 calls each on shared keys plus the server's threads, under every placement of short reads and writes up to a bound",
 "The distributed code is not even compiled by the test build; and a test samples one schedule.",
 [D+"TCPStore.cpp", D+"TCPStore.h", D+"Store.cpp"],
 [("server map with mutex and per-key condition variables", D+"TCPStore.cpp"), ("length-prefixed wire protocol", D+"TCPStore.cpp")],
 ["client call returns under a controlled scheduler with simulated sockets and time"])

prop("P02", "TCP store calls end in bounded time and shutdown is clean at any moment",
 "Every store call returns, with its result, a timeout error or a failure, no later than its configured timeout plus a small fixed allowance even if the peer is slow, silent, disconnects or is never there; a timed-out or failed client does not disturb other clients, and its own later calls work or fail but never return wrong results. "
 "Destroying clients and server at any moment, with calls outstanding or connections half open, ends all their threads, closes every socket exactly once and accesses nothing after it is destroyed.",
 ["schedules", "fault_sequences", "crash_points"], "all interleavings up to a preemption bound of server/client construction, calls and destruction, with connection refusals, resets, silence and interrupted system calls injected at every network call up to a bound, under virtual time",
 "The distributed code has no test; hangs, double closes and use after destruction depend on timing that tests do not control.",
 [D+"TCPStore.cpp", D+"TCPStore.h"],
 [("accept/client threads and shutdown", D+"TCPStore.cpp"), ("socket timeouts", D+"TCPStore.cpp")],
 ["virtual-time scheduler, simulated sockets, thread and descriptor ledger"])

prop("P03", "File store is an atomic map across processes, threads and crashes",
 "For any set of processes using the same directory, each through its own store object or several threads through one, every interleaving of set, get, add, wait, delete and count behaves like some sequential order of the calls on one map, with add atomic; reading never sees a partially written value and never creates a key, and deleting or reading a missing key reports it as missing. "
 "If a process dies at any point, the keys already acknowledged keep their values, the interrupted call either happened or did not, and other processes are not blocked.",
 ["schedules", "crash_points"], "all interleavings up to a preemption bound of 2-3 store users with 1-2 calls each on shared keys at file-system-call granularity, and a crash of one user at every file-system call",
 "The distributed code has no test; races and crash windows between system calls need a controlled scheduler.",
 [D+"FileStore.cpp", D+"FileStore.h", D+"Store.cpp"],
 [("file locking", D+"FileStore.cpp"), ("one file per key", D+"FileStore.cpp")], ["call returns and directory contents, system calls intercepted at link time"])

prop("P04", "Data-parallel reducer averages every gradient once, whatever the bucket layout",
 "After backward on every replica, each parameter's gradient equals the mean over replicas of the local gradients, for every parameter count, size and element type, every bucket size limit, every order in which gradients become ready, and every iteration in which every trainable parameter takes part; frozen parameters are left alone. "
 "All replicas issue the same sequence of collective operations, parameters start equal to the chosen root's, and once the wrapper is destroyed the module behaves as an ordinary one.",
 ["configurations", "histories", "schedules"], "all parameter-size lists and bucket limits in a small grid, all gradient-ready orders, 1-3 iterations, replica counts 1-3, with a simulated collective backend that completes in every order",
 "Needs several processes and GPUs; nothing in the suite touches it.",
 [D+"Reducer.cpp", D+"Reducer.h", D+"DistributedModule.cpp", D+"DistributedModule.h"],
 [("bucket flattening and hooks", D+"Reducer.cpp")], ["gradients after backward, recorded collective calls"])

prop("C01", "Threads working on their own tensors never disturb each other",
 "Threads that create, compute with, differentiate, train, save, load and destroy tensors, models and optimizers of their own at the same time - or change their own clones of a common tensor, or only read common tensors and parameters with gradient recording off (taking no views of them) - each get exactly the results they get alone, under every schedule: no data race, no use of freed memory, no deadlock, the gradient-recording mode is each thread's own, and every log message appears whole. "
 "Operations that draw from the common random generator and changes of global settings during the run are excluded.",
 ["schedules"], "all schedules up to a preemption bound of two or three threads over every operation with its backward pass, whole programs (training, saving, loading, batches, hooks, rejected calls), clones and common inputs, with happens-before race detection",
 "The suite is single-threaded.",
 [T+"CachedAllocator.h", T+"CachedAllocator.cpp", T+"NoGradGuard.h", T+"TensorImpl.cpp", O+"OpTransform.cpp", "src/Utils/Logger.cpp"],
 [("allocator lock", T+"CachedAllocator.h"), ("copy on write", T+"TensorImpl.cpp"), ("thread-local mode", T+"NoGradGuard.cpp")], ["controlled scheduler with race detector; results compared bit for bit with solo runs"])

prop("G01", "The CUDA backend computes what the CPU backend computes",
 "For every operation, form (new, out, in place), type, shape and kind of storage that both backends offer, tensors on a CUDA device give the same values, indices, shapes, types and gradients as the same tensors on the CPU, up to the rounding of the type (for random operations: the same laws, ranges and dependence on the seed), and inputs and other tensors sharing storage stay as they were. "
 "This holds in whatever order the device runs threads, blocks and queued work: device code touches only live device memory inside its tensors, properly aligned, with no two conflicting accesses unordered; the host never touches device memory; launches stay within the hardware's limits for every size (empty tensors included); and no device memory stays allocated.",
 ["inputs", "configurations", "schedules"], "all operations x forms x types x shapes (around warp, block and tile sizes) x kinds of storage x parameters, under two to four orders of threads, blocks and queued work",
 "The suite is compiled without CUDA and cannot run on a machine without a GPU; even with one, a test sees one schedule and no races.",
 [O+"OpElemWiseCuda.cuh", O+"OpReduceCuda.cuh", O+"OpTransformCuda.cuh", O+"OpNNLayerCuda.cuh", O+"OpLinalgCuda.cuh", O+"OpSamplingCuda.cu", O+"OpFillingCuda.cuh", O+"OpLossCuda.cuh", T+"TensorIterator.cuh", T+"Storage.cpp", "src/Utils/CUDAUtils.cpp"],
 [("kernels", O+"OpReduceCuda.cuh"), ("launch parameters", "src/Utils/CUDAUtils.cpp"), ("copies between devices", T+"Storage.cpp")], ["values copied back from the device", "accesses of device code", "allocations"])

prop("P05", "Distributed sampler partitions the dataset evenly across replicas every epoch",
 "For every dataset size, replica count, epoch, seed, shuffle and drop-last setting, all replicas receive the same number of indices, every index is valid, and together they cover every sample (with only the minimum padding repeats) or, with drop-last, no sample twice. "
 "Two replicas computing the same epoch agree on the permutation, and a new epoch reshuffles.",
 ["inputs", "configurations"], "all dataset sizes and replica counts in a range including more replicas than samples, all ranks, seeds, epochs, shuffle and drop-last settings, plus large sizes for the count arithmetic",
 "Nothing in the suite compiles or runs it.",
 [D+"DistributedSampler.cpp", D+"DistributedSampler.h"],
 [("padding and partition arithmetic", D+"DistributedSampler.cpp")], ["indices()"])

prop("P06", "Asynchronous work handles complete exactly once and wake every waiter",
 "A work handle reports completion, success and failure consistently: once finished it stays finished with its first outcome, every waiter in any thread returns (true, or false on its timeout) and none is lost whatever the interleaving of finishing, waiting and querying, and a failure is visible to every later query. "
 "Process-group initialisation (environment, tcp and file addresses) and backend strings select the named rendezvous and map each device type to the named backend or are rejected, and ranks, sizes and timeouts are as configured.",
 ["schedules", "inputs"], "all interleavings up to a preemption bound of 1-2 finishers and 1-3 waiters with and without timeouts under virtual time, and all initialisation strings over a small grammar",
 "Nothing in the suite compiles or runs it; lost wake-ups depend on the schedule.",
 [D+"Work.h", D+"ProcessGroup.cpp", D+"ProcessGroup.h", D+"DistributedProcessGroup.cpp", D+"DistributedProcessGroup.h", D+"Backend.h"],
 [("mutex and condition variable", D+"Work.h"), ("backend configuration parsing", D+"ProcessGroup.cpp")], ["return values of wait and queries"])

prop("P07", "Collective operations over several GPUs are right, ordered and fail cleanly",
 "Broadcast, reduce, all-reduce, all-gather, reduce-scatter, send and receive on the NCCL backend give every replica the values their definitions say, for every type, shape, root and reduction, whatever the timing of replicas and device work: they see everything computed before the call, and everything computed after waiting for the returned work sees their results, while other memory and the caller's current device stay as they were and an operation in progress keeps the tensors it uses. "
 "Waiting with a limit, or for a barrier, returns success only after every needed replica has taken part and the data is there; a wait that runs out of time, a failing or never-ending library call, shutdown and abort end in time with an error that stays visible (not a hang, a crash or a wrong success), communicators are all released, and data-parallel training equals training on all the data.",
 ["schedules", "faults", "histories", "configurations"], "all operations x reductions x roots x types x shapes on 1-3 replicas, all sequences of 4 operations and computations, every schedule with one or two deviations of short programs, late replicas under virtual time, every failing library call, all ways to end, and training runs",
 "Needs several GPUs and NCCL; nothing in the suite compiles it, and timing decides which errors show.",
 [D+"BackendNCCL.cpp", D+"BackendNCCL.h", D+"WorkNCCL.cpp", D+"WorkNCCL.h", D+"NCCLUtils.h", D+"ProcessGroup.cpp", D+"Reducer.cpp", D+"DistributedModule.cpp", "src/Utils/CUDAUtils.h"],
 [("streams and events around a collective", D+"BackendNCCL.h"), ("waiting and time-outs", D+"WorkNCCL.cpp"), ("communicators and their identifiers", D+"BackendNCCL.cpp")], ["tensors after waiting", "return values of wait and queries", "recorded errors", "open communicators"])

prop("U01", "Small vectors and array views behave like ordinary sequences",
 "Every history of constructing, copying, moving, assigning, growing, shrinking, appending, inserting and clearing on the inline-storage vector gives the same contents and size as an ordinary growable array, across the boundary between inline and heap storage; copies are independent and nothing is leaked, read or written out of bounds. "
 "Array views and dimension-argument types expose exactly the viewed elements.",
 ["histories"], "all operation histories up to the stated depth over two or three vectors with sizes around the inline capacity",
 "It is used everywhere with ranks up to 4, below the inline capacity; transitions between inline and heap storage are never tested.",
 ["src/Utils/VectorUtils.h"], [("inline/heap storage switch", "src/Utils/VectorUtils.h")], ["contents after each operation, address sanitizer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
