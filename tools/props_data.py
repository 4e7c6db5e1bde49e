_B = ("; sampled, not exhaustive: bounded shapes and magnitudes as DESIGN.md lists. Trusts "
      "TensorFlow's built-in kernels, numpy and hypothesis.")

prop("C01", "Sharing a value and revealing it returns the value",
     "For every value inside the representable range, every way of bringing it into the system "
     "(constant, public or private variable, private input, local computation, public-to-private "
     "conversion) and every protocol, fixed-point precision and share type, revealing gives the "
     "value back to within one unit of the fixed-point resolution; integers, booleans and unscaled "
     "values come back exactly, in the original shape. The additive, replicated or XOR "
     "reconstruction of the stored shares equals the encoded value.",
     ["inputs", "configurations"],
     "all values in the documented range, shapes, share types, ring widths, sources and protocols",
     "The tests share a handful of literal vectors per source; corner values (negative, range "
     "limits, scalars, sub-resolution) and the source x share type x precision product are not "
     "covered.",
     [ABY3, ABY3T, POND, SNN, "tf_encrypted/tensor/fixed.py"],
     [("fixed-point encode/decode", ABY3 + " _encode/_decode"),
      ("replicated sharing and reconstruction", ABY3 + " _share/_reconstruct"),
      ("additive sharing and reconstruction", POND + " _share/_reconstruct")],
     ["reveal()", "to_native()", "unwrapped shares"],
     "generated values x source x share type x protocol; round-trip oracle",
     "Round trip on generated inputs" + _B)

prop("C02", "Replicated three-party arithmetic computes the plaintext function",
     "For every program built from addition, subtraction, negation, multiplication, squaring, sums, "
     "scaling by constants and polynomials over any mix of private and public operands, broadcast "
     "shapes and operand scales, the three-party replicated protocol reveals what the same program "
     "computes on plaintext, to within the fixed-point rounding of the steps that rescale; steps "
     "that do not rescale are exact in the ring.",
     ["programs", "inputs", "configurations"],
     "all well-typed programs over values whose results fit the fixed-point range",
     "Each test applies one operator to one literal operand pair, with the same shape and usually "
     "the same sign; operator composition, broadcasting and public/private mixtures are unsampled.",
     [ABY3, ABY3T, FP],
     [("local linear operations and resharing multiplication", ABY3 + " _add*/_sub*/_mul*"),
      ("scale bookkeeping", ABY3 + " is_scaled handling in mul/mul_AS/polynomial")],
     ["reveal()"],
     "generated operator programs; differential against exact plaintext evaluation",
     "Each step is compared with exact arithmetic on the revealed operands" + _B)

prop("C03", "Two-party additive arithmetic computes the plaintext function",
     "For every program over private, public and masked values in the additive two-party protocols "
     "(in either ring), addition, subtraction, multiplication, squaring, "
     "matrix products, sums, division by public constants and their mixtures reveal the plaintext "
     "result to within the fixed-point rounding of that program.",
     ["programs", "inputs", "configurations"],
     "all well-typed programs over values whose results fit the fixed-point range, all operand "
     "privacy combinations, triple sources and rings",
     "Tests use single operators on literals; masked operands, repeated use of one operand in "
     "several products and both triple sources are hardly covered.",
     [POND, TRIP, "tf_encrypted/tensor/int100.py"],
     [("Beaver triples", TRIP), ("masking cache", POND + " _mask_private and *_masked_masked"),
      ("truncation", POND + " _truncate_private_*")],
     ["reveal()"],
     "generated operator programs; differential against exact plaintext evaluation",
     "Each step is compared with exact arithmetic on the revealed operands" + _B)

prop("C04", "Parties' replicated shares stay consistent and all decode alike",
     "After any sequence of operations in the replicated three-party protocol, the two copies of "
     "every share held by different parties are equal, and every party that reconstructs a value "
     "obtains the same result.",
     ["programs", "inputs", "configurations"],
     "all operation sequences, share types and debug/pseudorandom sharing modes",
     "Tests look only at the value decoded by the first party, so a wrong second copy at one "
     "party is invisible until a later operation happens to use it.",
     [ABY3, ABY3T],
     [("resharing after multiplication", ABY3 + " _mul_private_private/_and_private_private"),
      ("reconstruction at each party", ABY3 + " _reconstruct/reveal")],
     ["unwrapped shares of every private tensor", "public backing at each party"],
     "generated op sequences; invariant over the shares after every step",
     "Replica invariant and three-way reveal equality on generated programs" + _B)

prop("C05", "Rescaling loses at most the stated number of low-order units",
     "For every value inside the allowed range, every amount and every truncation method, dividing "
     "a private value by a power of two in the share domain yields the true quotient to within one "
     "or two units of the last place, for positive and negative values alike, and multiplication by "
     "a power of two is exact.",
     ["inputs", "configurations"],
     "all values in the range the method documents, all amounts, all methods and rings",
     "Sharing randomness decides the carry into the result; tests check one literal vector once "
     "with a loose tolerance.",
     [ABY3, POND, SNN],
     [("local and trusted-party truncation", ABY3 + " _truncate_*"),
      ("probabilistic / interactive truncation", POND + " _truncate_private_interactive/"
       "_noninteractive")],
     ["reveal of the truncated shares"],
     "generated ring values x amounts x methods; bound checked against exact shift",
     "Error bound on generated values incl. range limits" + _B)

prop("C06", "Three-party comparisons, equality and selection match plaintext",
     "For every pair of operands in range (including equal, adjacent, negative and extreme values) "
     "the replicated protocol's greater/less (or equal), equality, zero test, sign bit, maximum, "
     "rectifier and oblivious selection give exactly the plaintext answer, for private/public "
     "mixtures and broadcast shapes.",
     ["inputs", "configurations"],
     "all operand pairs whose difference fits the ring, all shapes and privacy mixtures",
     "Tests use a few literal vectors; off-by-one at equality and sign boundaries needs specific "
     "values.",
     [ABY3],
     [("sign extraction by parallel prefix adder", ABY3 + " _msb_private/_bit_extract_private"),
      ("selection", ABY3 + " select / mul_ab")],
     ["reveal()"],
     "generated operands with boundary bias; exact plaintext oracle",
     "Exact agreement on generated operands" + _B)

prop("C07", "SecureNN comparisons, bit tests and selection match plaintext",
     "For every operand pair in range, the two-server-plus-helper protocol's comparisons, sign and "
     "parity tests, bit operations, private comparison, rectifier, selection, maximum and argmax "
     "give exactly the plaintext answer.",
     ["inputs", "configurations"],
     "all operands whose difference fits the ring, both odd- and even-ring configurations",
     "Tests use short literal vectors; blinding randomness and boundary values decide the branch "
     "taken.",
     [SNN, ODD],
     [("private compare, sign by parity", SNN + " _private_compare/_lsb_private/msb"),
      ("odd ring arithmetic", ODD)],
     ["reveal()"],
     "generated operands with boundary bias; exact plaintext oracle",
     "Exact agreement on generated operands" + _B)

prop("C08", "Boolean sharing, bit operations and share conversion are exact",
     "For every bit pattern of every supported width, XOR, AND, OR, NOT, shifts, bit extraction, "
     "bit gathering, bit reversal, both binary adder circuits, the subtractor, the carry circuit, "
     "arithmetic/boolean/single-bit conversions and arithmetic-times-bit products equal the "
     "machine-integer operation on the plaintext, for private/public mixtures.",
     ["inputs", "configurations"],
     "all bit patterns, widths, shift amounts, circuit topologies and privacy mixtures",
     "Tests convert a few small literals; carries that ripple across the full width and negative "
     "patterns are not hit.",
     [ABY3, "tf_encrypted/tensor/native.py", "tf_encrypted/tensor/boolfactory.py"],
     [("adders", ABY3 + " _ppa_*_private_private/_carry_private"),
      ("conversions", ABY3 + " _a2b_private/_b2a_private/_b2a_single/_mul_ab_*")],
     ["reveal()"],
     "generated bit patterns; exact machine-integer oracle",
     "Exact agreement on generated bit patterns" + _B)

prop("C09", "Sorting, maxima and pooling return what plaintext would",
     "For every private tensor, axis, direction and window, the sorting network returns the ordered "
     "values, and max, argmax and max-pooling (with or without indices, by any method, in every "
     "protocol offering them) return the plaintext maximum and a position attaining it.",
     ["inputs", "configurations"],
     "all shapes (including non-powers of two and ties), axes, methods and window geometries",
     "Network topology depends on the length; tests try a few lengths and distinct values.",
     [ABY3, SNN, "tf_encrypted/tensor/shared.py"],
     [("bitonic network", ABY3 + " _sort_private/cmp_swap"),
      ("tree and network maxima", ABY3 + " _reduce_max_*/_argmax_*/maxpool2d*")],
     ["reveal()"],
     "generated tensors with ties; plaintext oracle plus attains-the-maximum relation",
     "Exact agreement on generated tensors" + _B)

prop("C10", "Reshaping and data-movement operations commute with reveal",
     "Indexing, slicing, reshape, transpose, concatenation, stacking, splitting, tiling, padding, "
     "reversing, gathering, scattering, expanding and squeezing act on private and public values "
     "exactly as on plaintext, for every shape, axis and argument, in every protocol.",
     ["programs", "inputs", "configurations"],
     "all shapes, axes and argument values, composed in any order, in every protocol and share type",
     "Each operation has one or two literal tests, usually one axis and one rank, and not on each "
     "tensor kind.",
     [ABY3, POND, "tf_encrypted/tensor/native.py"],
     [("per-share dispatch of structural ops", ABY3 + " and " + POND)],
     ["reveal()", "static shape"],
     "generated structural programs; differential against numpy",
     "Exact agreement of value and shape on generated programs" + _B)

prop("C11", "Non-linear approximations stay within their documented accuracy",
     "On their working ranges the private exponential, base-2 exponential, logarithm, reciprocal, "
     "division, square root, inverse square root, sigmoid, tanh, softmax and polynomial evaluations "
     "stay within a fixed small error of the mathematical function, and keep its elementary "
     "relations (sign, saturation, normalisation).",
     ["inputs", "configurations"],
     "every input in the working range, both precisions and every protocol offering the function",
     "Tests evaluate each function at a few points; accuracy depends on the binary exponent and "
     "sign of the input.",
     [FP, ABY3, POND],
     [("normalisation and polynomial approximation", FP),
      ("piecewise polynomials", ABY3 + " polynomial_piecewise/sigmoid/exp/log")],
     ["reveal()"],
     "generated inputs over the working range; numeric error bound",
     "Error bounds measured on the unchanged code with margin" + _B)

prop("C12", "Matrix products, convolution and average pooling match plaintext",
     "For every shape, stride, padding, batch size and mix of private, public and masked operands, "
     "the matrix product, 2-D convolution, average pooling and their image/patch rearrangements "
     "equal the plaintext operation to within the fixed-point rounding of one rescaling.",
     ["inputs", "configurations"],
     "all shapes, strides, paddings, batch dimensions, operand privacy mixtures and protocols",
     "Tests use one or two geometries; unequal strides, odd sizes and non-square kernels are not "
     "covered.",
     [ABY3, POND, "tf_encrypted/tensor/shared.py"],
     [("matrix multiplication", ABY3 + " _matmul_*"), ("im2col lowering", ABY3 + " conv2d, "
      "tf_encrypted/tensor/shared.py")],
     ["reveal()"],
     "generated geometries; differential against TensorFlow plaintext kernels",
     "Agreement with the plaintext kernel on generated geometries" + _B)

prop("C13", "What one server sees does not depend on the secrets",
     "Whatever the secret inputs and whichever operations run on private values, the data that any "
     "single computing server (or the helper) handles before an explicit reveal has the same "
     "distribution for any two secrets of the same shape.",
     ["programs", "inputs", "configurations"],
     "all pairs of secrets of equal shape, all private operations, every server, in every protocol",
     "A result can be correct while a party sees an unmasked secret; no test looks at a party's "
     "view.",
     [ABY3, POND, SNN, TRIP],
     [("zero-sharing masks", ABY3 + " _gen_zero_sharing"), ("masking before opening", POND +
      " _mask_private"), ("device placement of each share", "tf.device blocks")],
     ["inputs and outputs of every TensorFlow op placed on each server's device"],
     "generated programs on paired secrets; statistical comparison of per-server views",
     "Detects views that separate two secrets by per-bit, value-set and pairwise-sum statistics at "
     "an extreme threshold; not a proof of simulatability" + _B)

prop("C14", "Sharing randomness is fresh: masks are never reused",
     "Sharing or re-sharing the same value twice, repeating an operation, or elements inside one "
     "tensor never use the same mask, so that shares of equal values are pairwise independent "
     "however often and in whichever order they are produced.",
     ["histories", "programs", "configurations"],
     "all sequences of sharing and interactive operations, all shapes including broadcasting",
     "Mask reuse never changes a result, so no functional test can notice it.",
     [ABY3, POND, "tf_encrypted/operations/secure_random/secure_random.py"],
     [("pairwise keys and nonces", ABY3 + " _setup_pairwise_randomness/_gen_zero_sharing"),
      ("seeded tensors", "tf_encrypted/tensor/factory.py, native.py")],
     ["unwrapped shares of fresh results"],
     "generated histories; no-repeat invariant over masks",
     "Collisions of 64-bit masks over generated histories (false-alarm probability < 2^-40)" + _B)

prop("C15", "Eager, traced, debug and multi-device execution agree",
     "A program gives the same revealed result (up to rounding) whether it runs eagerly or as a "
     "traced function, once or repeatedly with new inputs, in debug or normal mode, with players on "
     "one device or several, and after switching protocols back and forth; traced functions react "
     "to each call's own inputs.",
     ["programs", "histories", "configurations"],
     "all programs, call sequences and execution modes",
     "Tests run each operation in one mode, mostly once; result caching only misbehaves on the "
     "second use.",
     [PROT, "tf_encrypted/__init__.py", "tf_encrypted/config.py", ABY3],
     [("memoisation of protocol operations", PROT + " memoize"),
      ("tracing wrapper", "tf_encrypted/__init__.py function")],
     ["reveal() of the same program under each mode"],
     "generated programs and call histories; differential across execution modes",
     "Equality across modes on generated programs" + _B)

prop("C16", "A variable always holds the value last assigned to it",
     "For every history of assignments, in-place updates and reads of private and public variables, "
     "a read returns the value of the latest assignment and previously read values, other variables "
     "and the assigned source are unaffected.",
     ["histories", "configurations"],
     "all histories of assignments and reads over several variables, every protocol and share type",
     "Tests assign once; stale caching and aliasing need a second assignment or a second variable.",
     [ABY3, ABY3T, POND, "tf_encrypted/tensor/native.py"],
     [("assignment", ABY3T + " assign; " + POND + " assign")],
     ["reveal() after each step"],
     "stateful generation of histories; model of the variables as oracle",
     "Model-based histories" + _B)

prop("C17", "Native ring tensors implement exact modular arithmetic",
     "For every value of every native width, prime modulus, boolean and odd-ring tensor type, "
     "arithmetic, comparisons, bitwise and shift operations, reductions, constants, casts, "
     "structural and image-patch operations equal exact integer arithmetic modulo the ring, and "
     "sampled tensors lie in their range.",
     ["inputs", "configurations"],
     "all ring elements, shapes, axes, image geometries and rings",
     "Tests use literals far from the wrap-around and a single geometry.",
     ["tf_encrypted/tensor/native.py", "tf_encrypted/tensor/boolfactory.py", ODD,
      "tf_encrypted/tensor/shared.py"],
     [("ring operations", "tf_encrypted/tensor/native.py"), ("odd modulus", ODD)],
     ["to_native()"],
     "generated ring tensors; big-integer reference model",
     "Exact agreement with Python integers" + _B)

prop("C18", "100-bit CRT tensors behave as one exact large ring",
     "For every value of the 100-bit residue-number tensor type, arithmetic, matrix products, "
     "convolution, reductions, comparisons with constants, modular reduction and structural "
     "operations equal exact integer arithmetic in the ring, conversions in and out are lossless, "
     "and sampled residues are uniform.",
     ["inputs", "configurations"],
     "all ring elements, shapes and operation sequences",
     "Tests use small literals; carries between residues only show on large values.",
     ["tf_encrypted/tensor/int100.py"],
     [("CRT representation", "tf_encrypted/tensor/int100.py")],
     ["to_native()", "to_bigint()"],
     "generated ring tensors; big-integer reference model",
     "Exact agreement with Python integers" + _B)

prop("C19", "128-bit tensors implement exact two-word integer arithmetic",
     "For every 128-bit value, arithmetic, multiplication, matrix products, comparisons, bitwise and "
     "shift operations, bit manipulation, reductions, structural and image-patch operations and "
     "conversions equal exact arithmetic modulo 2^128.",
     ["inputs", "configurations"],
     "all two-word values, shapes, shift amounts and operation sequences",
     "Tests use values that fit one word; carries across the word boundary and sign handling are "
     "unsampled.",
     ["tf_encrypted/tensor/int128.py", "tf_encrypted/operations/tf_i128/tf_i128.py",
      "operations/tf_i128"],
     [("two-word kernels", "operations/tf_i128"), ("tensor layer", "tf_encrypted/tensor/int128.py")],
     ["raw two-word value"],
     "generated 128-bit tensors; big-integer reference model",
     "Exact agreement with Python integers" + _B)

prop("C20", "Bit-manipulation kernels equal their bitwise definitions",
     "For every input value of every supported width, the native kernels that gather bits, split "
     "and gather, reverse bits and XOR indices return exactly what their bit-level definition "
     "gives, element by element, for any shape and thread count.",
     ["inputs", "configurations", "schedules"],
     "all bit patterns, start/stride arguments, shapes and thread counts",
     "Tests use a few literals in one shape; work sharding only shows on large tensors.",
     ["operations/aux", "tf_encrypted/operations/aux/aux.py"],
     [("kernels", "operations/aux")],
     ["op output"],
     "generated bit patterns and shapes; bit-level reference",
     "Exact agreement with the definition" + _B)

prop("C21", "Secure random ops are uniform, in range, seed-determined and fresh",
     "For every seed, shape, dtype and range, the seeded generator is a function of the seed alone "
     "with values in range and uniform, prefixes and shapes consistent, independent of thread "
     "count; distinct seeds give unrelated output, and unseeded calls never repeat.",
     ["inputs", "configurations", "schedules"],
     "all seeds, shapes, ranges, dtypes and thread counts",
     "Tests draw one small tensor and check the range once.",
     ["operations/secure_random", "tf_encrypted/operations/secure_random/secure_random.py"],
     [("stream-cipher expansion and rejection sampling", "operations/secure_random")],
     ["op output"],
     "generated seeds/ranges/shapes; determinism, range and frequency oracles",
     "Statistical thresholds at false-alarm probability below 1e-9" + _B)

prop("C22", "Private shares written to files read back as the same secret",
     "For every private tensor and share width, writing the shares to per-party files and reading "
     "them back in any batch size and number of passes yields the same sequence of values, and no "
     "single file determines the secret.",
     ["inputs", "histories", "configurations"],
     "all tensors, record shapes, batch sizes, repeat counts and ring widths",
     "Tests write one literal and read it once.",
     [ABY3, "tf_encrypted/operations/dataset", "operations/dataset"],
     [("record writer and reader", "operations/dataset; " + ABY3 + " _write_private/_read_")],
     ["reveal() of what is read", "bytes of each file"],
     "generated tensors and read patterns; round-trip oracle",
     "Round trip in a scratch folder" + _B)

prop("C23", "Queues deliver shared values in order; serving answers each request",
     "For every interleaving of enqueue and dequeue within capacity, a queue of private values "
     "yields exactly the enqueued values in order, with their precision and shape, and the size it "
     "reports is right; a served model answers each submitted input with that input's own output.",
     ["histories", "schedules", "configurations"],
     "all enqueue/dequeue histories, capacities, shapes and request orders",
     "Tests enqueue once and dequeue once.",
     ["tf_encrypted/queue/fifo.py", "tf_encrypted/serving/queues.py", POND],
     [("per-share queues", "tf_encrypted/queue/fifo.py"),
      ("request and response queues", "tf_encrypted/serving/queues.py")],
     ["reveal() of dequeued values"],
     "stateful generation of queue histories; list model as oracle",
     "Model-based histories" + _B)

prop("C24", "Player configurations survive saving and loading unchanged",
     "For every set of players, saving a configuration and loading it gives the same players in the "
     "same order with the same addresses, the cluster description lists each exactly once, lookups "
     "by name or tag return the named player and nothing else.",
     ["inputs", "configurations"],
     "all player names, orders and host strings",
     "Tests cover two or three fixed players.",
     ["tf_encrypted/config.py", "tf_encrypted/player/player.py"],
     [("JSON save and load", "tf_encrypted/config.py")],
     ["loaded configuration", "cluster spec"],
     "generated configurations; round-trip oracle",
     "Round trip in a scratch folder" + _B)

prop("C25", "Private Keras layers compute the plaintext layer's forward pass",
     "For every layer configuration, weights and batch, a layer or sequential model evaluated on "
     "private data gives the output of the same plaintext Keras layer with the same weights, to "
     "within fixed-point error, and reports the right output shape.",
     ["inputs", "configurations", "programs"],
     "all layer hyper-parameters, weights, inputs and layer stacks",
     "Tests fix one configuration per layer.",
     ["tf_encrypted/keras/layers", "tf_encrypted/keras/models", "tf_encrypted/keras/activations.py"],
     [("layer call methods", "tf_encrypted/keras/layers/*.py")],
     ["layer output reveal()"],
     "generated layer configurations and stacks; differential against a numpy model of the plaintext layer that carries fixed-point error bounds",
     "Agreement with plaintext Keras on generated configurations" + _B)

prop("C26", "Private training follows the plaintext gradient steps",
     "For every model, loss, optimizer and batch, the gradients, losses and updated weights that "
     "private training produces equal those of plaintext training with the same initial weights, "
     "to within fixed-point error, over any number of steps.",
     ["inputs", "histories", "configurations"],
     "all supported models, losses, optimizers, batches and numbers of steps",
     "Tests train once and look at a loss or a shape, rarely at the updated weights.",
     ["tf_encrypted/keras/layers", "tf_encrypted/keras/losses.py",
      "tf_encrypted/keras/optimizers.py", "tf_encrypted/keras/models"],
     [("layer backward methods", "tf_encrypted/keras/layers/*.py"),
      ("optimizer state", "tf_encrypted/keras/optimizers.py")],
     ["weights after each step"],
     "generated models, losses, optimizers and batches; differential against plaintext gradients and steps in numpy with error bounds",
     "Agreement with plaintext training on generated models" + _B)

prop("C27", "A converted plaintext model gives the plaintext model's predictions",
     "For every ONNX graph over the registered nodes and every plaintext Keras model, converting it and "
     "running it on private input reveals the plaintext model's output to within fixed-point error, for "
     "any weights, architecture, node attributes (given or left to their defaults), naming, number of inputs, "
     "outputs and batch size; an attribute that is not supported is refused, never ignored. After compile, the "
     "gradients of the inputs and the trained weights are those of the plaintext graph.",
     ["inputs", "programs", "configurations"],
     "all graphs over the supported node types, weights and inputs",
     "Tests convert one fixed small graph per node type.",
     ["tf_encrypted/convert/convert.py", "tf_encrypted/convert/nodes.py"],
     [("node registry", "tf_encrypted/convert/nodes.py")],
     ["converted output reveal()"],
     "generated ONNX graphs and Keras models; differential against a numpy evaluator (forward and backward) with error bounds, itself cross-checked against onnx.reference and Keras",
     "Agreement with the plaintext model on generated graphs" + _B)
