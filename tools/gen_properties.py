#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as source because JSONL is awkward to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Everything exchanged inside a protocol is hidden by a fresh one-time mask",
 "While computing on encrypted data (products, squares, convolutions, bitwise AND, conversions between sharing types, divisions), every secret-dependent value a party sends or opens to others is that secret combined with random masks, each secret with a mask of its own of exactly its shape. No mask hides two different values, and no value is opened unmasked or with its mask scaled or cancelled.",
 ["inputs","programs"], "for every secret input, shape, number of parties and protocol invocation",
 "Tests only compare decrypted results; an unmasked or re-used mask gives exactly the same results, so no test can see it.",
 ["crypten/mpc/primitives/beaver.py","crypten/mpc/primitives/converters.py","crypten/mpc/primitives/replicated.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py"],
 [("Beaver openings","beaver.py: __beaver_protocol, square, wraps, AND, B2A_single_bit"),("replicated sharing of shares","replicated.py"),("conversion re-sharing","converters.py: _A2B")],
 "payloads handed to the communicator")
prop("C02", "Encrypted values are opened only on explicit request",
 "No computation on encrypted tensors or models decrypts a user's value: the plaintext is reconstructed only by the explicit decryption calls, or by the debugging aids when the user has switched them on. Decryption towards one party reveals the value to that party only.",
 ["programs","inputs"], "for every operation, every option of it and every program built from them",
 "A hidden decryption does not change any result, so result-comparing tests pass; they also exercise few option combinations.",
 ["crypten/mpc/mpc.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/cryptensor.py","crypten/debug/debug.py","crypten/nn/module.py"],
 [("opening primitives","ArithmeticSharedTensor/BinarySharedTensor reveal, get_plain_text"),("explicit API","MPCTensor.get_plain_text/reveal, Module.decrypt"),("validation","debug.validate_correctness")],
 "calls that reconstruct a shared value")
prop("C03", "Correlated randomness is never used twice",
 "Each multiplication triple, square pair, wrap-count pair or bit-conversion pair supplied to the parties is consumed by at most one protocol run. Entries served from the preprocessing cache leave the cache when they are served, whatever the sequence of tracing, filling, saving, loading and computing, and when the cache has no entry left a fresh one is generated.",
 ["histories","programs"], "for every history of protocol calls, trace/fill/save/load of the cache and all argument combinations",
 "Reusing a triple yields correct results; tests only check the results and a few cache histories.",
 ["crypten/mpc/provider/provider.py","crypten/mpc/primitives/beaver.py","crypten/mpc/provider/tfp_provider.py","crypten/mpc/provider/ttp_provider.py"],
 [("cache","provider.py: TupleProvider.func_from_cache / fill_cache / save_cache / load_cache"),("consumers","beaver.py protocols")],
 "tuples returned by the provider")
prop("C04", "Masks and shares are drawn from secret entropy over the full value range",
 "All generators that produce shares, masks and correlated randomness are seeded from operating-system entropy unless the user explicitly supplies seeds, the pairwise seeds are known only to the two parties sharing them, and every share or mask is drawn uniformly over the whole ring (or the whole width of the requested bit field). Random values meant to be private to one party never come from a generator that other parties can reproduce.",
 ["configurations","inputs"], "for every initialisation path, number of parties, provider and tensor shape",
 "Weak or shared seeds and truncated ranges leave every decrypted result unchanged; tests see only results and a few seed comparisons.",
 ["crypten/__init__.py","crypten/common/rng.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/mpc/provider/ttp_provider.py","crypten/mpc/provider/tfp_provider.py"],
 [("seeding","crypten/__init__.py: _setup_prng, manual_seed, generators"),("ring sampling","common/rng.py"),("dealer seeding","ttp_provider.py")],
 "arguments of generator seeding and sampling calls")
prop("C05", "Sharing then reconstructing returns the source's value and nothing else",
 "Encrypting a tensor and opening it returns the fixed-point encoding of exactly the value held by the source party; inputs passed by other parties have no influence. This holds for both sharing types, with every choice of source, number of parties, precision and with a value broadcast by size, and the zero-sharings that mask shares always cancel over all parties.",
 ["inputs","configurations"], "for every value, source rank, world size, precision and constructor option",
 "Tests run two or three parties with a handful of tensors and mostly source rank 0.",
 ["crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/mpc/mpc.py","crypten/__init__.py"],
 [("input sharing","ArithmeticSharedTensor.__init__, BinarySharedTensor.__init__"),("zero sharing","PRZS"),("opening","reveal, get_plain_text")],
 "decrypted value")
prop("C06", "Public operands count exactly once whatever the number of parties",
 "When an encrypted value is combined with a public one (addition, subtraction, exclusive-or, negation of bits, padding, scattering, index updates, item assignment, division, power-of-two shifts), the decrypted result is the plaintext result for any number of parties: additive contributions are counted by exactly one party, and multiplicative ones are applied by all parties. In-place and out-of-place variants and reflected operators agree.",
 ["inputs","configurations"], "for every world size, operand order, operand kind and in-place variant",
 "Tests run a fixed small party count and do not cover every operand kind, order and in-place variant.",
 ["crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/cryptensor.py","crypten/mpc/mpc.py"],
 [("arithmetic dispatch","ArithmeticSharedTensor._arithmetic_function and friends"),("binary dispatch","BinarySharedTensor xor/and/or/invert")],
 "decrypted value")
prop("C07", "Multiplication protocols compute the true product",
 "For every pair of secret operands, the interactive protocols for elementwise product, matrix product, convolutions and transposed convolutions, square, bitwise AND and bit conversion return shares whose combination is exactly the product of the operands, given valid correlated randomness. This holds for every number of parties, every protocol selected in the configuration, and every forwarded option (stride, padding, dilation, groups).",
 ["inputs","configurations"], "for every operand value, shape, option set, world size and configured protocol",
 "Tests sample values, default options and few party counts; an algebraic slip in one option or party count is invisible to them.",
 ["crypten/mpc/primitives/beaver.py","crypten/mpc/primitives/replicated.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py"],
 [("Beaver algebra","beaver.py"),("replicated sharing","replicated.py")],
 "decrypted value")
prop("C08", "Providers deliver valid correlations and dealer and parties stay in step",
 "Every tuple a provider hands out satisfies its defining relation across all parties (product triple, square pair, wrap count, bit in both sharings), for every operation, size and number of parties. With a trusted dealer, the parties and the dealer draw from their common generators in the same order with the same sizes and ranges, so the dealt correction is always right.",
 ["inputs","histories","configurations"], "for every request kind, argument shapes and options, world size and sequence of requests",
 "Tests request few sizes and party counts; desynchronised draws show only for particular request orders or devices.",
 ["crypten/mpc/provider/tfp_provider.py","crypten/mpc/provider/ttp_provider.py","crypten/mpc/provider/homomorphic_provider.py"],
 [("trusted first party","tfp_provider.py"),("trusted third party","ttp_provider.py: client and TTPServer")],
 "values returned by the provider at each party")
prop("C09", "Fixed-point scale is tracked exactly through every operation",
 "Every arithmetic operation on encrypted tensors returns a tensor whose recorded scale matches its contents: products are rescaled exactly once and only when both operands carry a scale, operands of different precision are brought to a common scale before being added, integers are never rescaled, and division or averaging by a public value rescales correctly. Decoding is the inverse of encoding for every scale, including negative values.",
 ["inputs","configurations"], "for every operand precision, operand kind, operation and in-place variant",
 "Tests use the default precision nearly everywhere, so scale mix-ups between operands of different precision go unnoticed.",
 ["crypten/encoder.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/mpc.py"],
 [("encoder","encoder.py"),("rescaling","ArithmeticSharedTensor._arithmetic_function, div_, encode_as"),("averages","mean, avg_pool2d")],
 "decrypted value and reported scale")
prop("C10", "Encrypted comparison, sign and selection functions match their plaintext meaning",
 "For every ordering of the operands, including ties and zero, the encrypted comparisons, equality tests, sign, absolute value, rectifiers, clamping and conditional selection return what the plaintext functions of the same name return, as zero/one results for predicates. This holds for encrypted operands and for public tensors or scalars as the second operand, whatever the precision of the operands.",
 ["inputs"], "for every ordering of the compared values (less, equal, greater, sign of each) and operand kind",
 "Tests sample random values, in which exact ties and zeros are rare, and do not cover each operand kind.",
 ["crypten/common/functions/logic.py","crypten/mpc/mpc.py","crypten/common/functions/approximations.py","crypten/cryptensor.py"],
 [("comparisons","functions/logic.py, mpc.py: _ltz, eq, ne"),("selection","where, relu, hardtanh, clamp")],
 "decrypted value")
prop("C11", "Binary circuits and sharing conversions preserve the value for all 64 bits",
 "Adding, comparing and extracting the sign of bit-shared integers is exact for every 64-bit pattern and every bit position, and conversions between arithmetic and bitwise sharing, of any requested number of bits, preserve the value. Shifts, inversion, OR and bitwise selection act per bit exactly as their plaintext counterparts.",
 ["inputs","configurations"], "for every bit pattern, bit position, conversion width and world size",
 "2^64 patterns: tests sample small integers, so errors in high levels of the carry tree or the top bits are not exercised.",
 ["crypten/mpc/primitives/circuit.py","crypten/mpc/primitives/converters.py","crypten/mpc/primitives/binary.py"],
 [("carry-lookahead","circuit.py"),("A2B/B2A","converters.py"),("bit operations","binary.py")],
 "decrypted value")
prop("C12", "All parties perform the same sequence of communications",
 "Whether a party takes part in a collective communication, and in which order, never depends on its rank or on data only it holds; point-to-point sends always have the matching receive. Every asynchronous transfer is waited for before its buffer is used or the operation returns.",
 ["schedules","programs"], "for every operation, party rank, world size and relative speed of the parties",
 "A mismatch shows as a hang or corrupted buffer only under particular ranks, sizes or timings; tests run two or three local processes.",
 ["crypten/communicator/distributed_communicator.py","crypten/mpc/primitives/beaver.py","crypten/mpc/primitives/replicated.py","crypten/mpc/primitives/arithmetic.py","crypten/__init__.py"],
 [("collectives","DistributedCommunicator"),("rank-dependent branches","__init__.py load_from_party/_setup_prng, arithmetic/binary constructors, providers")],
 "calls on the communicator")
prop("C13", "Out-of-place operations never modify their operands",
 "An operation that is not documented as in-place leaves the caller's encrypted tensors, plaintext tensors, lists and coefficients unchanged, and the results of arithmetic, comparisons and conversions can be modified without changing them (only view-like operations share storage, as in PyTorch). In-place operations modify and return their receiver.",
 ["programs","inputs"], "for every operation, operand kind, precision combination and later use of operands or result",
 "Tests look at the result and rarely re-examine operands; the corruption needs a particular operand mix or a later use.",
 ["crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/common/functions/regular.py","crypten/gradients.py","crypten/mpc/mpc.py"],
 [("operand handling","ArithmeticSharedTensor / BinarySharedTensor methods"),("helpers","functions/regular.py cat/stack helpers")],
 "operands after the call")
prop("C14", "Backward formulas are the derivatives of the forward functions",
 "For every differentiable operation, the gradient propagated to each input equals the incoming gradient times the mathematical derivative (or the established subgradient) of the forward function, for all inputs, broadcasting and option combinations. Gradients have the shape of the input they belong to.",
 ["inputs","programs"], "for every input value, shape, broadcasting pattern and option of every differentiable operation",
 "Tests compare a few random inputs and options per function in two-digit precision.",
 ["crypten/gradients.py","crypten/common/functions/pooling.py","crypten/common/functions/regular.py"],
 [("gradient functions","gradients.py: registered AutogradFunctions")],
 "gradients after backward")
prop("C15", "Gradient bookkeeping: every contribution counted once, only where requested",
 "The backward pass adds each path's contribution to each tensor's gradient exactly once, visits a node only after all its consumers, never writes gradients to tensors that do not require them, and clears the graph unless told otherwise. Gradient recording is restored to its previous setting after every scope that changes it, also when an exception leaves the scope.",
 ["programs","fault_sequences"], "for every computation graph, sharing of subexpressions, nesting of scopes and exception point",
 "Tests use a few fixed graphs; scope restoration under exceptions is not exercised.",
 ["crypten/cryptensor.py","crypten/gradients.py"],
 [("graph","CrypTensor.backward, _find_all_cryptensors, _reset_gradients"),("scopes","no_grad, enable_grad, set_grad_enabled")],
 "grad fields and grad mode")
prop("C16", "Configuration: overrides are temporary and every setting read exists",
 "A temporary configuration override affects only its scope: on leaving it, normally or by an exception, exactly the previous settings are back, also when nested; inside it every overridden setting has the value given and every other setting its previous one, and other configuration objects are unaffected. Every setting the library reads or overrides is one the default configuration defines, and reading an undefined setting fails.",
 ["configurations","fault_sequences","programs"], "for every override, nesting, exception point and every configuration-dependent branch",
 "Tests use one override without exceptions; a wrong setting name only fails in the branch that reads it.",
 ["crypten/config/config.py","configs/default.yaml","crypten/common/functions/approximations.py"],
 [("override scope","CrypTenConfig.temp_override"),("reads","every cfg.<section>.<key> in the package")],
 "configuration values")
prop("C17", "Loading data from other parties cannot execute code",
 "Objects received from other parties are decoded only through the restricted decoder, which hands out nothing but the listed types and functions (nested tensor storages included) and refuses every other name and every object carrying hooks. No listed entry can run arbitrary code, only types can be added to the list, and no unrestricted decoder is reachable from received bytes.",
 ["inputs","programs"], "for every byte string received and every loading entry point",
 "Tests try a few benign and one malicious object.",
 ["crypten/common/serial.py","crypten/communicator/distributed_communicator.py","crypten/communicator/in_process_communicator.py","crypten/__init__.py"],
 [("restricted unpickler","common/serial.py"),("call sites","recv_obj, broadcast_obj, load_from_party")],
 "decoder entry points")
prop("C18", "Approximations follow their documented series for every configuration",
 "Each approximated function (exponential, logarithm, reciprocal, square root, inverse square root, trigonometric, sigmoid, tanh, error function, softmax, powers and norms) evaluates the documented iteration or series, with the configured number of iterations, initial values and method, for all inputs. Each selectable method computes the same mathematical function, and handling of signs, of already-positive inputs and of scaling is consistent across them.",
 ["configurations","inputs"], "for every method, iteration count, initialisation and option",
 "Tests run default settings at loose tolerances; an iteration counted wrongly or a wrong coefficient in one method is absorbed or not exercised.",
 ["crypten/common/functions/approximations.py","crypten/common/functions/power.py"],
 [("iterations","approximations.py"),("powers","power.py")],
 "decrypted value")
prop("C19", "Maximum, minimum, their indices and pooling agree with plaintext semantics",
 "Maximum, minimum, and their arg variants return the true extreme value and a one-hot (or index) position of exactly one extreme, for every shape, dimension, reduction method, and tie; max and average pooling apply them to exactly the windows defined by kernel, stride, padding, dilation and rounding mode, and their backward routes the gradient to the selected positions.",
 ["inputs","configurations"], "for every size (odd, even, one), dimension, tie pattern, pooling geometry and reduction method",
 "Tests cover fixed sizes and symmetric geometries; ties and asymmetric geometry are rare in them.",
 ["crypten/common/functions/maximum.py","crypten/common/functions/pooling.py"],
 [("reductions","maximum.py"),("windows","pooling.py")],
 "decrypted value")
prop("C20", "Models stay consistent through encryption, decryption, saving and loading",
 "Encrypting a model encrypts every parameter and buffer of every submodule exactly once and marks every submodule as encrypted; decrypting undoes all of it. Saving and loading state restores every parameter and buffer under the same name in the same encrypted or plain form, training mode and gradient flags reach every submodule, and a state that does not fit is refused. What one party loads reaches the others as structure only.",
 ["programs","histories"], "for every module tree and every sequence of encrypt, decrypt, save, load and mode changes",
 "Tests use a few small models and sequences.",
 ["crypten/nn/module.py","crypten/__init__.py"],
 [("module state","nn/module.py: Module"),("party loading","crypten/__init__.py: load_from_party")],
 "parameters, buffers and flags of all submodules")
prop("C21", "Modules and losses compute the function of their PyTorch counterparts",
 "Every layer, loss and optimiser step computes the same function of its inputs, parameters and options as the PyTorch construct of the same name, a graph of modules computes the composition its edges describe, and every option of an imported graph node reaches the layer that is built for it. No option is silently dropped, swapped or defaulted differently.",
 ["inputs","configurations","programs"], "for every option combination, parameter value and input",
 "Tests cover default or symmetric options at loose tolerance.",
 ["crypten/nn/module.py","crypten/nn/loss.py","crypten/nn/distances.py","crypten/optim/sgd.py","crypten/optim/optimizer.py","crypten/nn/onnx_converter.py"],
 [("layers","nn/module.py forward/from_onnx"),("losses","nn/loss.py"),("optimiser","optim/sgd.py")],
 "layer outputs, parameter updates")
prop("C22", "Split learning keeps labels and gradients private as configured",
 "In the split model, the party holding the features never obtains the label party's labels, loss or unprotected gradients, and the label party never obtains the features; noise and label flipping are applied exactly as configured, once, before anything leaves the label side. The caller's labels are not modified.",
 ["configurations","inputs"], "for every protocol choice, noise and flipping setting, source ranks and input",
 "Missing or misapplied noise only degrades privacy, not the test's results.",
 ["crypten/nn/privacy/dp_split.py"],
 [("split model","dp_split.py: DPSplitModel")],
 "values sent or broadcast, gradients set")
prop("C23", "Communicator backends are interchangeable and report traffic faithfully",
 "Each communication primitive has the same meaning (who sends, who receives, reduction used, operands left unmodified unless documented) in the multi-process and the in-process backend. Verbose accounting never changes what is transferred.",
 ["programs","configurations"], "for every primitive, argument combination, root rank and backend",
 "Tests check few argument combinations and most in one backend only.",
 ["crypten/communicator/communicator.py","crypten/communicator/distributed_communicator.py","crypten/communicator/in_process_communicator.py"],
 [("backends","distributed_communicator.py, in_process_communicator.py")],
 "results of communication primitives")
prop("C24", "64-bit integer arithmetic on accelerators is exact",
 "Products, convolutions and pooling of 64-bit integers on GPU, computed through floating-point blocks, equal the two's-complement integer results for all operand values: block decomposition covers all bits, each block product is exact in floating point, and the recombination uses the right shifts.",
 ["inputs"], "for every pair of 64-bit operands, shapes and options",
 "GPU tests do not run here at all, and samples cannot cover 64-bit operands.",
 ["crypten/cuda/cuda_tensor.py"],
 [("block decomposition","CUDALongTensor.__encode_as_fp64, __patched_conv_ops, matmul, __decode_as_int64")],
 "integer results")
prop("C25", "Reshaping, indexing and joining encrypted tensors act exactly like on plaintext",
 "Structural operations (view, transpose, permute, index, gather, split, squeeze, roll, flip, pad, cat, stack, repeat and the like) apply the named operation with the caller's arguments to the shared data on every party and keep sharing type and scale. Both sharing types and the wrapping tensor type offer the same result.",
 ["inputs","programs"], "for every structural operation, argument combination, tensor type and number of results",
 "Tests cover each operation on one tensor type with few arguments.",
 ["crypten/common/functions/regular.py","crypten/mpc/mpc.py","crypten/mpc/primitives/arithmetic.py","crypten/mpc/primitives/binary.py","crypten/cryptensor.py"],
 [("forwarders","functions/regular.py")],
 "decrypted value, sharing type, scale")
prop("C26", "Encrypted random sampling has the stated distribution support",
 "Encrypted uniform, normal and Bernoulli sampling, dropout and coin flips produce values no single party knows, computed by the documented transformation of jointly random bits, and dropout scales kept values by the inverse keep probability and is the identity outside training.",
 ["inputs","configurations"], "for every probability, size and training mode",
 "Tests compare a few moments with loose tolerance.",
 ["crypten/common/functions/sampling.py","crypten/common/functions/dropout.py","crypten/mpc/mpc.py"],
 [("sampling","functions/sampling.py, mpc.py rand/bernoulli"),("dropout","functions/dropout.py")],
 "decrypted values")
prop("C27", "Launching parties passes results and failures through faithfully",
 "Running a function in several parties returns each party's result in rank order, or reports failure if any party fails; each party gets its own rank and the agreed world size, and no party outlives the call.",
 ["schedules","fault_sequences"], "for every number of parties, finishing order and failing party",
 "Tests run successful parties; failing and slow parties are not exercised.",
 ["crypten/mpc/context.py"],
 [("launcher","context.py: run_multiprocess")],
 "return value of the launcher")
prop("N01", "Fixed-point results are numerically close to the real-valued function",
 "Decrypted results of approximated functions and trained models stay within a small error of the floating-point results.",
 ["inputs"], "for every input in the documented domain",
 "Tests sample inputs.",
 ["crypten/common/functions/approximations.py"], [("approximations","approximations.py")])
prop("N02", "Shares are statistically indistinguishable from uniform",
 "No polynomial-time test distinguishes a party's share from a uniformly random ring element.",
 ["inputs"], "for every secret", "A computational assumption on the generator, not a code fact.",
 ["crypten/common/rng.py"], [("generator","rng.py")])
prop("N03", "A crash or slow link of one party never hangs the others forever",
 "If a party dies or its link fails, the remaining parties return with an error within bounded time.",
 ["fault_sequences","schedules"], "for every crash point and delay", "Needs a real network and the transport library.",
 ["crypten/communicator/distributed_communicator.py"], [("transport","DistributedCommunicator")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
