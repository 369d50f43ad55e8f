"""Writes properties.jsonl and MANIFEST.json from one table.

Run by hand after editing:  python3 tools/gen_manifest.py
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "haiku/_src/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note):
  assert len(title) <= 80, (pid, len(title))
  P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, note=note))


prop("P01", "Transformed functions are pure, re-entrant and isolated",
     "Calling init or apply of a transformed function depends only on the arguments given: repeating a call, jitting it, calling it from another thread, nesting it inside another transformed function, or calling it after an earlier call was aborted by an exception gives the same result as a fresh call. "
     "The inputs (parameters, state, keys) are never modified and nothing of one call (scopes, counters, parameters, keys, installed hooks) is visible in another. "
     "Haiku operations outside a transformed function are refused with an error.",
     ["programs", "histories", "schedules", "fault_sequences"],
     "every program over modules, parameters, state, keys and scopes; every history of init/apply calls, including calls that raise part way, interleavings between threads, and transformed functions called inside others",
     "The tests call a handful of functions once or twice in one thread; leaks show only in particular histories (an exception at one point followed by another call, two threads, re-entry).",
     [S + "transform.py", S + "base.py", S + "data_structures.py", S + "module.py"],
     [("a fresh frame per call, popped on any exit", S + "transform.py"), ("thread-local stacks with exception-safe context managers", S + "data_structures.py"), ("input mappings copied on entry and frozen on exit", S + "base.py")],
     "Generated histories, thread interleavings and nested transforms are compared exactly with an independent interpreter of the same programs.")

prop("P02", "init creates exactly the parameters apply uses, each from its initialiser",
     "init returns one entry per distinct (module, name) requested, with the requested shape and dtype, produced by one call of its initialiser at the first request; later requests in the same call return that same value. "
     "apply reads exactly the parameters it is given, never creates or changes one, and raises an error for a missing entry, for an entry whose shape differs from the request, or for a request without an initialiser where one is needed. "
     "hk.running_init is true exactly during init.",
     ["programs", "inputs"],
     "every program of parameter requests across modules, scopes and shared instances, with every shape and dtype, and every perturbation (missing, extra, reshaped entry) of the parameters given to apply",
     "The tests check fixed two- or three-parameter functions; the contract is over all programs and all perturbed parameter trees.",
     [S + "base.py", S + "transform.py"],
     [("get_parameter", S + "base.py"), ("init/apply frames", S + "transform.py")],
     "Generated programs and perturbed parameter trees against a dictionary model.")

prop("P03", "State is threaded through init and apply like a dictionary",
     "Within a call reading a state entry returns the last value written in that call, otherwise the value passed in, otherwise (once) the initialiser's value. "
     "apply returns the state passed in updated with exactly the writes made, with untouched entries unchanged; init returns the initial value of each entry, ignoring later writes made during init. "
     "Reading a missing entry without an initialiser, or with an initialiser that needs a shape and has none, is an error.",
     ["programs", "histories"],
     "every program of reads and writes over modules and scopes, over chains of apply calls",
     "The tests use counters of one or two entries; ordering of reads, writes and initialisers over several calls is not enumerated.",
     [S + "base.py", S + "transform.py"],
     [("get_state / set_state and the initial/current pair", S + "base.py"), ("collect_initial_state / collect_new_state", S + "base.py")],
     "Generated programs over several calls against a dictionary model.")

prop("P04", "Module names are deterministic, unique and follow the documented scheme",
     "A module's full name is its enclosing scope (with ~ for a constructor, ~method for a method other than __call__, and no marker for __call__) followed by its own name, which defaults to its class name in snake case and is numbered _1, _2, ... in creation order when taken. "
     "A parameter or state entry lives under the full name of the module whose method requests it (or ~ outside modules), so re-calling the same instance shares entries, separate instances constructed in one run of their scope never do, and repeating a call gives the same names. "
     "Invalid or clashing explicit names are refused with an error.",
     ["programs"],
     "every program creating modules in constructors, methods, nested methods, name scopes and at top level, with explicit, default and numbered names",
     "The tests check a few nestings; the names of a parameter tree are the checkpoint format, so every nesting has to keep its name.",
     [S + "module.py", S + "base.py", S + "utils.py"],
     [("unique_and_canonical_name and its counters", S + "module.py"), ("method scopes of the metaclass", S + "module.py"), ("camel_to_snake", S + "utils.py")],
     "Generated module programs against an independent naming model.")

prop("P05", "A module reports exactly its own and its submodules' parameters and state",
     "At any point the parameter and state dictionaries of a module contain the entries of that module, of everything in its scope, and of every module used while one of its methods was running, keyed by full module name and entry name and with current values. "
     "Entries of other modules, including ones whose names merely share a prefix, are never included.",
     ["programs", "histories"],
     "every program of nested, shared and similarly named modules, asked at any point during init and apply",
     "The tests look at one small tree of modules; prefix clashes and modules passed by reference are not covered.",
     [S + "module.py"],
     [("params_dict / state_dict and submodule registration", S + "module.py")],
     "Generated module programs against a model of ownership.")

prop("P06", "The key stream is a deterministic chain of splits with no key handed out twice",
     "Keys handed out during a call are exactly those of repeatedly splitting the key passed in, in order of request, whether taken singly, in bulk, after reservation, through a key sequence object, or under a temporarily substituted key, after which the outer stream resumes where it was. "
     "No key is handed out twice; the result does not depend on how keys are reserved ahead except as the documented split sizes say. "
     "Missing, malformed or out-of-context keys are refused with an error, the 'maybe' form returning none instead.",
     ["programs", "histories", "inputs"],
     "every sequence of key requests, reservations and nested substitutions, in any modules, with integer or array seeds; and every function whose key usage is optimised ahead of time",
     "The tests take a few keys; repeated or skipped keys appear only for particular mixtures of bulk requests, reservations and substitutions.",
     [S + "base.py", S + "random.py"],
     [("PRNGSequence, next_rng_key(s), reserve_rng_keys, with_rng", S + "base.py"), ("optimize_rng_use", S + "random.py")],
     "Generated request sequences and programs compared exactly with a chain of jax.random.split.")

prop("P07", "Creators, getters and interceptors nest, apply in order and are always undone",
     "Within its block a custom creator sees every new parameter (and, if asked, state) at creation, a custom getter sees every read (for state likewise), and an interceptor sees every module method call; those nested apply in order of installation, the outermost block first, each with a context naming the module, entry (or method), requested shape and dtype, and a next function giving the rest of the chain. "
     "What they return is what the program gets (a creator's value is what is stored; a getter's is not stored). "
     "Leaving the block, normally or by an exception, restores the previous set exactly.",
     ["programs", "histories", "fault_sequences"],
     "every nesting of the three kinds of hook with modules, parameters and state, with and without exceptions, in init and apply",
     "The tests nest two hooks in one function; order, contexts and restoration after errors hold over all nestings.",
     [S + "base.py", S + "module.py"],
     [("custom_creator / custom_getter stacks", S + "base.py"), ("intercept_methods", S + "module.py")],
     "Generated hook nestings, logs compared with a model.")

prop("P08", "Control flow inside Haiku equals the same Python control flow",
     "hk.cond, hk.switch, hk.scan, hk.fori_loop and hk.while_loop over functions that use parameters, state and keys give the outputs, final state and subsequent keys (with at most one key reserved ahead) of the equivalent Python branch or loop, in apply and under jit. "
     "During init a scan (even an empty one) or fori_loop creates the entries its body requests, so that they suffice for apply, and while_loop is refused. "
     "Uses that cannot be expressed (new entries in a body, a key or state change where none is allowed) are refused with an error.",
     ["programs", "inputs"],
     "every program of nested control flow over modules, parameters, state and keys, every predicate, index, bound and length (including zero), and every scan direction and carry structure",
     "The tests run each construct once with a trivial body; state, keys and nesting interact.",
     [S + "stateful.py", S + "base.py"],
     [("internal state capture and restoration", S + "stateful.py"), ("key reservation around traced bodies", S + "stateful.py")],
     "Generated programs: real run, jitted run and a Python-loop model.")

prop("P09", "JAX transforms inside Haiku keep values, state, keys and gradients",
     "Wrapping part of a function in hk.jit, hk.remat or a named call leaves outputs, parameters, final state and the following keys as without it, hk.grad and hk.value_and_grad return the mathematical derivative (and value and auxiliary output) with state and keys advanced as by one evaluation, and hk.eval_shape gives shapes and dtypes without advancing state or keys. "
     "hk.vmap maps the function over the given input axes, writing outputs on the given output axes, with parameters, state and keys shared by (not mapped over) the examples. "
     "A wrapped part that raises leaves parameters, state and keys as they were. Profiler name scopes change no result.",
     ["programs", "inputs", "configurations"],
     "every program nesting these wrappers with modules, parameters, state and keys, and every argument selection, axis choice and auxiliary structure",
     "The tests wrap one or two functions; the interplay of nested wrappers with state and keys is not enumerated.",
     [S + "stateful.py", S + "module.py"],
     [("state-capturing wrappers", S + "stateful.py")],
     "Generated programs against an unwrapped model; analytic gradients; explicit per-example loop.")

prop("P10", "Parameter containers behave as immutable mappings and as pytrees",
     "The mapping type holding parameters and state has the keys, values, length, equality and nesting of the dictionary it was made from, with keys, values and items in one consistent order and equal mappings hashing equally, can never be changed through any of its methods or through the objects it was made from or converted to, and survives copy, deep copy, pickling and conversion to and from mutable dictionaries unchanged. "
     "As a pytree, flattening and unflattening round-trip, mapping over it keeps its structure and type, and its leaves are those of the equivalent nested dictionary.",
     ["inputs", "histories"],
     "every nested mapping, with empty levels, list and tuple values, None leaves and arrays, and every sequence of operations on it",
     "The tests check small fixed mappings; aliasing and flattening depend on the shape of the nesting.",
     [S + "data_structures.py", "haiku/data_structures.py"],
     [("FlatMapping", S + "data_structures.py"), ("to_immutable_dict / to_mutable_dict", S + "data_structures.py")],
     "Generated nested mappings and operations against plain dictionaries.")

prop("P11", "Filtering, partitioning, mapping and merging structures lose nothing",
     "Filter and partition put every entry of a structure in exactly the part its predicate selects, with its value unchanged and without empty modules; merging gives the union of any number of structures, later ones winning on clashes, so that merging the parts of a partition gives back the whole. "
     "Predicates and mapped functions see every entry exactly once with its module, name and value, results are immutable and share nothing mutable with the input, and the size helpers return the exact number of elements and bytes of any tree of arrays. "
     "None of these changes its input.",
     ["inputs"],
     "every two-level structure of parameters, every predicate, every set of structures to merge",
     "The tests use a few structures and predicates.",
     [S + "filtering.py", S + "utils.py", "haiku/data_structures.py"],
     [("partition, filter, map, merge", S + "filtering.py"), ("tree_size, tree_bytes", S + "utils.py")],
     "Generated structures and predicates against dictionary comprehensions.")

prop("P12", "Lifting and the adaptors around transforms preserve meaning",
     "Lifting the init of one transformed function inside another places its parameters under the lift's name in the current scope and hands back, in init and apply, exactly the inner parameters, so that the inner apply gives the same result as on its own. "
     "The adaptors that drop or add state or the key argument, the conversion of functions to modules, and transform-and-run forward arguments, keys and results unchanged, give back the kind of pair documented (dropping the key keeps the kind), and refuse a function that uses what was dropped.",
     ["programs", "configurations"],
     "every pair of inner and outer programs, lift name, scope nesting and repeated lift, and every chain of adaptors",
     "The tests lift one linear layer in one scope and check single adaptors.",
     [S + "lift.py", S + "transform.py", S + "basic.py", S + "test_utils.py"],
     [("lift", S + "lift.py"), ("without_state, without_apply_rng, Transformed conversions", S + "transform.py"), ("to_module", S + "basic.py"), ("transform_and_run", S + "test_utils.py")],
     "Generated programs lifted and compared with the inner program run directly.")

prop("P13", "Dense and shape layers compute their documented function",
     "Linear, Bias, MLP (and its reverse), Sequential, Reshape, Flatten, batch application and expand application return the documented values for every valid input: y = xW + b over the last axis, the bias broadcast over exactly the chosen axes times a multiplier, layers in order with activations and dropout where documented, leading axes preserved. "
     "Parameters have the documented names, shapes and dtype and are left out when disabled; invalid arguments and inputs that do not fit earlier ones are refused.",
     ["inputs", "configurations"],
     "every rank, shape, dtype, axis choice, layer list, preserve-dims and flag combination within small bounds",
     "The tests fix a few shapes per option; options combine.",
     [S + "basic.py", S + "bias.py", S + "reshape.py", S + "nets/mlp.py"],
     [("Linear, Sequential, BatchApply, expand_apply", S + "basic.py"), ("Bias", S + "bias.py"), ("Reshape, Flatten", S + "reshape.py"), ("MLP", S + "nets/mlp.py")],
     "Generated configurations against float64 numpy references.")

prop("P14", "Embedding, one-hot, dropout and categorical sampling are correct",
     "An embedding lookup returns the rows of its table for any integer ids in range, identically for both lookup styles and with the table given, created or shaped as configured; one-hot encoding has a one exactly at each id. "
     "Dropout keeps each element independently with probability 1 - rate, scales the kept ones by 1/(1 - rate), zeroes the others, and is the identity at rate 0, deterministically for a key; multinomial sampling returns in-range category ids of the documented shape, distributed according to the logits and never of zero probability. "
     "Invalid arguments are refused.",
     ["inputs", "configurations"],
     "every id array, table, lookup style, rate, shape, dtype, key, logits array and sample count within small bounds",
     "The tests check a few shapes and one distribution.",
     [S + "embed.py", S + "basic.py"],
     [("Embed", S + "embed.py"), ("dropout, multinomial, one_hot", S + "basic.py")],
     "Generated cases against direct references and statistical bounds with fixed keys.")

prop("P15", "Convolutions compute the documented sum for every configuration",
     "1-, 2-, 3- and N-dimensional, depthwise and separable convolutions equal the direct sum over the window for every kernel shape, stride, dilation, padding (named, per-dimension pairs, functions), grouping, channel layout, mask, bias and dtype, with weights of the documented names and shapes. "
     "The padding helper functions give the documented amounts. "
     "Unbatched inputs give the same result as a batch of one, and invalid configurations are refused.",
     ["inputs", "configurations"],
     "every combination of the configuration options above and input shapes within small bounds",
     "The tests cover options one at a time with all-ones kernels, which hide transposed or flipped axes.",
     [S + "conv.py", S + "depthwise_conv.py", S + "pad.py"],
     [("ConvND", S + "conv.py"), ("DepthwiseConv2D, SeparableDepthwiseConv2D", S + "depthwise_conv.py"), ("padding functions", S + "pad.py")],
     "Generated configurations against a direct float64 sum.")

prop("P16", "Transposed convolutions compute the documented scatter sum",
     "1-, 2-, 3- and N-dimensional transposed convolutions equal the direct scatter of each input element times the kernel, cropped or padded according to the padding mode or the requested output shape, for every kernel shape, stride, channel layout, mask and bias, with the documented output shape. "
     "Unbatched inputs give the same result as a batch of one, and invalid configurations are refused.",
     ["inputs", "configurations"],
     "every combination of kernel, stride, padding, output shape, layout and flags within small bounds",
     "The tests use a few configurations with constant kernels.",
     [S + "conv.py"],
     [("ConvNDTranspose and its padding computation", S + "conv.py")],
     "Generated configurations against a direct float64 scatter.")

prop("P17", "Pooling takes the maximum or mean of exactly the right windows",
     "Max and average pooling, as functions and modules, return for each output position the maximum or the mean over the input elements (padding excluded) of its window, for every window, stride, padding mode, channel axis and leading batch dimensions. "
     "Unsupported paddings, channel axes and window lengths are refused.",
     ["inputs", "configurations"],
     "every shape up to rank 5, window, stride, padding and channel axis within small bounds",
     "The tests pool constant or tiny inputs with a few windows.",
     [S + "pool.py"],
     [("max_pool, avg_pool and window inference", S + "pool.py")],
     "Generated configurations against a window-by-window reference.")

prop("P18", "Normalisation layers compute their documented statistics",
     "Batch, layer, instance and group normalisation equal (x - mean) / sqrt(var + eps) * scale + offset with statistics over exactly the documented axes for every layout, axis choice (negative ones included), group count, dtype and externally supplied or learned scale and offset; batch normalisation uses batch statistics in training or when told to, otherwise its zero-debiased moving averages, which are updated only in training. "
     "Across replicas (named axes or index groups) batch statistics are those of the union of the batches in the group. "
     "Parameters have the documented names and shapes, and invalid configurations are refused.",
     ["inputs", "configurations", "histories"],
     "every layout, rank, axis, group and flag combination, every sequence of training and evaluation calls, and replica groupings on four devices",
     "The tests check a few layouts with tiny inputs; axis arithmetic and moving averages combine.",
     [S + "batch_norm.py", S + "layer_norm.py", S + "group_norm.py", S + "utils.py", S + "moving_averages.py"],
     [("BatchNorm", S + "batch_norm.py"), ("LayerNorm, InstanceNorm", S + "layer_norm.py"), ("GroupNorm", S + "group_norm.py")],
     "Generated configurations and call histories against float64 numpy references.")

prop("P19", "Moving averages and spectral normalisation follow their recurrences",
     "An exponential moving average returns, after every sequence of values, the weighted average of its decay with zero-debiasing and warm-up as configured, without changing its state when asked not to; spectral normalisation divides a matrix view of its input by its power-iteration estimate of the largest singular value, with stored vectors updated only on request. "
     "Applied to a parameter tree, each selected entry is averaged or normalised separately and put back under its own name, and ignored ones are returned unchanged.",
     ["histories", "inputs", "configurations"],
     "every sequence of values and update flags, every decay and option, every matrix shape and step count, and every parameter tree with an ignore pattern",
     "The tests run a few steps with one decay.",
     [S + "moving_averages.py", S + "spectral_norm.py"],
     [("ExponentialMovingAverage, EMAParamsTree", S + "moving_averages.py"), ("SpectralNorm, SNParamsTree", S + "spectral_norm.py")],
     "Generated histories against float64 recurrences.")

prop("P20", "Recurrent cores compute their equations, batched or not",
     "One step of the vanilla, LSTM, GRU, convolutional-LSTM, identity, reset, stacked and skip-connected stacked cores equals its documented equations from any state, and its initial state has the documented structure, shapes and values with and without a batch size. "
     "A batch is treated as independent examples, and invalid ranks or layer lists are refused.",
     ["inputs", "configurations"],
     "every core and stack of cores, size, input, state and batch size within small bounds",
     "The tests check shapes and one or two numeric cases; gate order and state wiring of stacks are free to change.",
     [S + "recurrent.py"],
     [("the core classes", S + "recurrent.py")],
     "Generated cores, inputs and states against float64 references.")

prop("P21", "Unrolling equals stepping, and resets restart exactly the chosen examples",
     "Static and dynamic unrolls of any core over any sequence return the outputs (time- or batch-major) and final state of stepping the core by hand, with the same parameters, state entries and key stream. "
     "A reset core behaves as if the chosen batch elements at the chosen steps were restarted from the initial state, for any nesting of states, and leaves the others untouched.",
     ["inputs", "histories", "configurations"],
     "every core, sequence length, reset pattern, major order and unroll kind within small bounds, with nested state and state broadcast shapes",
     "The tests unroll a core over short fixed sequences.",
     [S + "recurrent.py", S + "stateful.py"],
     [("static_unroll, dynamic_unroll, ResetCore", S + "recurrent.py")],
     "Generated sequences against stepping a float64 reference.")

prop("P22", "Multi-head attention computes softmax-weighted values per head",
     "Multi-head attention returns, for any batch size, sequence lengths, head count, key, value and output sizes, the output projection of the concatenated heads, each the softmax over keys of scaled query-key products (masked positions excluded) applied to the projected values. "
     "Its parameters have the documented names and shapes; masked keys and values have no influence; queries are independent of one another and batch elements do not mix.",
     ["inputs", "configurations"],
     "every shape, head count, size, dtype and mask that leaves each query at least one key",
     "The tests check output shapes only.",
     [S + "attention.py"],
     [("MultiHeadAttention", S + "attention.py")],
     "Generated configurations against a float64 reference, and metamorphic masking checks.")

prop("P23", "Vector quantisers pick the nearest code and update codes as documented",
     "Both vector quantisers replace each input vector by its nearest codebook entry and return matching indices, encodings, perplexity and loss, with a straight-through gradient to the input and, for the learned one, the documented gradient to the codes. "
     "The moving-average quantiser updates its cluster sizes, averages and codes by the documented recurrence in training only, over all replicas when an axis is named.",
     ["inputs", "histories", "configurations"],
     "every input shape, codebook, cost, decay and sequence of training and evaluation calls within small bounds",
     "The tests check a few inputs and one training step.",
     [S + "nets/vqvae.py"],
     [("VectorQuantizer, VectorQuantizerEMA", S + "nets/vqvae.py")],
     "Generated codebooks, inputs and histories against float64 references.")

prop("P24", "ResNet and MobileNet compute their documented architectures",
     "Every ResNet (both versions, with or without bottlenecks, any block counts, channels, strides and projection flags) and MobileNet computes exactly the layer graph of its architecture: which convolutions, normalisations, shortcuts and strides in which order, with the documented parameter and state names and shapes, in training and evaluation. "
     "The named variants are those graphs with their published depths, and wrong-length configurations are refused.",
     ["inputs", "configurations"],
     "every configuration of the constructors within small channel and block counts, both modes, random parameters and inputs",
     "The tests check that a network runs and its output shape.",
     [S + "nets/resnet.py", S + "nets/mobilenetv1.py"],
     [("ResNet and its blocks", S + "nets/resnet.py"), ("MobileNetV1", S + "nets/mobilenetv1.py")],
     "Generated configurations against an independent float64 implementation.")

prop("P25", "Initialisers draw from their documented distributions",
     "Each initialiser returns an array of the requested shape and dtype from its documented law: constants and identities exactly, uniform, normal and truncated normal with the given parameters and bounds, variance scaling with the documented fan and distribution for every shape, orthogonal with orthonormal rows or columns. "
     "The result is a deterministic function of the key, different entries and calls draw independently, and layers created without an explicit initialiser start from their documented default law.",
     ["inputs", "configurations"],
     "every initialiser, parameter setting, shape and dtype within small bounds, every key, and every layer with default initialisation",
     "The tests check a few shapes and that bounds hold once.",
     [S + "initializers.py", S + "basic.py", S + "conv.py", S + "embed.py", S + "recurrent.py"],
     [("the initialiser classes", S + "initializers.py"), ("default initialisers in the layers", S + "basic.py")],
     "Generated settings against exact values or statistical bounds chosen to fail with negligible probability on correct code.")

prop("P26", "Summaries, graphs and reprs describe exactly what ran",
     "Summarising a function lists its module method calls in order of invocation with the right module, method, argument and output specs, own and submodule parameters and state, and innermost-first call stack, and the table form shows exactly the rows and columns asked for with correct counts, sizes and formatting. "
     "The graph form contains exactly the operations executed, each in the cluster of its module method, with the right inputs, outputs, argument uses and captured constants, the same for concrete and abstract inputs, and leaves settings unchanged even after an error. With profiler scopes on, each operation is labelled with the module calls and named calls it runs in. "
     "The printed form of a module reads back as a constructor call with the same arguments, showing only non-default ones.",
     ["programs", "configurations"],
     "every tree of modules with nested and repeated calls, every column and filter choice, every program of operations inside modules, every constructor signature and call",
     "The tests check single modules and single operations.",
     [S + "summarise.py", S + "dot.py", S + "utils.py", S + "module.py"],
     [("eval_summary, tabulate", S + "summarise.py"), ("to_dot, abstract_to_dot", S + "dot.py"), ("auto_repr", S + "utils.py")],
     "Generated module trees, operation programs and signatures against models computed from the specification.")

prop("P27", "Layers behave the same under transforms, dtypes, input kinds and wrapping",
     "For every built-in layer, configuration and chain of layers, init and apply give the same parameters, outputs and state when jitted, abstractly evaluated, run through hk.jit, hk.remat, hk.scan, hk.fori_loop, hk.cond, hk.vmap or jax.vmap, placed in an outer module or name scope (names prefixed, values unchanged), run under identity hooks or profiler scopes, repeated, or given numpy arrays or plain or immutable structures. "
     "Parameters from init do not depend on the input's values; floating outputs, requested parameters and state have the dtype of the input; gradients are the true derivatives; layers without randomness ignore the key; permuting a batch permutes the outputs, and layers without batch statistics treat examples independently.",
     ["programs", "configurations", "inputs"],
     "every chain of built-in layers with every configuration, input shape and dtype, under every transform",
     "The integration tests use one configuration per layer (and those comparing values do not run with the installed JAX).",
     [S + "basic.py", S + "conv.py", S + "recurrent.py", S + "batch_norm.py", S + "stateful.py", S + "integration/descriptors.py"],
     [("layers", S + "basic.py"), ("hk.jit, hk.remat, hk.scan, hk.vmap", S + "stateful.py")],
     "Generated chains of layers run in two ways (metamorphic relations) in float64.")


prop("P28", "The example models, losses and training helpers do what they describe",
     "In examples/: the language model lets a position see itself and earlier tokens of its own sequence only, never padding, and averages the loss over real tokens; a stopped training run resumes from its latest complete checkpoint, whatever the point at which it was stopped, and continues as if uninterrupted. "
     "The autoencoder, classifier, recurrent and agent networks compute their equations; an agent stepped one environment at a time gives the outputs and states of a batched unroll, with its core reset at the start of an episode. "
     "The losses, the learning-rate and sparsity schedules, the dataset shards and the pruning partitions are the documented ones.",
     ["programs", "histories", "crash_points", "inputs"],
     "every model size, token and observation sequence, and every history of steps, restarts and crashes while a checkpoint is written",
     "The examples have three tests, none of which can be imported with the installed packages.",
     ["examples/transformer/train.py", "examples/transformer/model.py", "examples/vae.py", "examples/impala/haiku_nets.py", "examples/impala/agent.py", "examples/rnn/train.py", "examples/imagenet/train.py", "examples/imagenet/dataset.py", "examples/mnist_pruning.py"],
     [("causal and padding masks", "examples/transformer/model.py"), ("CheckpointingUpdater", "examples/transformer/train.py"), ("reset core unrolled over trajectories", "examples/impala/haiku_nets.py")],
     "Generated inputs and crash histories against float64 references and a model of the checkpoint directory; absent packages are replaced by stand-ins.")


def main():
  with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
      f.write(json.dumps({
          "id": p["pid"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]},
          "why_tests_cant": p["why"],
          "anchors": {"files": p["files"],
                      "mechanism": [{"name": n, "where": w}
                                    for n, w in p["mech"]],
                      "hook_needed": None}}) + "\n")
  checks = [{
      "property": p["pid"],
      "quick_cmd": f"bash /verif/check.sh {p['pid']} quick",
      "thorough_cmd": f"bash /verif/check.sh {p['pid']} thorough",
      "evidence_file": f"evidence/{p['pid']}.json",
      "technique": "property-based testing: generated cases against an explicit oracle, shrunk to a replay file",
      "level": "exploration",
      "level_note": p["note"] + " Holds on every case generated (bounded sizes, seeded from VERIF_SEED); trusts jax, numpy and the reference in /verif/harness.",
  } for p in P]
  with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh",
               "hooks": {"guard": "none", "enable": "no hooks are needed",
                         "source_commits": []},
               "checks": checks, "not_applicable": [],
               "notes": "See DESIGN.md. Generated by tools/gen_manifest.py."},
              f, indent=1)
    f.write("\n")


main()
