import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
  P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
    why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
    observe_at=observe or ["public API"],hook_needed=None)))
S="haiku/_src/"
prop("C01","init collects exactly the parameters and state the function asks for",
 "Running init returns one entry for each distinct (owning module path, name) that the function requested through get_parameter, get_state or set_state, each holding the value its initializer (run exactly once, with the requested shape and dtype) or its first set_state produced, and nothing else. Requests repeated under the same path and name return that same entry, and a later set_state never changes the initial state that init reports. An initializer may itself draw random keys, create parameters or fail, and a request whose initializer fails leaves no entry behind.",
 ["programs","inputs","fault_sequences"],"every program over modules, parameters, state and randomness; every failure position",
 "Tests fix a handful of functions; which entries exist depends on the whole call history (nesting, repetition, exceptions, JAX wrappers).",
 [S+"base.py",S+"transform.py",S+"module.py"],[("get_parameter/get_state/set_state",S+"base.py"),("new_context, collect_params, collect_initial_state",S+"base.py")])
prop("C02","apply injects the given parameters unchanged and never creates any",
 "apply evaluates the function with exactly the parameter values it is given: each request returns the injected value for its module path and name, whatever the initializer says, initializers and creators are not run for parameters, and extra entries are ignored. A request for a parameter that was not supplied raises a ValueError, a supplied value whose shape differs from the requested one raises, and the mappings passed in are never modified. The output is a function of (params, state, rng, args) only.",
 ["programs","inputs","histories"],"every program, every supplied params mapping (missing, extra, replaced, reshaped entries; dict or immutable mapping)",
 "Tests apply params straight from init; substituted, partial, extended or reshaped mappings on arbitrary programs are not explored.",
 [S+"base.py",S+"transform.py"],[("params_frozen, get_parameter",S+"base.py"),("apply_fn, check_mapping",S+"transform.py")])
prop("C03","State is threaded: apply sees the last write and returns the final values",
 "Within a call get_state returns the most recent set_state for that module path and name (or the supplied value, or the initializer's if there is none); apply returns the final value of every state entry that was supplied or touched, while init returns the first value each entry ever had. The state passed in is never modified, so chaining apply calls equals folding the function over the history. Functions that use state are rejected by the stateless transform.",
 ["programs","histories","inputs"],"every program and every chain of init/apply calls",
 "Tests check single counters; interleavings of get/set across modules, branches, failures and chains of calls are unbounded.",
 [S+"base.py",S+"transform.py"],[("StatePair, get_state, set_state, extract_state",S+"base.py"),("without_state",S+"transform.py")])
prop("C04","Calls are isolated: no effect leaks from one call into another",
 "Whatever happened before - completed calls, calls that raised at any point, nested or partially entered contexts, other transformed functions - an init or apply call with given arguments produces the same result as in a fresh process. A transform run inside another one neither sees nor changes the outer call's parameters, state, random keys or module naming. When user code raises and the exception is caught inside the function, scopes, creators, getters, interceptors and random streams active at the catch point are exactly those active when the guarded block was entered.",
 ["histories","fault_sequences","programs"],"every history of calls, every exception point, every nesting of transforms",
 "Tests run calls that succeed, one per process state; leaks show up only after particular failures and nestings.",
 [S+"base.py",S+"data_structures.py",S+"module.py",S+"transform.py"],[("HaikuContext enter/exit, Stack.__call__",S+"base.py"),("NameScope, wrap_method",S+"module.py")])
prop("C05","Concurrent calls in different threads do not interact",
 "Any number of threads may run init and apply at the same time: each call returns exactly what it would return alone, under every interleaving of the threads' steps. Contexts a thread has entered (transforms, name scopes, custom creators and getters, interceptors, random streams, key counting) are invisible to all other threads.",
 ["schedules"],"every interleaving of the library calls of two or three threads",
 "Tests are single threaded or sample one schedule.",
 [S+"base.py",S+"data_structures.py",S+"module.py",S+"random.py"],[("ThreadLocalStack",S+"data_structures.py"),("count_hk_rngs_requested",S+"random.py")])
prop("C06","Module names are canonical, unique in scope and deterministic",
 "A module's name is its parent's path, then the enclosing method ('~/' inside a constructor, '~method/' inside a method other than __call__), then its own name, with the first unused suffix _1, _2, ... when that name was already taken in the same method invocation and explicit numeric suffixes kept and skipped over; an explicit name already taken there, or an invalid identifier, raises a ValueError. Name scopes act like a __call__ of a module of that name and transparent methods add nothing. The names depend only on the sequence of constructions, so init and apply always agree.",
 ["programs"],"every sequence of module constructions, method calls, scopes and failures",
 "Tests enumerate small nestings; numbering interacts with explicit suffixes, scopes, re-entry and failures.",
 [S+"module.py",S+"base.py",S+"utils.py"],[("unique_and_canonical_name",S+"module.py"),("counter_stack/used_names_stack",S+"base.py")])
prop("C07","Parameters and state belong to the running module and are shared by it",
 "A parameter or state entry belongs to the innermost module whose method (or name scope) is running, or to the top-level bundle when there is none; every call through the same module instance, and every equally named submodule re-created in a later call, sees the same entry, and different paths never share. A module's params and state dictionaries list exactly the entries under its own path plus those of modules whose methods ran while one of its methods was running, with current values.",
 ["programs"],"every program mixing shared instances, re-created submodules, inner and outer modules",
 "Ownership is a property of the dynamic call stack; tests cover a few static shapes.",
 [S+"base.py",S+"module.py"],[("current_bundle_name",S+"base.py"),("params_or_state_dict, wrap_method",S+"module.py")])
prop("C08","The random key stream is deterministic, duplicate free and well scoped",
 "Given a seed or key, the keys handed out in a call are a deterministic function of the sequence of requests; they are the successive splits of the current key in order (a reservation of n keys splits once into n+1, keeps the first for later and hands the rest out first in, first out), and no key is ever handed out twice or reused for further splitting. A nested random scope draws only from its own key and leaves the enclosing stream where it was. Without a key, asking for one raises a ValueError and the optional request returns None.",
 ["programs","histories"],"every sequence of single, multiple, optional, reserved and scoped requests",
 "Tests check a few fixed request sequences; uniqueness is over all sequences.",
 [S+"base.py"],[("PRNGSequence, with_rng",S+"base.py")])
prop("C09","Custom creators and getters run in order, in scope, with the right context",
 "While a custom creator is active it runs exactly for newly created parameters (and/or state, as configured), outermost first, each deciding whether and with what shape, dtype and initializer to continue, and its result is what gets stored; existing entries never trigger it. Custom getters run on every read of a parameter (and/or state), outermost first, transform only the value returned to the reader and never what is stored. Both receive the full name, owning module, original shape and dtype of the request, and neither has any effect before its context is entered or after it is left, normally or by an exception.",
 ["programs","fault_sequences"],"every nesting of creators and getters of every kind over every program",
 "Order, scoping and short-circuiting combine multiplicatively; tests use one or two hooks.",
 [S+"base.py"],[("run_creators, run_getters, custom_creator, custom_getter",S+"base.py")])
prop("C10","Method interceptors wrap every module method call, in order and in scope",
 "While interceptors are active every module method, constructor and property call made in the scope runs them outermost first, each receiving the arguments passed on by the previous one and the module, method name and original method, and each free to change arguments, change the result, skip the call or jump straight to the original method. Interceptors see calls made by intercepted methods too, never affect naming or ownership, and stop applying when the context is left, normally or by an exception.",
 ["programs","fault_sequences"],"every nesting of interceptors over every call tree",
 "Same combinatorics as creators; tests use one or two interceptors on flat programs.",
 [S+"module.py"],[("run_interceptors, wrap_method",S+"module.py")])
prop("C11","JAX function wrappers preserve parameters, state, randomness and naming",
 "Wrapping part of a function in the library's jit, remat, named_call, grad, value_and_grad or vmap gives the same outputs, parameters, state and random keys as running that part directly at the same place (gradients being those of the part with respect to the chosen arguments, and vmap mapping arguments but sharing parameters, state and keys); shape evaluation returns the same shapes and leaves no effect at all. If the part raises, none of its effects remain. Modules created in the part are named from the names already taken when it was entered.",
 ["programs","fault_sequences"],"every program part, every wrapper and nesting of wrappers, init and apply",
 "Tests compare a couple of modules; effects crossing the boundary depend on the whole body and on the state before it.",
 [S+"stateful.py"],[("thread_hk_state_in_kwargs, difference, update_internal_state, temporary_internal_state, value_and_grad, vmap, eval_shape",S+"stateful.py")])
prop("C12","Control flow behaves like the equivalent Python loop or branch",
 "The library's cond, switch, scan (forward, reversed), fori_loop and while_loop compute the same outputs, state and subsequent randomness as the plain Python if, indexed choice or loop would: only the selected branch has effects, every iteration sees the state and fresh random keys left by the previous one, loop conditions read current state, and the final carry, stacked outputs and state come out in order. This holds at init as well as apply for loops that run at least once and branches that create the same structure, and a while_loop condition that changes state or draws keys is rejected.",
 ["programs","inputs"],"every body, trip count, branch index and nesting, at init and apply",
 "Tests use fixed bodies and few trip counts; state/rng threading bugs need particular combinations of reserved keys, nesting and init unrolling.",
 [S+"stateful.py"],[("cond, switch, scan, fori_loop, while_loop, reserve_up_to_full_rng_block",S+"stateful.py"),("assert_state_unchanged",S+"base.py")])
prop("C13","Parameter mappings are immutable values that round trip",
 "The mapping init and apply return behaves as the plain nested dictionary it was built from: same keys, equality, length and membership, equal mappings made by the library hash equally when their leaves are hashable, and attribute access equals item access. It cannot be changed through its own interface, by changing the dictionary it was built from, or by changing a dictionary obtained from it; conversion to a mutable dictionary and back, pickling, copying the tree and flattening then unflattening all give an equal mapping, also when leaves are replaced by other trees.",
 ["inputs","histories"],"every nested dictionary and every sequence of conversions and mutations",
 "Aliasing bugs need particular conversion/mutation sequences; tests try a few.",
 [S+"data_structures.py"],[("FlatMapping, to_immutable_dict, to_mutable_dict",S+"data_structures.py")])
prop("C14","filter, partition, map and merge obey their algebra",
 "On every two-level structure: filter keeps exactly the entries satisfying the predicate, partition splits into that and its complement, map replaces each value by the function of (module, name, value), merge of structures has every path with the value of the last structure containing it, and merging the halves of a partition gives back the entries of the original. Inputs are never modified, outputs share no mutable container with them, and size and byte counts are the sums over all leaves.",
 ["inputs"],"every pair of structures and every predicate",
 "Laws quantify over all structures and predicates; tests check fixed ones.",
 [S+"filtering.py",S+"utils.py"],[("partition, filter, map, merge",S+"filtering.py"),("tree_size, tree_bytes",S+"utils.py")])
prop("C15","Lifted transforms round trip their parameters through the outer transform",
 "Lifting an inner init inside an outer transform returns, at init, exactly the inner parameters and stores each of them in the outer parameters under the lifting module's path; at apply it returns exactly the entries stored under that path with the prefix removed, whatever else the outer parameters contain. Several lifted functions, equal or prefix-related names, nested lifting and parameters edited between init and apply never mix.",
 ["programs","inputs"],"every arrangement of lifted functions and every edited outer params",
 "Prefix handling fails only for particular name combinations.",
 [S+"lift.py"],[("LiftingModule, pack_into_dict, unpack_from_dict",S+"lift.py")])
prop("C16","Exponential moving averages follow their recurrence over any update history",
 "After any sequence of updating and non-updating calls, from any point of warm-up, the moving average's output and state are those of the defining recurrence (decayed sum from zero, divided by one minus decay to the number of updates when debiasing; during warm-up the average is the latest value), non-updating calls return the value an update would give and change nothing, and the stored average is that of the last update. The tree version applies this independently to every parameter not matching the ignore pattern and passes the others through, preserving structure.",
 ["histories","configurations","inputs"],"every history of updates, decay, warm-up length and parameter tree",
 "Tests run one short history per configuration.",
 [S+"moving_averages.py"],[("ExponentialMovingAverage, EMAParamsTree",S+"moving_averages.py")])
prop("C17","Batch normalization uses and updates statistics exactly as the mode says",
 "In training the inputs are normalized with the batch's own mean and variance over the reduced axes and both moving averages advance once; in evaluation the stored averages are used, or the batch's own with local statistics, and nothing is updated. Scale and offset are the module's parameters or the arguments, applied after normalization per channel in either data format, for every history of training and evaluation calls.",
 ["histories","configurations","inputs"],"every mode history, axis choice, data format and scale/offset source",
 "Mode histories times configurations; tests check one step in a few.",
 [S+"batch_norm.py",S+"moving_averages.py"],[("BatchNorm",S+"batch_norm.py")])
prop("C18","Unrolls, state resets and stacked cores equal step by step evaluation",
 "Static and dynamic unrolling of any core over any sequence, time or batch major, inside or outside a transform, at init and apply, give the outputs and final state of calling the core step by step. A reset core uses the initial state for exactly the batch elements (and state parts) flagged at that step and the previous state for the rest; a stacked core feeds layers in order, concatenates outputs and re-feeds inputs when skipping, and keeps one state per recurrent layer in order.",
 ["inputs","histories","configurations"],"every core, sequence length, layout, reset pattern and layer stack",
 "Tests use one core and one pattern each.",
 [S+"recurrent.py",S+"stateful.py"],[("static_unroll, dynamic_unroll, ResetCore, _DeepRNN",S+"recurrent.py")])
prop("C19","Gated recurrent cores implement their gates",
 "The vanilla, LSTM, convolutional LSTM and GRU cores compute their documented recurrences: input, forget, cell, output, update and reset gates act on the documented quantities, use the documented slices of the weights, the forget gate has bias one, and output equals the new hidden state. This holds for every gate combination, step count and for batched and unbatched input.",
 ["inputs","histories"],"every combination of open and closed gates over every sequence",
 "Tests compare shapes or one reference; gate mix-ups that keep shapes need targeted inputs.",
 [S+"recurrent.py"],[("LSTM, ConvNDLSTM, GRU, VanillaRNN",S+"recurrent.py")])
prop("C20","Batch apply, expand apply, reshape and flatten move elements exactly",
 "For every input shape and argument structure, applying a function over merged leading dimensions equals applying it to each merged row and splitting back, low-rank arguments pass through unmodified; expanding adds and removes exactly one unit axis; reshape and flatten keep the chosen leading dimensions, infer one wildcard dimension and keep row-major element order.",
 ["inputs","configurations"],"every small shape, number of dims, wildcard position",
 "Tests sample shapes.",
 [S+"basic.py",S+"reshape.py"],[("BatchApply, expand_apply",S+"basic.py"),("Reshape, Flatten",S+"reshape.py")])
prop("C21","Convolutions and pooling compute their defining sums at every output position",
 "For every kernel size, stride, dilation, padding (named, explicit or function), data format, group count, mask and batched or unbatched input, convolution output positions are the defining sums over the padded input plus bias, transposed convolution is its adjoint placed at the requested output shape, depthwise convolution treats channels separately, and max and average pooling reduce exactly the real elements of each window. Padding functions return the documented amounts: causal output never depends on later input.",
 ["inputs","configurations"],"every small spatial size and configuration",
 "The configuration space is a product of eight dimensions; tests sample it sparsely.",
 [S+"conv.py",S+"depthwise_conv.py",S+"pad.py",S+"pool.py"],[("ConvND, ConvNDTranspose, compute_adjusted_padding",S+"conv.py"),("max_pool, avg_pool, _infer_shape",S+"pool.py"),("create and the padding functions",S+"pad.py")])
prop("C22","Summaries report every module call with its real parameters and shapes",
 "A summary of a transformed function lists exactly the module method calls that running it makes, in order, each with its module's full name, method, the parameters and state that module owns and the shapes of its inputs and outputs (calls that raise have no row), without computing anything or leaving any effect on later calls. The rendered table shows the same rows.",
 ["programs"],"every program",
 "Tests summarise a few fixed networks.",
 [S+"summarise.py"],[("eval_summary, tabulate",S+"summarise.py")])
prop("C23","Optimizing random key use changes only which keys are drawn",
 "Wrapping any function with the key-use optimization preserves everything but the random values: same outputs structure, same parameters and state entries, names and non-random values, the same number of keys, all distinct. It may be used anywhere in a transformed function - after other parameters, state or keys exist, inside modules, nested, at init and apply - and leaves no effect of its trial run.",
 ["programs"],"every function and every position of the wrapper",
 "Tests wrap whole functions only.",
 [S+"random.py"],[("optimize_rng_use, count_hk_rngs_requested",S+"random.py")])
prop("C24","Basic layers compute their definition for every shape and option",
 "Linear, bias, embedding, sequential and MLP layers (including reversal and activation placement) compute their defining formula from exactly the parameters they create, for every input rank and option, and both embedding lookups agree. Multi-head attention mixes, per head, the projected values with weights from projected queries and keys; masked positions never influence the output.",
 ["inputs","configurations"],"every small shape, option combination and mask",
 "Tests sample shapes and options.",
 [S+"basic.py",S+"bias.py",S+"embed.py",S+"attention.py",S+"nets/mlp.py"],[("Linear, Sequential",S+"basic.py"),("Bias",S+"bias.py"),("Embed",S+"embed.py"),("MultiHeadAttention",S+"attention.py"),("MLP",S+"nets/mlp.py")])
prop("C25","Layer, instance and group norms normalize over exactly the documented axes",
 "For every input rank, data format, axis choice and group count the statistics used for each element are those of exactly the documented set of elements (the given axes, the spatial axes, or the element's channel group and the given axes), and scale and offset - the module's own or the caller's - are applied afterwards per channel. Results do not depend on other examples in the batch unless the batch axis is listed.",
 ["inputs","configurations"],"every small shape, axis set, group count and data format",
 "Tests sample a few shapes, often with constant inputs.",
 [S+"layer_norm.py",S+"group_norm.py"],[("LayerNorm, InstanceNorm",S+"layer_norm.py"),("GroupNorm",S+"group_norm.py")])
prop("C26","Training-time statistics change only when updating is requested",
 "Spectral normalization and the exponential moving average vector quantizer advance their stored statistics exactly in updating (training) calls, once per call, by the documented rule; non-updating calls return the corresponding result and leave every stored value unchanged, over any mixture of calls. Quantization always returns the nearest codebook entry and the straight-through estimate.",
 ["histories","inputs"],"every history of updating and non-updating calls",
 "Tests check one call of each kind.",
 [S+"spectral_norm.py",S+"nets/vqvae.py"],[("SpectralNorm, SNParamsTree",S+"spectral_norm.py"),("VectorQuantizer, VectorQuantizerEMA",S+"nets/vqvae.py")])
prop("C27","Initializers and dropout draw from the distributions they document",
 "For every shape, type and option an initializer returns an array of that shape and type that is constant, an identity, orthonormal along the smaller side of the chosen axis, or independent draws from the documented distribution with the documented mean, variance and bounds; variance scaling divides by the number of input units, output units or their average. It draws one key per call when it is random, none otherwise, and is a function of that key. Layers not told otherwise use weights scaled by the number of inputs summed for one output, zero biases and offsets and unit scales. Dropout zeroes each element independently at the given rate, scales the others so that the mean is kept, and rejects rates outside [0, 1).",
 ["inputs","configurations"],"every shape, type, option and key",
 "Tests check shapes, a few moments and one example per initializer; fans depend on rank, mode and options of the layer.",
 [S+"initializers.py",S+"basic.py",S+"conv.py",S+"depthwise_conv.py",S+"recurrent.py",S+"attention.py"],[("VarianceScaling, Orthogonal, UniformScaling, _compute_fans",S+"initializers.py"),("dropout",S+"basic.py"),("fan_in_shape",S+"conv.py")])
prop("C28","Shipped networks compute their documented layer graphs",
 "Every shipped ResNet (18 to 200 layers, v1 and v2) and MobileNetV1 has exactly its architecture's layers, parameter names, shapes and published parameter count and output shape. For every choice of blocks, channels, strides, projection, bottleneck, version, normalization and logits configuration the networks, their block groups and blocks compute their documented graph - order of convolution, normalization and activation, place of the stride, source and normalization of the shortcut, padding, zero-started last scale of v1 bottlenecks and zero-started ResNet logits - and pass the training and local-statistics flags to every normalization, over every history of training and evaluation calls.",
 ["inputs","configurations","histories"],"every configuration, input and history of modes",
 "Tests check output shapes and a few names; a misplaced stride, activation, flag or shortcut keeps all shapes.",
 [S+"nets/resnet.py",S+"nets/mobilenetv1.py"],[("ResNet, BlockGroup, BlockV1, BlockV2",S+"nets/resnet.py"),("MobileNetV1, MobileNetV1Block",S+"nets/mobilenetv1.py")])
prop("C29","Layers compute and store in the type of their inputs",
 "For every program of layers over half, bfloat16, single and (where enabled) double precision values, each layer makes its parameters and statistics in the type of what it is applied to and answers in that type; where values of several types meet the result has their smallest common type; layers that own a table keep the table's type. The types of state never change from call to call. With creators that store parameters in another type and getters that hand them out in the requested type (mixed precision), only what is stored changes.",
 ["programs","configurations"],"every program of layers and every combination of input types",
 "Tests check the output type of single layers for two types.",
 [S+"basic.py",S+"base.py",S+"conv.py",S+"recurrent.py",S+"attention.py",S+"batch_norm.py",S+"moving_averages.py"],[("get_parameter dtype and original_dtype",S+"base.py"),("Linear, dropout",S+"basic.py"),("ExponentialMovingAverage",S+"moving_averages.py"),("BatchNorm",S+"batch_norm.py")])
prop("C30","Drawing a function shows exactly its calls, operations and operands",
 "For every function using modules, to_dot and abstract_to_dot give a graph with one cluster per module method call (nested as the calls nest, titled with the module's name and the method), one node per operation in the cluster of the call that runs it, and one edge per operand from the node that produced it, from a copy of the argument labelled with its path, or from a captured value; nodes whose results are returned carry their place in the result. Nothing else is drawn, an exception of the function comes through, and later calls, later drawings and the profiler setting are as if nothing had been drawn.",
 ["programs","histories"],"every program of operations and module calls, including failing ones",
 "Tests check one addition module and the profiler flag.",
 [S+"dot.py",S+"module.py"],[("to_graph, DotTrace, _graph_to_dot",S+"dot.py"),("hook_methods, profiler_name_scopes",S+"module.py")])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
