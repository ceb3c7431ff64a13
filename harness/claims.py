"""Claimed properties: deciding method, level and what the level means."""

CORE_TECH = ("TLA+ specification of the transform machine (HkCore/HkSession) explored by TLC; every explored "
             "session replayed on the library and compared event by event")
CORE_NOTE = ("TLC checks the specification's invariants on every state of every generated session and computes "
             "the only allowed observations (events, values, parameters, state, errors); the library must match "
             "them exactly. Bounded: sampled sessions of programs up to about 30 operations plus all programs of "
             "a small scope. Trusts the driver's mapping of operations to public calls, JAX's own functions and TLC.")

CLAIMS = {}
NOT_APPLICABLE = {}


def claim(pid, technique=CORE_TECH, note=CORE_NOTE, level="model_checking", assumptions=()):
  CLAIMS[pid] = dict(technique=technique, note=note, level=level, assumptions=list(assumptions))


for _p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C23"):
  claim(_p, assumptions=["values are vectors of unsigned words, so no rounding is involved",
                         "sessions the specification leaves open are counted and not judged"])

claim("C05", technique="TLA+ specification of threads running transform machines (HkThreads) with bounded preemption "
      "explored by TLC; schedules replayed in real threads in lockstep, and switched between library source lines",
      note="TLC enumerates every schedule with at most two preemptions of small pairs of sessions and checks that "
      "every thread stays where it would be alone; the library must give each thread the observations specified for "
      "it alone, under the enumerated operation schedules and under random switches between any two library lines. "
      "Bounded: 2-3 threads, sampled programs and schedules.",
      assumptions=["switches happen between source lines of the library, not inside one line"])

TRACE_TECH = ("TLA+ specification ({}) whose behaviours TLC enumerates exhaustively to a bound and samples beyond "
              "it; every behaviour replayed on the library and compared step by step")
claim("C13", technique=TRACE_TECH.format("HkMapping"),
      note="The specification has an explicit heap, so aliasing between dictionaries and mappings is modelled; TLC "
      "checks immutability on it. Bounded: all histories of 4 operations over 2 variables, sampled histories of 12 "
      "operations over 3; leaves are numbers or None, up to 3 levels.",
      assumptions=["leaves are hashable scalars; other leaf types share the same code path"])

claim("C14", technique=TRACE_TECH.format("HkFilter"),
      note="TLC checks the algebraic laws on every structure of the pool; the library must return the specified "
      "entries for every history and leave every input unchanged. Bounded: all histories of 2-3 operations over all "
      "structures with at most 4 paths, sampled histories of 9 operations with 5 paths; bundles without entries are "
      "not distinguished from absent ones.")

NUM = "the library's 32-bit floats are compared with exact rationals within a small tolerance"
claim("C16", technique=TRACE_TECH.format("HkEma"),
      note="TLC checks the recurrence against the closed weighted sum and that quiet calls change nothing. Bounded: all "
      "histories of 5 calls for every decay in quarters and warm-up up to 3, sampled histories of module calls and "
      "trees of up to 6 parameters.", assumptions=[NUM])

claim("C17", technique=TRACE_TECH.format("HkBatchNorm"),
      note="Sampled options, shapes (up to 4 axes) and inputs; for each, TLC explores histories of module uses "
      "(all of 3 calls for some, sampled ones of 5 calls otherwise), checks that training normalizes exactly and that "
      "only training updates, and predicts outputs and averages exactly. Replicas are simulated with vmap.",
      assumptions=[NUM])

claim("C18", technique=TRACE_TECH.format("HkUnroll"),
      note="Random trees of integer cores (wrapped, stacked, skipping, with empty, scalar and nested states), inputs and "
      "flags; for each, TLC enumerates every way of cutting the sequence into calls, static and dynamic unrolls at init, "
      "at apply and outside, checks that all agree with the plain loop, and predicts outputs, carries and counters "
      "exactly. Bounded: up to 4 steps, batches up to 3, trees 4 deep.",
      assumptions=["cores compute on integers modulo 997; the wrappers do not look at the values"])

claim("C21", technique="TLA+ specification (HkConv) of convolution, transposition, padding and pooling as index maps, "
      "evaluated by TLC on every small one dimensional configuration and on random larger ones, with its laws checked; "
      "every result compared with the library's",
      note="TLC checks adjointness, sizes, causality, channel separation and pooling of constants on every configuration, "
      "and computes every output element; small integers make the library's floats exact. Bounded: 1 to 3 spatial axes of "
      "up to 7, kernels up to 4, strides and dilations up to 3, up to 6 channels.",
      assumptions=["inputs and weights are small integers, so sums are exact"])

claim("C20", technique=TRACE_TECH.format("HkMove"),
      note="TLC explores chains of reshapes, flattenings, batch applications and expansions on tensors of up to 5 axes "
      "(every single operation on ten shapes, pairs on some, sampled chains of 5), checks that order and rows are kept, "
      "and predicts every element; argument structures vary with each replay.")

claim("C24", technique=TRACE_TECH.format("HkLayers"),
      note="TLC runs sampled pipelines of linear, bias, embedding, MLP (and reversed MLP), sequential and attention layers "
      "over small integer tensors of rank 0 to 4, checks linearity, the one-hot identity of embeddings, that biases can be "
      "undone and that masked positions have no influence, and predicts parameters and every output element; attention is "
      "specified up to the softmax, evaluated by the harness in float64.",
      assumptions=["inputs and weights are small integers, so sums are exact"])

claim("C25", technique=TRACE_TECH.format("HkNorm"),
      note="TLC computes, for sampled modules (axes as integers, sequences and slices, negative ones included; groups; data "
      "formats) and sequences of calls with varying shapes, the set of elements each statistic is taken over, checks that "
      "the sets partition the input, that other examples have no influence unless the batch axis is listed and that shifts "
      "cancel, and predicts every output element; ranks 1 to 5, up to 60 elements.",
      assumptions=["the square root is evaluated by the harness in float64 and compared within tolerance"])

claim("C26", technique=TRACE_TECH.format("HkSpectral and HkVq"),
      note="TLC explores histories of updating and quiet calls, several per transformed call, of SpectralNorm, SNParamsTree, "
      "VectorQuantizer and VectorQuantizerEMA (also across two replicas). Stored vectors are chains of iterations, cluster "
      "sizes exact rationals, codebook entries weighted sums of assigned inputs; invariants tie them to the updating calls. "
      "The replay evaluates the terms in float64, realizes every assignment with concrete inputs and compares outputs, "
      "losses, gradients and every stored value. Sampled histories of up to 6 transformed calls, small ones exhaustive.",
      assumptions=["power iterations and codebook terms are evaluated in float64 and compared within tolerance",
                   "histories in which codebook entries coincide are cut there"])

claim("C19", technique=TRACE_TECH.format("HkCores"),
      note="TLC enumerates every sequence of saturated gates of three steps from five cells (cells are then exact integers) "
      "and checks that closed gates keep and open ones replace; for sampled cores, weights, inputs and states it computes "
      "the exact linear form of every gate of every unit over the inputs and the hidden units in reach, and the terms of "
      "the new state, which the replay evaluates in float64. Bounded: up to 3 spatial axes, batches up to 3, 4 steps.",
      assumptions=["sigmoid and tanh are evaluated by the harness in float64 and compared within tolerance"])

claim("C22", technique=TRACE_TECH.format("HkSummary, observing the transform machine of HkCore"),
      note="TLC runs sampled programs (modules, methods, properties, setters, scopes, failing and caught calls, inner "
      "transforms, JAX wrappers, interceptors) and lists the method calls of the run with names, owned entries and running "
      "methods; the summary must list the same with the arguments and results of each call site, twice and from two threads, "
      "the table must render them, and running the function afterwards must agree with the specification. Control flow is "
      "left out: how often JAX traces a body is not specified.",
      assumptions=["rendering uses the same table library as haiku"])

claim("C27", technique=TRACE_TECH.format("HkInit"),
      note="TLC enumerates shapes (17, of 0 to 5 axes) and options of every initializer, of dropout and of the parameters "
      "of 16 layers, checks the fan laws, and gives number of keys, exact elements where nothing is random, and otherwise "
      "mean, variance and bound of the elements; the replay draws and tests those moments, bounds, kurtosis, neighbour "
      "correlation and dependence on the key alone. Statistical for arrays of at least 500 elements (fixed keys, six "
      "standard errors), bounds only below.",
      assumptions=["jax.random draws the distributions it names"])

claim("C28", technique=TRACE_TECH.format("HkNets"),
      note="TLC builds the layer graph of each configuration (nodes with operation, inputs, parameters, padding, stride and "
      "shapes), checks that it is well formed, that each parameter has one owner and that depth and parameter count are "
      "the published ones (6 ResNets, MobileNet 4231976), and chooses mode histories; the replay evaluates that graph node "
      "by node on random parameters, statistics and inputs and compares names, shapes, initial values, outputs and new "
      "statistics with the library. Published sizes by shape only (eval_shape).",
      assumptions=["lax.conv_general_dilated computes convolutions (decided for hk.ConvND by C21)"])

claim("C29", technique=TRACE_TECH.format("HkTypes"),
      note="TLC enumerates every single operation (36) on every type (4, double precision with and without x64), with and "
      "without mixed precision hooks, samples programs of 3-5 operations over registers (thorough: all of 2), checks that "
      "joining types is a semilattice and that nothing is narrowed or widened, and gives the types of all parameters, "
      "statistics and results; the replay traces or runs init and apply of the program and compares every type.",
      assumptions=["jax promotes types as documented"])
claim("C30", technique=TRACE_TECH.format("HkDot"),
      note="TLC enumerates every program of 2 statements (thorough: 3) and samples programs of 4-14 statements over operations "
      "with one and two results, parameters, modules made and called at any depth, arguments, captured values, result "
      "structures and exceptions, drawn from outside (to_dot of apply) and inside a transformed function; it checks the graph "
      "is complete, closed, nested and acyclic, and gives it; the replay parses the DOT text of to_dot and abstract_to_dot and "
      "compares clusters, nodes, operands, arguments, captures and result labels, then later calls, drawings and the profiler setting.",
      assumptions=["compiled and custom-derivative functions are left out: the installed jax traces them differently from the one haiku was written for"])
