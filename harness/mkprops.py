"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

OPS = "core/itcl_quantization/quantization/operators.py"
LUT = "core/itcl_quantization/quantization/lut.py"
IE = "inference_engine/itcl_inference_engine/"
QZ = "quantizer/itcl_quantizer/"

p("C01", "Quantising a real number gives the nearest grid point, saturated",
  """For every real input, positive scale, zero point and integer type of up to 32 bits, the quantised value is the integer nearest to
  input/scale + zero point with exact halves rounded up, saturated to the smallest or largest value of the type when it lies outside.
  This holds element by element for scalars, lists and arrays of any shape, the result keeps the shape of the input, and the caller's input is not modified.""",
  ["inputs", "configurations"],
  "all finite real inputs in any container shape, all scales > 0, all zero points, all integer types of up to 32 bits",
  """The tests quantise a handful of values; ties, saturation on either side, non-zero zero points combined with small types, empty and
  higher-dimensional arrays are infinitely many and never sampled.""",
  [OPS], [("quantize / round: floor(x/s+zp+1/2), clip", OPS)], ["return value of the public quantise call"])

p("C02", "Dequantising is exact and quantise/dequantise are mutually inverse",
  """Dequantising an integer q gives (q - zero point) * scale, element by element and for every value of the integer type, with the shape preserved.
  Quantising a dequantised value gives the same integer back, quantising never reverses the order of two inputs, and a value inside the
  representable interval is reproduced with an error of at most half a scale step.""",
  ["inputs", "configurations"],
  "all representable integers, all scales > 0, all zero points, all integer types of up to 32 bits, all pairs of real inputs",
  "Round trips and monotonicity relate two calls over a whole type; the tests look at single calls with a few literals.",
  [OPS], [("quantize and dequantize agree on scale and zero point", OPS)], ["return values of quantise and dequantise"])

p("C03", "A rounding policy picks floor or ceiling per element, or is ignored",
  """When a rounding policy of the data's shape with entries 0 and 1 is given, each element becomes floor(value/scale + zero point) plus its own
  entry, saturated to the type. The base policy computed from the values reproduces ordinary nearest rounding on every element.
  A policy whose shape is incompatible with the data's (it cannot be broadcast to it) never alters the result:
  it is equal to ordinary nearest rounding.""",
  ["inputs", "configurations"],
  "all arrays, all 0/1 policies, all mismatching policy shapes, all scales, zero points and integer types",
  "No test passes a rounding policy; the space of policies is exponential in the number of elements.",
  [OPS, QZ + "equalizers/adaround/irounding_policy.py"],
  [("rounding_policy argument of quantise and look-up-table creation", OPS), ("base policy", QZ + "equalizers/adaround/irounding_policy.py")],
  ["return value of quantise with a policy"])

p("C04", "A lookup table answers every representable input with the right value",
  """A lookup table built for an activation holds exactly one entry per value of the integer type, in increasing order of that value, and each entry is the
  quantised result (output scale and zero point, saturated) of the function applied to the dequantised input. An engine layer driven by a table
  returns, for every element of an input of any shape and every representable value including negative ones, exactly the entry of that value,
  whether the table is stored in full or in reduced form.""",
  ["inputs", "configurations"],
  "all functions, scales, zero points, integer types; all input tensors; full and reduced tables; all offsets",
  "A table has 2^n entries and the tests compare a few; no test exercises a table-driven layer with negative inputs or a reduced table.",
  [OPS, IE + "layers/common/lut.py"],
  [("create_LUT / float_activation", OPS), ("LUT layer and its offset", IE + "layers/common/lut.py")],
  ["list returned by table creation", "output of the table layers"])

p("C05", "Reducing a lookup table loses nothing",
  """For every table, pruning depth and symmetry option, reading the reduced table at any valid index gives the entry of the original table at that index, and
  iterating over it gives the original table. Saving and reloading the reduced table preserves every answer, including through a JSON text round trip,
  and the original table passed by the caller is left unchanged.""",
  ["inputs", "configurations", "histories"],
  "all integer tables (monotone or not, any length), all depths >= 1, symmetric and asymmetric reduction, all indices, any number of save/load cycles",
  "The tests reduce a few fixed tables; interval boundaries depend on run lengths at both ends, on the depth and on overlaps between head and tail.",
  [LUT], [("head/tail run-length intervals", LUT), ("serialize / deserialize", LUT)],
  ["indexing, iteration, serialised form"],
  [("head and tail intervals", "run-length encoded ends of the table", LUT)])

p("C06", "Typed integer arithmetic is exact and widens instead of wrapping",
  """Adding, subtracting or multiplying typed integers (scalars or vectors, 8 to 32 bits, equal signedness) gives the mathematically exact result for every element
  whenever that result fits a type of twice the larger width. The type carried by the result can represent every element of it:
  the larger operand type when all elements fit the left operand's type, and the double-width type when they fit in neither operand type.""",
  ["inputs", "configurations"],
  "all pairs of values of all combinations of 8, 16 and 32 bit types of equal signedness, scalars and vectors, and expressions chaining several operations",
  "Overflow appears only on particular value pairs and width combinations; the tests use a few pairs.",
  [OPS], [("typed +, -, * with widening on overflow", OPS)], ["value and dtype of the result"])

p("C07", "Type names denote exact integer ranges; malformed names are rejected",
  """A signed name of n bits denotes exactly -2^(n-1) .. 2^(n-1)-1 and an unsigned one 0 .. 2^n-1, regardless of letter case and whether given by name or as a numeric array type;
  the name printed back denotes the same type. Every malformed or unknown name is rejected with an error instead of being silently read as another type.""",
  ["inputs", "configurations"],
  "all names of any bit count, letter-case variants, numeric array types, and all malformed strings",
  "The set of names and malformed strings is unbounded; the tests list a dozen.",
  [OPS], [("name parser", OPS)], ["minimum, maximum and printed name; raised error"])

p("C08", "Fully connected layers compute the exact integer result",
  """For every quantised input, weight and bias, a fully connected layer outputs, per unit, the exact integer accumulator sum(weight * (input - input zero point)) + bias, rescaled by
  input scale * weight scale / output scale (whenever that ratio is at least 1e-6) with rounding to nearest, exact halves up, plus the output zero point, saturated to the output type.
  Accumulation never overflows or loses precision for any values of the declared types, and the caller's input is not modified.""",
  ["inputs", "configurations"],
  "all weights, biases, inputs, zero points, scales, input and output types, vector and batch inputs",
  "The tests compute a few small products; saturation, rounding of negatives and ties, asymmetric zero points and large accumulators are not sampled.",
  [IE + "layers/tflite/fullyconnected.py", IE + "util/floating.py"],
  [("integer accumulation and requantisation", IE + "layers/tflite/fullyconnected.py")], ["layer output"])

p("C09", "Integer-only rescaling approximates the real multiplier to within rounding",
  """Multiplying an integer of up to 32 bits by a real multiplier in its integer-only representation gives the integer nearest to the exact product, the representation error of the multiplier being at most
  2^-31 relative; halves round up, for negative values as well. It is monotone in the integer, maps 0 to 0, and gives the same answers for a single integer and for arrays of them;
  with integer-only mode off it is ordinary real multiplication.""",
  ["inputs"],
  "all multipliers in (2^-31, 2^31) including exact powers of two and values just below one, all 32-bit integers",
  "Rounding and mantissa-overflow corner cases are specific points of a 2^53 x 2^32 space; no test covers this class.",
  [IE + "util/floating.py"], [("mantissa/shift decomposition, rounding shift", IE + "util/floating.py")], ["product"])

p("C10", "Quantised matrix product and addition of the second engine are exact",
  """The quantised matrix product equals the exact integer product of the zero-point-corrected operands, rescaled by the ratio of scales, rounded to nearest (even on exact halves), shifted by the
  output zero point and saturated to 0..255. The quantised addition likewise equals the sum of both dequantised operands requantised to the output scale and zero point, with the same
  rounding and saturation, for any operand shapes the operation accepts.""",
  ["inputs", "configurations"],
  "all unsigned 8-bit tensors, zero points and scales, vector and batch inputs",
  "The tests use a few literal tensors whose results do not saturate and never fall on a tie.",
  [IE + "layers/onnx/q_linear_mmul.py", IE + "layers/onnx/q_linear_add.py"],
  [("QLinearMatMul", IE + "layers/onnx/q_linear_mmul.py"), ("QLinearAdd", IE + "layers/onnx/q_linear_add.py")], ["layer output"])

p("C11", "A sample's result does not depend on the batch it is processed in",
  """For every layer and every network that accepts batches, the result of a batch is the stack of the results of its samples processed one at a time, whatever the batch size,
  the order of the samples and the content of the other samples.""",
  ["inputs", "configurations", "histories"],
  "all layers of both engines and all networks built of them, all batch sizes and permutations",
  "It relates several executions (hyperproperty) while every test looks at one execution.",
  [IE + "layers", IE + "network/sequential.py"],
  [("row-wise layer arithmetic", IE + "layers")], ["layer and network outputs"])

p("C12", "A network is the composition of its layers, free of memory and fully traced",
  """Inferring with a loaded network gives the result of applying its layers in the listed order, each to the output of the previous one, quantising the float input first exactly when the graph
  does not begin with a quantisation step; the recorded intermediate results are the outputs of the layers of the latest inference in order. Repeating an inference after any history of other inferences
  gives the same result and leaves the caller's input unmodified. Unknown engines, unknown operations and missing network inputs or outputs are rejected when the network is loaded.""",
  ["programs", "histories", "configurations"],
  "all graphs of supported operations, both engines, all inference histories",
  "Histories and graphs are unbounded; the only network tests need files that are not in the repository.",
  [IE + "network/sequential.py", IE + "layers/tflite/build_layer.py", IE + "layers/onnx/build_operator.py"],
  [("sequential inference loop", IE + "network/sequential.py"), ("operation dispatch", IE + "layers/tflite/build_layer.py")],
  ["network output, intermediate results, raised errors"],
  [("intermediate results", "outputs of each layer of the last inference", IE + "network/sequential.py")])

p("C13", "The quantised recurrent layer follows the exact gate recurrence",
  """At every time step, each gate accumulates the input and recurrent products of the zero-point-corrected values, rescales them by the ratios of the stored scales and maps them through its lookup table;
  the cell state is the forget gate times the old cell plus the input gate times the candidate, and the hidden state is the output gate times the activated cell, each requantised and saturated to its
  stored scale, zero point and type (to one of the two neighbouring integers). The sequence starts from states representing zero.""",
  ["inputs", "configurations"],
  "all quantised weights, biases, tables, scales, zero points, sequence lengths and inputs",
  "There is no test of the recurrent layer; errors compound over steps and appear only for particular scales and zero points.",
  [IE + "layers/itclq/lstm.py"], [("gate arithmetic and state update", IE + "layers/itclq/lstm.py")], ["layer output and recorded intermediate tensors"],
  [("hidden and cell state", "recurrent state per time step", IE + "layers/itclq/lstm.py")])

p("C14", "The recurrent layer is causal, restarts from scratch and stays in range",
  """The output at a time step depends only on the inputs up to that step: the outputs for a prefix of a sequence are the prefix of the outputs for the whole sequence. Every call starts from the initial
  state whatever was inferred before, returning the last step only or all steps agree with each other, and all outputs lie within the range of the output type.""",
  ["inputs", "histories"],
  "all sequences and prefixes, all call histories, both return modes",
  "It relates several executions and histories; no test runs the recurrent layer.",
  [IE + "layers/itclq/lstm.py"], [("per-call state initialisation, step loop", IE + "layers/itclq/lstm.py")], ["layer outputs of related calls"])

p("C15", "Calibration always yields valid parameters that represent the data",
  """For every non-empty set of calibration samples the chosen scale is positive and finite and the zero point is an integer inside the target type's range; real zero is represented exactly.
  With ordinary asymmetric calibration every sample quantises without saturating by more than one step and its reconstruction error is at most one scale step.
  With zero forced as the zero point it is used, and the largest magnitude fits within one step (exactly, when calibration is symmetric). The parameters chosen by the input and dense layer quantisers for their
  nodes have the same property, and the samples are not modified.""",
  ["inputs", "configurations"],
  "all non-empty sample sets (all positive, all negative, constant, zero, single value, tiny and huge) of magnitudes float histograms resolve, integer types of up to 16 bits, zero point free or forced to zero, symmetric (signed types) or not",
  "The tests of calibration cannot run here and use a few ranges; degenerate distributions are where the divisions fail.",
  [QZ + "quantizer/distributions/distribution.py"], [("scale / zero point from min and max", QZ + "quantizer/distributions/distribution.py")],
  ["scale and zero point returned by calibration"])

p("C16", "A quantised tensor always reflects its current parameters",
  """After any sequence of updates or resets of scale, zero point and rounding policy, once the node has been requantised after the last of them (all but updates that explicitly defer it do that themselves), the integers a tensor node reports are those obtained by quantising its float data with the parameters it reports, its reported reconstruction is the
  dequantisation of those integers, and its serialised form carries exactly the same integers, scale, zero point and type.
  A new node holds the nearest integers, and a rounding policy of another shape is refused without effect. The table of a node answers each value with the entry of that value. Every registered dependant is notified of each update of parameters,
  and lookup tables attached to a node match the current input and output parameters and the table's rounding policy.""",
  ["histories", "configurations"],
  "all sequences of node operations of any length, with any data, types and policies",
  "The staleness of derived data depends on the order of operations; tests perform one or two operations.",
  [QZ + "tensor_extractor/tensor.py", QZ + "tensor_extractor/keras/layers/activations.py"],
  [("update hooks and requantisation", QZ + "tensor_extractor/tensor.py")], ["node properties and serialised node"],
  [("scale, zero point, rounding policy, quantised data", "node state", QZ + "tensor_extractor/tensor.py")])

p("C17", "The bias scale of a layer is always input scale times weight scale",
  """In a quantised dense layer, and for each gate of a quantised recurrent layer, the scale of the bias equals the product of the current input scale and weight scale and its zero point is zero,
  after construction and after every later change of either scale, and the stored bias integers are those of the current scale.""",
  ["histories", "configurations"],
  "all sequences of parameter changes on the input, weight and bias nodes of one or several chained layers",
  "It is an invariant over update histories of several connected nodes; the only test of the layer cannot run and makes no update.",
  [QZ + "tensor_extractor/keras/layers/keras_dense.py", QZ + "tensor_extractor/keras/layers/keras_lstm.py"], [("hooks from input and kernel node to bias node", QZ + "tensor_extractor/keras/layers/keras_dense.py")],
  ["scales and integers of the layer's nodes"])

p("C18", "Parameter search never makes the network worse and ends on its best point",
  """The search over scales and zero points (best-first or by annealing) leaves the network with parameters whose loss is the smallest it has evaluated, and in particular no larger than at the start; the loss re-evaluated after the search is
  exactly that minimum. At every evaluated point all scales are positive, all zero points lie in the range of their type, and the quantised tensors match the parameters.""",
  ["histories", "inputs", "configurations"],
  "all loss functions (including constant, zero and non-monotone ones), all seeds, iteration counts and sets of nodes",
  "The outcome depends on random moves and on the history of accepted and rejected candidates.",
  [QZ + "equalizers/param_equalizer/bfs_equalizer.py", QZ + "equalizers/param_equalizer/annealer.py", QZ + "equalizers/param_equalizer/abstract_param_optimizer.py"],
  [("neighbour generation, acceptance, restore", QZ + "equalizers/param_equalizer/bfs_equalizer.py")], ["loss evaluations and final node parameters"],
  [("best point", "parameters of the best evaluation so far", QZ + "equalizers/param_equalizer/bfs_equalizer.py")])

p("C19", "Rounding optimisation never worsens the cost and only picks floor or ceiling",
  """Optimising rounding policies by annealing returns, for each tensor, a policy of the tensor's shape with entries 0 or 1 only, whose cost is the smallest evaluated and no larger than that of the starting policies,
  also when a cost is exactly zero or negative. Every element of every tensor can be flipped, the policies given as a starting point are not altered, and the policy applied to a layer is the returned one.""",
  ["histories", "inputs", "configurations"],
  "all cost functions, seeds, numbers of steps, tensor shapes of any dimension",
  "The annealer is random and its result depends on the entire history of moves; it has no running test.",
  [QZ + "equalizers/adaround/annealer.py", QZ + "equalizers/adaround/adaround.py"],
  [("move/energy/best tracking", QZ + "equalizers/adaround/annealer.py")], ["cost evaluations and returned policies"],
  [("annealing state", "current policies of all tensors", QZ + "equalizers/adaround/annealer.py")])

p("C20", "The binary optimisation problem encodes the layer's reconstruction error",
  """The quadratic binary problem built for a layer assigns to every choice of rounding bits, up to one constant common to all choices, the mean squared difference between the layer's float output and the output computed with
  the chosen weights and biases. Minimising it is therefore minimising the reconstruction error, every rounding bit of every weight and bias occurs in it, and a solution is decoded to the bit of the weight or
  bias it was built for.""",
  ["inputs", "configurations"],
  "all weights, biases, inputs, scales, layer sizes and all bit assignments",
  "The claim quantifies over all 2^n assignments; its tests need solver packages and compare single solutions.",
  [QZ + "equalizers/adaround/qubocalculation.py", QZ + "equalizers/adaround/qubo.py"],
  [("coefficient construction", QZ + "equalizers/adaround/qubocalculation.py"), ("solution decoding", QZ + "equalizers/adaround/qubo.py")],
  ["coefficients handed to the sampler", "decoded tensors"])

p("C21", "The exported network computes what the quantised model denotes",
  """The network file written by the quantiser lists the operations in model order starting with quantisation and ending with dequantisation; wherever one operation feeds the next, both record the same scale, zero point and type.
  Every stored integer tensor is the quantisation of the model's float tensor with the stored parameters, and loading the file in the inference engine and running it
  gives exactly the result of the integer arithmetic those records denote.""",
  ["programs", "configurations", "inputs"],
  "all feed-forward models of dense layers and supported activations, all calibration data, all type configurations and inputs",
  "It is an end-to-end relation over programs; no test runs the quantiser at all, let alone together with the engine.",
  [QZ + "tensor_extractor/keras/keras_builder.py", QZ + "util/network.py", QZ + "tensor_extractor/keras/layers/keras_dense.py"],
  [("layer building and serialisation", QZ + "tensor_extractor/keras/keras_builder.py")], ["exported JSON network and its inference"])

p("C22", "Model converters keep every layer, its order and its parameters",
  """Converting a source model yields one operation per computing layer in the source order, with weights, biases, activation and shapes equal to the source (transposed only where the target format stores
  output-major weights); layers with no run-time effect are dropped and nothing else is. Network inputs and outputs are those of the source model, and an unsupported layer is reported as an error rather than omitted.""",
  ["programs", "configurations"],
  "all sequences of supported layers of any shapes, with and without bias and activation, and models containing unsupported layers",
  "The models are unbounded programs; the repository has no converter tests.",
  ["model_converters/keras2json/keras2json", "model_converters/onnx2json", "model_converters/tflite2json/itcl_tflite2json"],
  [("layer dispatch", "model_converters/keras2json/keras2json/_convert.py"), ("graph walk and fusion", "model_converters/onnx2json/helpers/graph.py")],
  ["the converted network"])

p("C23", "Remote inference returns every sample's own result once, in order",
  """A batch sent to the remote device is split into chunks that together contain each sample exactly once and in order, none larger than the maximum chunk size, and the returned result is the concatenation of the device's
  answers to exactly those chunks in that order. Under any timing of delayed, duplicated or lost answers, an answer to an earlier request is never used for a later one: the call returns the right result or
  reports that it has none.""",
  ["schedules", "fault_sequences", "inputs"],
  "all batch sizes and maximum chunk sizes, all interleavings of requests with delayed, duplicated, reordered and lost answers",
  "The outcome depends on message timing; the demo has no tests and needs a device.",
  ["demo/demo_lib/demo_lib/fpga.py"], [("chunking, publish/wait handshake", "demo/demo_lib/demo_lib/fpga.py")], ["published messages and returned arrays"],
  [("pending answer", "event and last received payload", "demo/demo_lib/demo_lib/fpga.py")])

p("C24", "Activation and (de)quantisation layers compute their function element-wise",
  """The quantisation and dequantisation layers of both engines apply the parameters stored in the network file element by element, saturating to the declared type. Rectifiers clamp at real zero and rescale,
  the hyperbolic tangent and logistic layers produce the quantised value of the function of the dequantised input within one step and are monotone. The second engine's softmax produces for each
  sample non-negative values that sum to one, keep the order of the inputs and never overflow; the first engine's hands the scores on, keeping their order.""",
  ["inputs", "configurations"],
  "all input tensors, shapes, batch sizes, scales, zero points and types",
  "The tests compare a few literal tensors; extremes, negative zero points and batches are not covered.",
  [IE + "layers/tflite", IE + "layers/onnx", IE + "layers/common/relu.py"],
  [("per-layer arithmetic", IE + "layers")], ["layer output"])

p("C25", "Calibration histograms count every sample; trimming keeps the wanted range",
  """A distribution built from calibration samples divides their range into the requested number of consecutive bins that together count every sample exactly once, and its minimum and maximum bound all samples and, unless all
  samples are equal, are samples themselves; the content reported for a bin is the samples that lie in it. Restricting a distribution to an interval, open on either side or not, or to one of its bins, keeps
  every sample inside the interval within the reported minimum and maximum, keeps nothing more than one bin outside it (when the interval contains two different samples, or one and is at least a bin wide), and leaves the original unchanged.""",
  ["inputs", "configurations"],
  "all non-empty sample sets of any shape and float type, all numbers of bins, all intervals (covering, inside, outside, between samples, narrower than a bin, half open), restricted once or repeatedly; bins wider than the float type resolves",
  "Degenerate data (constant, clustered on bin edges, entirely outside the interval) decide which samples survive; the tests use one normal sample.",
  [QZ + "quantizer/distributions/distribution.py"], [("histogram, bin access and slicing", QZ + "quantizer/distributions/distribution.py")],
  ["histogram, edges, minimum, maximum and bins reported by the distribution"])

p("C26", "Trimming optimisers cut only what they are asked to cut",
  """Trimming a calibration distribution never invents data: the trimmed range lies inside the original one, the original distribution is unchanged and the scale calibrated afterwards is positive and no larger than without
  trimming (a distribution whose remaining values are all equal is one unit wide). Min-max keeps everything. Trimming a share cuts that share of the samples, and no more, at each end, saturating them at the cut: all samples are still counted
  and the samples between the cuts are unchanged. Entropy trimming keeps the lowest samples and at least as many of its bins as there are quantised levels, and cuts where the histogram diverges least from its reduction; the reduced histogram keeps empty bins empty and the total of every group of bins.
  Trimming by search is no noisier than not trimming.""",
  ["inputs", "configurations"],
  "all sample sets of any magnitude and shape, all shares below one half, numbers of bins and of quantised levels",
  "What is cut depends on the tails of the data (outliers, repeated values, empty bins); the tests trim one or two fixed samples.",
  [QZ + "optimizers/fixed_percent.py", QZ + "optimizers/kl_div_optimizer.py", QZ + "optimizers/scipy_optimizer.py", QZ + "optimizers/min_max.py"],
  [("trim", QZ + "optimizers")], ["range, counts and scale of the trimmed distribution", "integers of a layer calibrated through it"])

p("C27", "A quantisation configuration says exactly what a build does",
  """A new configuration has the documented defaults except for the settings given; changing one configuration never changes another or a later one. The TFLite preset makes every kernel symmetric, including those of
  specifically configured layers, and switches the network searches off, and changes nothing else. A configuration written to JSON or YAML and read back is equal. A build gives each dense layer, in order, the types and
  kernel symmetry configured for its name, or else the general ones, runs the configured searches with their configured numbers of steps and retries if and only if a loss is given, and leaves the configuration as it was.""",
  ["configurations", "histories", "programs"],
  "all combinations of settings and layer names, all histories of creating, changing, presetting, storing and loading several live configurations, all feed-forward models built with them",
  "Shared defaults and presets show only over histories of several live objects; no test builds with a non-default configuration.",
  [QZ + "config/models/keras.py", QZ + "tensor_extractor/keras/keras_builder.py"],
  [("configuration models and preset", QZ + "config/models/keras.py"), ("layer settings and searches", QZ + "tensor_extractor/keras/keras_builder.py")],
  ["fields of every live configuration", "types, scales and loss evaluations of the built network"],
  [("live configurations", "fields of each", QZ + "config/models/keras.py")])

p("C28", "Quality measures count and weigh exactly what quantisation loses",
  """The number of collisions of a tensor is the number of distinct float values (up to the decimal tolerance) that share their quantised value with another one: repetitions never count, and it is zero exactly when quantisation
  is injective on the values. A layer reports it for its kernel, and per sample for its outputs, and sums them; a layer without weights has none. The noise, divergence and cross entropy of two histograms are the mean of the squared differences, the sum of
  p ln(p/q) - p + q (never negative, zero for equal histograms, finite with empty bins) and minus the sum of p ln q; comparing distributions uses their shares or their counts as asked. Measuring alters neither operand.""",
  ["inputs"],
  "all tensors of any shape, type and tolerance, with repetitions; all histograms, with empty bins on either side; all numbers of samples",
  "The counts depend on coincidences between values across the tensor; the tests look at two literal tensors and measure no histogram.",
  [QZ + "util/collisions.py", QZ + "quantizer/metrics/noise.py", QZ + "quantizer/distributions/distribution.py"],
  [("collision count", QZ + "util/collisions.py"), ("histogram measures", QZ + "quantizer/metrics/noise.py")], ["returned counts and measures", "the operands afterwards"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
