OPTTECH = ("bounded exhaustive enumeration of small ONNX graphs, each run through the real optimizers (alone and as the product's pipeline); "
           "the original graph executed by onnxruntime is the reference")
OPTNOTE = ("Exhaustive within the stated bounds on the real optimizer code (no model); onnxruntime with its own graph optimizations disabled is trusted; "
           "float tolerance rtol 1e-4.")

prop("C17", "Graph optimizers preserve what a graph computes",
     "Running the graph optimizers on any valid ONNX graph (constant folding, identity and duplicate removal, back-to-back casts, transposes, reshapes and squeezes, loop, computed-reshape, q/dq and conv-batchnorm fusion) "
     "gives a valid graph with the same inputs and outputs that computes the same values, shapes and dtypes up to rounding, "
     "also when tensors have several consumers, are graph outputs, or are captured by If or Loop bodies, and when shapes are unknown.",
     ["programs", "inputs", "configurations"],
     "every graph in families of small graphs around each optimizer (every pair/triple of casts over all dtypes, of transposes, squeezes, reshapes; every foldable operator; every sharing pattern) x opset x optimizer alone / whole pipeline",
     "Tests give each optimizer a few graphs that show its benefit; that no graph at all is changed in meaning needs the neighbouring graphs too.",
     ["tf2onnx/optimizer"],
     [("pipeline", "tf2onnx/optimizer/__init__.py"), ("back to back", "tf2onnx/optimizer/back_to_back_optimizer.py"), ("constant folding", "tf2onnx/optimizer/const_fold_optimizer.py"),
      ("duplicate merging", "tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py"), ("identity, loop, reshape, global pool", "tf2onnx/optimizer/*_optimizer.py")],
     technique=OPTTECH, note=OPTNOTE)

prop("C18", "Moving transposes through operators never changes the result",
     "The transpose optimizer, which pushes, merges and removes Transpose nodes, leaves every output value, shape and dtype of the graph as it was, for every permutation and every operator it moves through "
     "(elementwise, broadcast binary and n-ary, reductions, arg, softmax, pad, slice, concat, split, squeeze, unsqueeze, tile, conv bias and scale fusion, quantization). "
     "The shape and dtype it records for every tensor are true of the tensor, and constants or weights shared with other nodes, graph outputs and values read in subgraphs are unaffected.",
     ["programs", "inputs", "configurations"],
     "every (operator x attributes x second operand shape) behind every permutation of rank 2-4 (selected ones of rank 5) x what follows x opset x static/unknown shapes",
     "Tests use the NHWC/NCHW permutation with one axis per operator; the guarantee is about all axes, permutations and sharing patterns.",
     ["tf2onnx/optimizer/transpose_optimizer.py"],
     [("operator handlers", "tf2onnx/optimizer/transpose_optimizer.py"), ("shape bookkeeping", "tf2onnx/optimizer/transpose_optimizer.py: _switch_transpose_and_node")],
     technique=OPTTECH, note=OPTNOTE)

prop("C10", "Quantization operators and their optimizers keep the quantized values",
     "A converted FakeQuantWithMinMaxArgs/Vars or QuantizeAndDequantize (V2, V3, V4) yields the values TensorFlow yields for every range, signedness, narrow range, bit width, rounding mode and axis the conversion accepts, "
     "exact rounding ties excepted. "
     "Moving, folding and removing QuantizeLinear/DequantizeLinear around operators that only move data (and folding dequantized constants) leaves all outputs unchanged, per tensor and per channel, whatever else reads the tensors.",
     ["inputs", "programs", "configurations"],
     "every (range x signed x narrow x bits x rounding x axis x shape x opset) on a grid around all rounding and clamping points; every q/dq arrangement around every data-moving operator x type x per-channel axis x opset",
     "Tests quantize a few tensors with one range; off-by-one-step errors appear only for particular ranges, bit widths and axes.",
     ["tf2onnx/onnx_opset/quantize.py", "tf2onnx/rewriter/quantization_ops_rewriter.py", "tf2onnx/optimizer/q_dq_optimizer.py", "tf2onnx/optimizer/const_dequantize_optimizer.py"],
     [("FakeQuant", "tf2onnx/onnx_opset/quantize.py"), ("QuantizeAndDequantize", "tf2onnx/rewriter/quantization_ops_rewriter.py"), ("q/dq pushing", "tf2onnx/optimizer/q_dq_optimizer.py"),
      ("dequantized constants", "tf2onnx/optimizer/const_dequantize_optimizer.py")],
     technique=OPTECH + "; and of small ONNX graphs through the real optimizers", note=NOTE)

prop("C13", "Random operators draw with the right shape, type, range and independence",
     "A converted random operator (uniform, normal, integer uniform, shuffle, multinomial, with constant or run-time shape and limits) draws tensors of TensorFlow's shape and dtype, "
     "within its range or with its mean and deviation. Unseeded operators draw independently of each other and anew in each session, seeded ones repeat. "
     "All values computed from one draw, including scaled and shifted draws that are fused, agree with each other whatever else reads the draw.",
     ["programs", "inputs", "configurations"],
     "every (operator x range or moments x shape source x dtype x seed x opset), every way to scale and shift a draw x every sharing of the draw and its intermediate values, every pair of draws",
     "Random outputs cannot be compared with TensorFlow's, so the tests only look at shapes.",
     ["tf2onnx/onnx_opset/generator.py", "tf2onnx/rewriter/random_uniform.py", "tf2onnx/rewriter/random_normal_rewriter.py"],
     [("operators", "tf2onnx/onnx_opset/generator.py"), ("fusing scale and offset", "tf2onnx/rewriter/random_uniform.py"), ("normal", "tf2onnx/rewriter/random_normal_rewriter.py")],
     note=NOTE)

prop("C21", "Editing a graph keeps its nodes, readers, types and nested graphs consistent",
     "After any sequence of graph edits (replacing inputs one by one or everywhere, inserting, adding, removing and renaming, resetting or sorting the node list, deleting unused nodes, copying, replacing nested graphs) "
     "the graph holds exactly the edges those edits describe: lookups by name and by tensor, dtypes and shapes agree with the nodes, and the readers reported for a tensor are exactly the nodes that read it, nested graphs included, also when a node reads it twice. "
     "Exporting the graph then yields every needed node, input, constant and nested graph once, in an order in which every value exists before it is used; editing a copy leaves the original alone.",
     ["operation_sequences", "programs"],
     "all sequences of edits up to the depth bound (2 quick, 3 thorough; every operand position and tensor) from 8 base graphs with shared, repeated and optional inputs, several outputs and one or two levels of nested graphs",
     "Every rewriter and optimizer is a long sequence of such edits on a graph the tests never inspect in between; one stale reader list shows up only when a later edit relies on it.",
     ["tf2onnx/graph.py"],
     [("edges and readers", "tf2onnx/graph.py: replace_all_inputs, replace_input(s), remove_input, find_output_consumers"), ("node list", "tf2onnx/graph.py: make_node, remove_node, reset_nodes, topological_sort, delete_unused_nodes"),
      ("nested graphs", "tf2onnx/graph.py: set_body_graph_as_attr, _register_input_name"), ("export", "tf2onnx/graph.py: make_graph")],
     level="model_checking",
     technique="explicit-state model checking: every edit sequence up to the depth bound is executed on the real Graph class in lock step with a reference model, all observations compared after every transition",
     note="The reference model is an independent Python graph; conformance is checked at every transition of every explored trace, so the model cannot drift from the code.")

prop("C11", "Strings, lookup tables and extra-opset operators keep TensorFlow's meaning",
     "With the extra opset enabled, string operators (comparison, join, reduce-join, split, case, regex replace, hash, number conversions, data movement) and static lookup tables, constant or run-time keys, give TensorFlow's strings and numbers. "
     "So do the operators exported to the com.microsoft domain (Range, Inverse, CropAndResize, transposed convolution with run-time size). "
     "A combination the converter or runtime declines is declined, never silently computed differently.",
     ["programs", "inputs", "configurations"],
     "every (operator x attributes x ranks, axes, separators, patterns, key/value types, default values x static/dynamic shapes x opset) in the bounded space, on a string alphabet with empty, multi-byte and separator-only strings",
     "Tests run a single string example per operator; axes, keep_dims, separators and missing keys are not varied.",
     ["tf2onnx/custom_opsets/string_ops.py", "tf2onnx/custom_opsets/onnx_ml.py", "tf2onnx/custom_opsets/ms.py", "tf2onnx/onnx_opset/tensor.py"],
     [("string operators", "tf2onnx/custom_opsets/string_ops.py"), ("tables", "tf2onnx/custom_opsets/onnx_ml.py, tf2onnx/tf_loader.py: get_hash_table_info"), ("com.microsoft operators", "tf2onnx/custom_opsets/ms.py")],
     note=NOTE)

prop("C12", "Magnitudes of Fourier transforms and spectrograms agree with TensorFlow",
     "For a real signal of any rank, axis lengths and transform length (not longer than the axis), the magnitude of RFFT and RFFT2D and the pipelines built on them (framing, windowing, spectrogram, mel scale) equal TensorFlow's, however the magnitude is used. "
     "A program that uses the complex spectrum in any other way is declined at conversion, never converted to something else.",
     ["programs", "inputs", "configurations"],
     "every axis length up to 9 (16 thorough) x every transform length around it x rank 1-3 x static/dynamic shapes x float/double x opset, every 2-D size up to 5x5 with all neighbouring transform sizes, every listed use of the spectrum, all frame/step/pad combinations",
     "The transforms are hand-written matrices and slices; boundary lengths (1, odd, shorter than the axis) each take a different path.",
     ["tf2onnx/onnx_opset/signal.py"],
     [("RFFT", "tf2onnx/onnx_opset/signal.py: CommonFFTOp"), ("RFFT2D", "tf2onnx/onnx_opset/signal.py: CommonFFT2DOp"), ("magnitude", "tf2onnx/onnx_opset/signal.py: ComplexAbsOp")],
     note=NOTE)

prop("C15", "The converted model has exactly the requested inputs and outputs",
     "For any ordered selection of input and output tensors (inner tensors included), renaming, request for NCHW layout of inputs or outputs, shape override and treatment of defaults, the model has exactly these inputs and outputs, in that order, under the requested names, with TensorFlow's types, ranks and known dimensions. "
     "Fed and fetched through this interface, in the requested layouts, it returns TensorFlow's values for these tensors, whatever else reads them. "
     "from_function and from_keras keep the argument order and names, also with a dozen inputs or outputs, dict outputs, unused arguments and outputs that are the same tensor.",
     ["programs", "inputs", "configurations"],
     "all ordered pairs (thorough: triples) of ten output tensors, all listed selections of inner and outer inputs, 19 renamings incl. swaps and clashes, every combination of layout requests on the inputs and on up to two of the outputs, four entry points",
     "Tests convert one input and one output with the default names; order, clashes and shared readers are never combined.",
     ["tf2onnx/tfonnx.py", "tf2onnx/graph.py", "tf2onnx/convert.py", "tf2onnx/tf_loader.py"],
     [("selection and identity outputs", "tf2onnx/graph.py: Graph.__init__"), ("renaming", "tf2onnx/graph.py: rename_tensors, tf2onnx/convert.py: tensor_names_from_structed"),
      ("layout", "tf2onnx/tfonnx.py: transpose_inputs, transpose_outputs"), ("defaults", "tf2onnx/tfonnx.py: tensorflow_to_onnx; tf2onnx/tf_utils.py")],
     note=NOTE)

prop("C14", "Every supported opset yields valid models of that opset with the same meaning",
     "For every target opset from 14 to 18 the converted model declares that opset (and every other operator domain it uses), contains only operators, attributes, input counts and types that this opset defines, passes strict type inference, "
     "and computes what TensorFlow computes. "
     "A combination of operator and opset that cannot be expressed is declined, not converted into a model of another opset or meaning.",
     ["programs", "configurations", "inputs"],
     "a fixed spread of cases from every family of the other operator checks (2 per operator family quick, at least 6 thorough) x every opset 14-18 (13-18 thorough)",
     "CI runs one opset per job and compares numbers only; whether the emitted nodes belong to the declared opset is left to what the runtime happens to accept.",
     ["tf2onnx/handler.py", "tf2onnx/schemas.py", "tf2onnx/constants.py", "tf2onnx/graph.py", "tf2onnx/onnx_opset"],
     [("choosing the handler version", "tf2onnx/handler.py: create_mapping"), ("opset imports", "tf2onnx/graph.py: make_model"), ("versions", "tf2onnx/onnx_opset: version_* methods")],
     note=NOTE)

prop("C16", "Recorded types and shapes agree with the values the model computes",
     "Every element type and shape the converter records, for declared outputs and for every intermediate tensor, before and after optimizing, is that of the value the tensor takes at run time: equal types, equal ranks and equal known dimensions, on every input. "
     "Unknown shapes and dimensions may be recorded, wrong ones never.",
     ["programs", "inputs", "configurations"],
     "a fixed spread of cases from every family of the other operator checks (7 per family quick, all of them thorough); every intermediate tensor of each converted graph is fetched on every feed, before and after optimizing",
     "Handlers and optimizers choose operators from recorded ranks and types; tests look at the values of the outputs only, so a wrong record surfaces in some other, later combination.",
     ["tf2onnx/graph.py", "tf2onnx/shape_inference.py", "tf2onnx/onnx_opset", "tf2onnx/rewriter", "tf2onnx/optimizer"],
     [("records", "tf2onnx/graph.py: set_shape, set_dtype, copy_shape, update_node_shape_dtype"), ("inference", "tf2onnx/shape_inference.py, tf2onnx/schemas.py: infer_onnx_shape_dtype"), ("handlers", "tf2onnx/onnx_opset: shapes= and dtypes= of make_node")],
     note=NOTE)

prop("C23", "A converted TFLite model computes what the TFLite interpreter computes",
     "For every TFLite model built of supported operators, with any of their options (fused activations, paddings, strides, masks, axes, optional inputs, quantization per tensor or per axis, constant strings), static or unknown shapes, the converted model gives the interpreter's outputs within float tolerance (one quantization step for quantized tensors, with and without dequantize). "
     "Branches, loops, nested and repeated subgraphs and detection post-processing included. "
     "Models with operators or options that are not supported are declined or keep that operator visibly unconverted.",
     ["programs", "inputs", "configurations"],
     "about 3900 (TFLite operator x options x shapes x types x static/unknown shapes x quantization) points at opset 18, the same at opsets 15, 13 and 11 in the thorough tier",
     "Tests convert whatever the TFLite converter emits for a few TF programs; hand-made and older models use options that it never writes.",
     ["tf2onnx/tflite_utils.py", "tf2onnx/tflite_handlers", "tf2onnx/tflite_rewriters", "tf2onnx/flexbuffers.py", "tf2onnx/tfonnx.py"],
     [("reading", "tf2onnx/tflite_utils.py: read_tflite_model, parse_tflite_graph"), ("operators", "tf2onnx/tflite_handlers"), ("loops", "tf2onnx/tflite_handlers/tfl_controlflow.py, tf2onnx/tflite_rewriters"), ("options", "tf2onnx/flexbuffers.py")],
     note=NOTE)

prop("C20", "A failing optimizer costs its own optimization and nothing else",
     "When an optimizer fails at any point - an exception of any kind at any step, also after it has edited its graph, in its constructor, or by returning nothing - and errors are contained, the returned model is valid and computes the same, and the other optimizers still take effect as if the failing one were not in the list. "
     "Errors are contained unless large_model is set; TF2ONNX_CATCH_ERRORS overrides this either way (TRUE, in any case, contains; anything else does not), and an error that is not contained reaches the caller.",
     ["crash points", "configurations", "programs"],
     "for each model, every call of a graph-editing function made by any optimizer as the point of failure; failing stubs of each kind at every position of the optimizer list; all values of the variable x large_model x kind of failure",
     "A fault inside an optimizer never happens in the tests; the graph it leaves half edited is what the containment has to discard.",
     ["tf2onnx/optimizer", "tf2onnx/graph.py", "tf2onnx/convert.py"],
     [("containment", "tf2onnx/optimizer/__init__.py: optimize_graph; tf2onnx/optimizer/optimizer_base.py"), ("which errors", "tf2onnx/convert.py: _convert_common"), ("entry points", "tf2onnx/graph.py: GraphUtil.optimize_model_proto, optimize_graph")],
     note=NOTE)

prop("C22", "Models with external tensor storage are the models without it",
     "A conversion with large_model stores the data of every numeric tensor above the size threshold outside the model, completely and under a name of its own, wherever the tensor is (branches, loops, functions, outputs, shared or equally named constants), and every reference in the model has its data. "
     "Saved as a zip or a folder and loaded again, the model has the interface of the model converted without large_model and computes what TensorFlow computes; model_proto_from_zip and save_onnx_model give the same.",
     ["programs", "inputs", "configurations"],
     "sizes around each threshold x 9 element types x 15 or more places of a constant x entry points (function, graph, Keras) x opset; names shared between the main graph and functions",
     "The tests convert one large model of one shape; the data takes three hand-overs (frozen graph, graph, zip), each keyed by names.",
     ["tf2onnx/convert.py", "tf2onnx/utils.py", "tf2onnx/tf_utils.py", "tf2onnx/tf_loader.py", "tf2onnx/graph.py"],
     [("compressing", "tf2onnx/tf_utils.py: compress_graph_def"), ("storage", "tf2onnx/graph.py: ExternalTensorStorage, make_onnx_tensor"), ("zip", "tf2onnx/utils.py: save_onnx_zip, model_proto_from_zip")],
     note=NOTE)

prop("C24", "A conversion depends on its arguments only",
     "The model a conversion gives is the same, up to generated inner names and orders without meaning, whatever was converted before in the process - successfully or not, with any options, custom operators, handlers, rewriters, targets or opsets - and whatever the process and its hash seed. "
     "A conversion leaves the arguments of its caller as they were.",
     ["histories", "configurations"],
     "an alphabet of 41 conversions over all entry points and options (21 quick); walks over every ordered pair, every step compared with a fresh process; thorough: also every pair and triple in a process of its own; several hash seeds",
     "Registries, function tables, counters and caches are process-wide; a test runs one conversion, or the same few in one order.",
     ["tf2onnx/convert.py", "tf2onnx/tfonnx.py", "tf2onnx/handler.py", "tf2onnx/utils.py", "tf2onnx/onnx_opset/controlflow.py"],
     [("custom operators", "tf2onnx/tfonnx.py: process_parsed_graph"), ("functions", "tf2onnx/utils.py, tf2onnx/tf_loader.py: set_function, find_function, clear_functions"), ("registry", "tf2onnx/handler.py"), ("schemas", "tf2onnx/schemas.py")],
     note=NOTE)

prop("C26", "Custom operators, handlers and rewriters apply everywhere; failures always show",
     "A custom op handler is called for every operator of its type, wherever it is (top level, branches, loops and their conditions, nested, TF1 or TF2 control flow), with the documented type and arguments, and what it builds is what the model computes; operators given a custom domain keep type, inputs, outputs and domain everywhere; custom rewriters see every graph, in order; of registered handler versions the highest one up to the opset of its domain is used. "
     "An error of a handler or rewriter, at any call and in any graph, reaches the caller unless continue_on_error is set. "
     "With continue_on_error the conversion goes on, and what could not be converted stays visibly unconverted: the model never loads and computes something else.",
     ["crash points", "programs", "configurations"],
     "13 places of an operator x entry points x 7 ways of extending; every call of a handler or rewriter as the failing one, both modes; all subsets of four versions x opsets 8-18 x domain levels; every program the other checks know to be refused, converted with continue_on_error (quick: one per family)",
     "Tests use one custom op at the top level; bodies of loops and branches are converted by other code, and errors there are never provoked.",
     ["tf2onnx/tfonnx.py", "tf2onnx/convert.py", "tf2onnx/handler.py", "tf2onnx/onnx_opset/controlflow.py"],
     [("handlers", "tf2onnx/tfonnx.py: process_parsed_graph, tensorflow_onnx_mapping"), ("rewriters", "tf2onnx/tfonnx.py: run_rewriters"), ("versions", "tf2onnx/handler.py: create_mapping"), ("bodies", "tf2onnx/onnx_opset/controlflow.py: prefix_graph, inline_subgraph")],
     note=NOTE)

prop("C25", "The command line converts what it is given as it is told",
     "For every source (frozen graph, checkpoint, TF1 or TF2 saved model, Keras file, TFLite file) and every combination of the options for inputs, outputs, input shapes, renaming, layouts, defaults, signature, tag, concrete function, opset, extra opsets, custom operators, large model, target and verbosity, the command writes a model with exactly the requested interface, order, names, shapes, opsets and storage, which computes what TensorFlow computes. "
     "output_frozen_graph writes a graph that computes the same. "
     "An invalid command line ends with a nonzero status and writes no model.",
     ["configurations", "programs", "inputs"],
     "about 600 (thorough 6100) command lines: all selections x all pairs (thorough: triples) of options over 7 sources, 20 invalid ones",
     "The tests call the API with fixed arguments; parsing, loading and passing on each option are exercised by hand-run scripts only.",
     ["tf2onnx/convert.py", "tf2onnx/tf_loader.py", "tf2onnx/utils.py", "tf2onnx/tf_utils.py"],
     [("parsing", "tf2onnx/convert.py: get_args; tf2onnx/utils.py: split_nodename_and_shape"), ("main", "tf2onnx/convert.py: main"), ("loading", "tf2onnx/tf_loader.py: from_graphdef, from_checkpoint, from_saved_model, from_keras")],
     note=NOTE)

prop("C28", "The flexbuffer reader returns the value that was written",
     "For every valid flexbuffer - any nesting of null, booleans, integers, floats, keys, strings, blobs, vectors, typed and fixed-size vectors and maps, of every width, inline or indirect, with or without shared keys and strings - read_flexbuffer returns the value that the reference implementation wrote, with text decoded or left as bytes as asked.",
     ["inputs", "configurations"],
     "every tree of up to 3 children and depth 3 (thorough: 4) over 100 leaves that reach every type and width boundary, every width, typed and fixed vector, sizes across 2^8 and 2^16, all four sharing options",
     "The tests decode a handful of buffers; offsets, widths and lengths have boundaries at 2^8, 2^16 and 2^32 that only appear in particular combinations of siblings.",
     ["tf2onnx/flexbuffers.py"],
     [("reader", "tf2onnx/flexbuffers.py: read_buffer, read_flexbuffer"), ("users", "tf2onnx/tflite_utils.py: custom options of TFLite operators")],
     note=NOTE)

prop("C27", "Rewriters replace only what their replacement computes",
     "Wherever a rewriter (thresholded relu, leaky relu, flatten, transpose, eye, fused operators, convolution with pad or bias, layer normalization, random distributions, dropout, gemm, constant folding) finds its pattern, the operators it emits compute what the matched TensorFlow nodes compute. "
     "A graph that differs from the pattern in operators, order of operands, constants, attributes, types, shapes or in who else uses an intermediate result still converts to a model that computes the same as TensorFlow, whether or not intermediate results are outputs.",
     ["programs", "inputs", "configurations"],
     "every pattern and all its neighbours at distance 2 (quick: 10 000 graphs; thorough: distance 3, 64 000 graphs), each with and without its results as direct outputs, two or three opsets",
     "Tests feed each rewriter the pattern it expects; a rewriter that matches too much changes the results of graphs that merely resemble it.",
     ["tf2onnx/rewriter/", "tf2onnx/graph_matcher.py", "tf2onnx/graph.py"],
     [("rewriters", "tf2onnx/rewriter/*.py"), ("matching", "tf2onnx/graph_matcher.py: GraphMatcher.match_ops"), ("removal", "tf2onnx/graph.py: safe_remove_nodes")],
     note=NOTE)

prop("C31", "Converting for a target keeps the meaning of the model",
     "For every target (rs4, rs5, rs6, caffe2, tensorrt, nhwc) and combination of targets, a model converted for it computes what TensorFlow computes, integers beyond the precision of float32 excepted for rs5 and rs6. "
     "With rs5 and rs6 the operators that these runtimes support for floats only get float data, with nhwc every operator that has a channels-last form is emitted in that form.",
     ["configurations", "programs", "inputs"],
     "one program per operator family of nine other checks (thorough: three) x every target (thorough: and four pairs) x opsets 18 and 10 or 11 (thorough: 9, 12, 15, 18)",
     "The tests run with no target; code for targets inserts casts and transposes around every operator and only interaction with particular operators shows mistakes.",
     ["tf2onnx/tfonnx.py", "tf2onnx/late_rewriters/channel_order_rewriters.py", "tf2onnx/optimizer/transpose_optimizer.py"],
     [("casts", "tf2onnx/tfonnx.py: rewrite_incomplete_type_support"), ("channels", "tf2onnx/late_rewriters/channel_order_rewriters.py: rewrite_channels_last"), ("targets", "tf2onnx/graph.py: is_target")],
     note=NOTE)

prop("C33", "A TensorFlow.js model and its frozen graph mean the same after conversion",
     "A model.json in the graph-model format, with its sharded and optionally quantized or float16 weights, its library of functions and the operators that the TensorFlow.js converter fuses, converts to an ONNX model that computes what the TensorFlow graph it was exported from computes (with the weights that the file encodes). "
     "Inputs and outputs are those of the signature or of the graph, and weights are found whatever the number, order and size of groups and shards.",
     ["programs", "inputs", "configurations"],
     "600 models (14 ways to write the file x fused operators with every activation, layout, padding and stride; weights of every type, quantization and sharding; functions for conditions and loops) and 800 operator programs of nine other checks, thorough: three times as many and opsets 9 to 18",
     "The repository has no unit test that converts a TensorFlow.js model offline; fused operators, dequantization and output names of functions only occur there.",
     ["tf2onnx/tfjs_utils.py", "tf2onnx/convert.py", "tf2onnx/onnx_opset/nn.py"],
     [("reader", "tf2onnx/tfjs_utils.py: read_tfjs_graph, read_tfjs_weight, read_tfjs_function"), ("fused operators", "tf2onnx/tfjs_utils.py, tf2onnx/onnx_opset: _Fused*, Prelu"), ("api", "tf2onnx/convert.py: _from_tfjs via --tfjs")],
     note=NOTE)
