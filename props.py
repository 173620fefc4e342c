"""The properties and the manifest, in one place.  `python3 props.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, level="exploration", technique="", note="", **anchors):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    a.update(anchors)
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors=a, _level=level, _technique=technique, _note=note))


SAMPLE = ("The unit tests check one or two hand picked graphs per operator (one dtype, one shape, usually static, one opset); "
          "the guarantee is about every attribute / shape / dtype / opset combination.")
OPTECH = ("bounded exhaustive enumeration of single-operator programs: every case is built in TensorFlow, converted by the real code, "
          "run by onnxruntime and compared with TensorFlow")
NOTE = ("Explicit-state style exhaustive exploration of the program space within the stated bounds, on the real converter (no model); "
        "not proved beyond the bounds; numeric equality up to float tolerance; TensorFlow CPU kernels and onnxruntime are trusted.")

prop("C01", "Elementwise operators compute what TensorFlow computes",
     "A converted model made of elementwise operators (arithmetic, comparison, logical, bitwise, rounding, activation, cast, select, clip) gives, for every input, "
     "the values, dtype and shape TensorFlow gives, including broadcasting, negative and zero operands, infinities, nan and empty tensors. "
     "It holds for every numeric dtype the operator accepts, for constant and run-time operands, for static and unknown shapes, and at every opset at which the conversion is accepted; "
     "a program may be declined with an error, but never converted into one that answers differently.",
     ["inputs", "programs", "configurations"],
     "every unary/binary elementwise operator x dtype x broadcast pattern x (static, dynamic, left/right constant) x opset; every pair of dtypes for casts; every chain of two elementwise operators",
     SAMPLE, ["tf2onnx/onnx_opset/math.py", "tf2onnx/onnx_opset/common.py", "tf2onnx/onnx_opset/logical.py", "tf2onnx/onnx_opset/tensor.py", "tf2onnx/onnx_opset/nn.py", "tf2onnx/rewriter"],
     [("operator handlers", "tf2onnx/onnx_opset/math.py"), ("broadcast and dtype casts", "tf2onnx/onnx_opset/common.py"), ("leaky relu / threshold / cond rewriters", "tf2onnx/rewriter")],
     technique=OPTECH, note=NOTE)

prop("C02", "Reductions, scans, arg/top-k and segment sums agree with TensorFlow",
     "A converted reduction, cumulative, arg-max/min, top-k or segment operator gives TensorFlow's result for every choice of axes (negative, repeated order, empty, all, run-time), keep-dims, exclusive/reverse flag, "
     "segment layout (empty, missing and negative segments), dtype and opset for which the conversion is accepted. "
     "The result has TensorFlow's rank and shape also when the input has dimensions of size one or zero or of unknown size.",
     ["inputs", "programs", "configurations"],
     "every reduction operator x every subset of axes of shapes up to rank 3 x keep_dims x constant/unknown shape x dtype x opset; every segment id vector up to the bound",
     SAMPLE, ["tf2onnx/onnx_opset/reduction.py", "tf2onnx/onnx_opset/math.py", "tf2onnx/onnx_opset/tensor.py"],
     [("reduction handlers", "tf2onnx/onnx_opset/reduction.py"), ("segment handlers", "tf2onnx/onnx_opset/reduction.py"), ("cumulative operators, top-k", "tf2onnx/onnx_opset/math.py, tensor.py")],
     technique=OPTECH, note=NOTE)

prop("C03", "Slicing, gathering and scattering select exactly TensorFlow's elements",
     "A converted slice, strided slice, gather, scatter, one-hot, split, unstack, dynamic partition/stitch or where operator reads and writes exactly the elements TensorFlow does, in the same order. "
     "It holds for every begin/end/stride combination and mask, for negative, out-of-range (where TensorFlow defines them) and duplicate indices, for every axis and batch dimension, for constant and run-time parameters and at every opset at which the conversion is accepted.",
     ["inputs", "programs", "configurations"],
     "every begin/end/stride in a range around the dimension x every mask; every mask of rank 2-3 specifications; every index vector up to the bound x axis x batch dims x opset",
     SAMPLE, ["tf2onnx/onnx_opset/tensor.py"],
     [("StridedSlice", "tf2onnx/onnx_opset/tensor.py"), ("Gather*, Scatter*", "tf2onnx/onnx_opset/tensor.py"), ("OneHot, Split, DynamicStitch/Partition", "tf2onnx/onnx_opset/tensor.py")],
     technique=OPTECH, note=NOTE)

prop("C04", "Reshaping, transposing, padding and diagonal operators agree with TensorFlow",
     "A converted shape-manipulating operator (reshape, transpose, expand/squeeze, tile, pad, concat, pack, broadcast, reverse, roll, space/batch/depth rearrangements, fill, range, band-part, diagonal operators, sparse/unique/set operators) "
     "yields the tensor TensorFlow yields, element for element and with the same shape and dtype. "
     "It holds for every parameter value including -1 and negative axes, zero-sized dimensions, constant and run-time parameters, static and unknown shapes, and every opset at which the conversion is accepted.",
     ["inputs", "programs", "configurations"],
     "every permutation, padding, axis, block size and diagonal range up to the bound x dtype x static/dynamic shape x opset",
     SAMPLE, ["tf2onnx/onnx_opset/tensor.py", "tf2onnx/onnx_opset/nn.py", "tf2onnx/onnx_opset/generator.py", "tf2onnx/optimizer/reshape_optimizer.py"],
     [("tensor handlers", "tf2onnx/onnx_opset/tensor.py"), ("Pad", "tf2onnx/onnx_opset/nn.py"), ("MatrixDiag*/MatrixBandPart", "tf2onnx/onnx_opset/nn.py, tensor.py"), ("Reshape simplification", "tf2onnx/optimizer/reshape_optimizer.py")],
     technique=OPTECH, note=NOTE)

prop("C05", "Convolution and pooling agree with TensorFlow for every geometry",
     "A converted convolution (2-D, 3-D, depthwise, transposed, dilated), pooling, bias or image-patch operator computes TensorFlow's result for every combination of kernel size, stride, dilation, padding scheme, data format, batch and channel count. "
     "It holds for known and unknown batch and spatial sizes, for constant and run-time kernels, for odd and even sizes, and at every opset at which the conversion is accepted.",
     ["inputs", "programs", "configurations"],
     "all combinations of two input sizes, five kernel sizes, strides, dilations, SAME/VALID/explicit paddings, NHWC/NCHW and shape knowledge",
     SAMPLE, ["tf2onnx/onnx_opset/nn.py", "tf2onnx/rewriter/conv2d_with_pad_rewriter.py", "tf2onnx/rewriter/conv_dilations_rewriter.py", "tf2onnx/optimizer/transpose_optimizer.py"],
     [("padding computation", "tf2onnx/onnx_opset/nn.py"), ("layout conversion", "tf2onnx/onnx_opset/nn.py"), ("pad and dilation fusion", "tf2onnx/rewriter/conv2d_with_pad_rewriter.py, conv_dilations_rewriter.py")],
     technique=OPTECH, note=NOTE)

prop("C06", "Normalisation, softmax, loss, resize and image operators agree with TensorFlow",
     "A converted batch/local/L2 normalisation, softmax, cross entropy, resize, crop, colour or greedy CTC operator computes TensorFlow's result for every axis, rank, epsilon, scale, target size, alignment flag, interpolation method and box. "
     "It holds for static and unknown shapes and at every opset at which the conversion is accepted.",
     ["inputs", "programs", "configurations"],
     "every resize source/target size pair in the bound x method x align_corners/half_pixel x opset; every softmax axis and rank; every argmax path of the CTC decoder over 3 classes and 3 frames",
     SAMPLE, ["tf2onnx/onnx_opset/nn.py", "tf2onnx/onnx_opset/math.py", "tf2onnx/rewriter/layer_normalization_rewriter.py"],
     [("Softmax/LogSoftmax/CrossEntropy", "tf2onnx/onnx_opset/math.py, nn.py"), ("Resize, CropAndResize", "tf2onnx/onnx_opset/nn.py"), ("FusedBatchNorm", "tf2onnx/onnx_opset/nn.py"), ("layer normalisation fusion", "tf2onnx/rewriter/layer_normalization_rewriter.py")],
     technique=OPTECH, note=NOTE)

prop("C07", "Matrix products, einsum and linear algebra agree with TensorFlow",
     "A converted matrix product (with every transposition, batch broadcast, scale and bias, fused or not), tensordot, einsum over any equation, determinant, inverse or norm computes TensorFlow's result. "
     "It holds for every operand rank and broadcast pattern, for static and unknown shapes, for numeric dtypes and at every opset at which the conversion is accepted.",
     ["inputs", "programs", "configurations"],
     "every einsum equation over at most three letters and two operands of rank at most 3, both as converted and as simplified; every transposition flag x bias/scale shape; every batch-shape pair in the bound",
     SAMPLE, ["tf2onnx/onnx_opset/math.py", "tf2onnx/rewriter/gemm_rewriter.py", "tf2onnx/optimizer/einsum_optimizer.py"],
     [("MatMul handlers", "tf2onnx/onnx_opset/math.py"), ("gemm fusion", "tf2onnx/rewriter/gemm_rewriter.py"), ("einsum decomposition", "tf2onnx/optimizer/einsum_optimizer.py")],
     technique=OPTECH, note=NOTE)

prop("C08", "Converted conditionals, loops and tensor lists follow TensorFlow's control flow",
     "A converted program with conditionals (tf.cond, switch/merge, case), loops (while, map, scan, fold), nested control flow, tensor arrays/lists or function calls produces TensorFlow's outputs for every branch decision and every number of iterations, including zero. "
     "State carried around a loop, values captured from outside, and values only read in one branch are never mixed up.",
     ["inputs", "programs", "histories"],
     "every program in a family of structured control-flow skeletons up to nesting depth 2, for every branch decision and trip count up to 3-4",
     "Tests run one trip count and one branch of a few loops; the guarantee is about every path through every nesting.",
     ["tf2onnx/onnx_opset/controlflow.py", "tf2onnx/rewriter/loop_rewriter.py", "tf2onnx/rewriter/loop_rewriter_base.py", "tf2onnx/rewriter/cond_rewriter.py", "tf2onnx/tf_loader.py"],
     [("If/While handlers", "tf2onnx/onnx_opset/controlflow.py"), ("v1 cond/loop rewriters", "tf2onnx/rewriter/cond_rewriter.py, loop_rewriter.py"), ("loop optimizer", "tf2onnx/optimizer/loop_optimizer.py")],
     technique="bounded exhaustive exploration of control-flow programs and of all their paths: every skeleton is converted by the real code and every branch decision / trip count up to the bound is executed on both sides", note=NOTE)

prop("C09", "Recurrent layers keep TensorFlow's step by step semantics",
     "A converted recurrent network (LSTM, GRU, simple RNN, custom loops, bidirectional and stacked; Keras or graph mode) gives TensorFlow's output sequence and final states. "
     "It holds for every cell option (activations, biases, reset-after, peepholes, forget bias, clipping, masking, go-backwards, time-major), initial state, batch and sequence length, known or unknown, whether or not the converter fuses the loop into a single operator.",
     ["inputs", "programs", "histories"],
     "all combinations of cell type and options, batch sizes, time steps 1-3, sequence-length vectors and initial states in the bound",
     "Each test fixes one option set and one length; fused and unfused paths must agree for all.",
     ["tf2onnx/rewriter/lstm_rewriter.py", "tf2onnx/rewriter/gru_rewriter.py", "tf2onnx/rewriter/lstm_tf2_rewriter.py", "tf2onnx/rewriter/gru_tf2_rewriter.py", "tf2onnx/rewriter/rnn_utils.py", "tf2onnx/rewriter/bilstm_rewriter.py", "tf2onnx/onnx_opset/rnn.py"],
     [("loop pattern recognition", "tf2onnx/rewriter/unit_rnn_rewriter_base.py, rnn_utils.py"), ("gate order and weight packing", "tf2onnx/rewriter/lstm_rewriter.py, gru_rewriter.py"), ("bidirectional merge", "tf2onnx/rewriter/bilstm_rewriter.py, bigru_rewriter.py")],
     technique="bounded exhaustive exploration of recurrent programs: every option combination is converted by the real code and stepped on both sides for every length vector in the bound", note=NOTE)

NOT_APPLICABLE = []


def extra():
    path = os.path.join(HERE, "props_more.py")
    if os.path.exists(path):
        exec(compile(open(path).read(), path, "exec"), globals())  # pylint: disable=exec-used


def main():
    extra()
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, (p["id"], p["statement"])
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        c = {"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
             "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]}
        checks.append(c)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
