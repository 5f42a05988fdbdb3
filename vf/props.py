"""The property list: one source for properties.jsonl and MANIFEST.json (run: python3 vf/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMD = "/opt/venv/bin/python /verif/vf/run.py %s %s"

TESTS = ("The suite converts a fixed list of models at one opset and compares one random input each; "
         "it samples ")


def P(id, title, statement, over, text, why, files, mech):
    mech = [dict(name=m, where=files[min(i, len(files) - 1)]) for i, m in enumerate(mech)]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=mech))


O = "tf2onnx/optimizer/"
H = "tf2onnx/onnx_opset/"
R = "tf2onnx/rewriter/"
PROPS = [
    P("P01", "Moving and cancelling transposes never changes what a model computes",
      "For every valid model, the pass that pushes, merges and cancels transposes returns a model that accepts the same inputs and "
      "computes the same outputs, with the same shapes and element types, for all input values. Constants, weights and axes that other "
      "nodes share keep their values for those nodes.",
      ["programs", "inputs"], "every model around a transpose (op kinds, axes, constants of every broadcastable shape, sharing, "
      "subgraphs, opsets) and every input value",
      TESTS + "a few hand-written transpose patterns of rank 4/5 and one random tensor each, never shared or odd-rank operands at older opsets.",
      [O + "transpose_optimizer.py"], ["push rules per operator", "axis/pad/permutation arithmetic", "folding into convolution weights and bias"]),
    P("P02", "Merging adjacent operators preserves values and types",
      "Merging or dropping consecutive casts, transposes, reshapes, squeezes/unsqueezes and folding a batch normalisation into the "
      "preceding convolution never changes the values, shapes or element types the model produces.",
      ["programs", "inputs"], "every chain of the mergeable operators (types, axes, targets, bias, groups, sharing) and all input values",
      TESTS + "one instance of each pair; type chains that lose precision, zero/-1 reshape targets and shared tensors are not enumerated.",
      [O + "back_to_back_optimizer.py"], ["pairwise merge rules", "batch-norm folding arithmetic"]),
    P("P03", "Constant folding computes exactly what the operators would compute at run time",
      "Replacing operators on constants by their precomputed result gives the value, shape and element type that the operator itself "
      "would produce at run time under the model's opset. Folding never touches values that depend on an input and never corrupts "
      "a constant used elsewhere.",
      ["programs", "inputs"], "every foldable operator with every attribute combination, constant value and opset",
      TESTS + "one constant per operator, checked at one opset.",
      [O + "const_fold_optimizer.py", R + "../tf_utils.py"], ["per-operator folding functions", "constant propagation to a fixed point"]),
    P("P04", "Quantise/dequantise rearrangement preserves quantised results",
      "Moving, removing or merging quantise/dequantise pairs and folding dequantised constants leaves the numbers the model produces "
      "unchanged: scale, zero point and channel axis always stay matched with the tensor dimension they belong to.",
      ["programs", "inputs"], "every placement of quantise/dequantise pairs around reshaping, layout, pooling and joining operators, "
      "per-tensor and per-channel, and all input values",
      TESTS + "a handful of quantised graphs with one random input; off-by-one-axis errors cancel for equal scales.",
      [O + "q_dq_optimizer.py", O + "const_dequantize_optimizer.py"], ["pair motion rules", "axis recomputation across reshape/transpose"]),
    P("P05", "Clean-up passes (identity, duplicate, reshape, loop, pooling...) are neutral",
      "Removing identities, sharing duplicate nodes, simplifying reshapes, moving transposes out of loops, turning full-extent pooling "
      "into global pooling and dropping no-op upsampling never changes what the model computes or the names it exposes.",
      ["programs", "inputs"], "every model with the targeted patterns, including graph outputs, subgraphs and shared consumers, all input values",
      TESTS + "one or two graphs per pass.",
      [O + "identity_optimizer.py", O + "merge_duplicated_nodes_optimizer.py", O + "reshape_optimizer.py", O + "loop_optimizer.py",
       O + "global_pool_optimizer.py", O + "upsample_optimizer.py"], ["duplicate key construction", "output renaming", "loop scan-output rewiring"]),
    P("P06", "Decomposing einsum preserves the contraction",
      "Rewriting an einsum operator into elementary operators computes the same tensor for every valid equation and every operand value.",
      ["programs", "inputs"], "every two-to-three operand equation up to a size bound, and all operand values",
      TESTS + "a list of equations with random operands.",
      [O + "einsum_optimizer.py"], ["equation parsing", "label ordering, diagonal, reduction and matmul rewriting"]),
    P("P07", "A converted model keeps the requested interface",
      "A converted model exposes exactly the requested inputs and outputs, in the requested order, under the requested names, with the "
      "source graph's element types, and any dimension it declares as fixed is the dimension every run really has. This holds with and "
      "without optimisation and with shape overrides.",
      ["programs", "configurations", "inputs"], "every graph, requested input/output list (permuted, duplicated, intermediate tensors, "
      "inputs that are outputs), shape override and opset",
      TESTS + "single-output graphs with conventional names.",
      ["tf2onnx/tfonnx.py", "tf2onnx/convert.py", "tf2onnx/graph.py"], ["output identities", "name restoration after optimisation", "shape override"]),
    P("P08", "Every emitted graph is well formed",
      "The emitted graph, and each nested body, lists nodes after all producers of their inputs, defines every name once, and contains "
      "everything the outputs depend on. Ordering a graph with a cycle is reported as an error rather than emitted.",
      ["programs", "histories"], "every directed graph of nodes up to a size bound, including nested bodies and implicit captures",
      TESTS + "well-behaved graphs whose creation order is already almost topological.",
      ["tf2onnx/graph.py"], ["topological sort", "unused node removal", "graph serialisation"]),
    P("P09", "Editing a graph keeps producers, consumers, shapes and types consistent",
      "After any sequence of node insertions, replacements, removals and input rewirings, looking up who produces or consumes a tensor "
      "gives exactly the answer that reading all nodes and nested bodies gives, and no node refers to a removed producer.",
      ["histories"], "every bounded sequence of graph edit operations on small graphs with nested bodies",
      TESTS + "whatever edit sequences the converters happen to issue.",
      ["tf2onnx/graph.py"], ["consumer index", "nested graph index", "insert/replace/remove operations"]),
    P("P10", "Generated operators are legal for the requested opset",
      "Every operator that conversion emits exists in the target opset, with only the inputs and attributes and element types that "
      "version of the operator accepts; otherwise conversion reports the operator as unsupported.",
      ["programs", "configurations"], "every supported source operator, element type and target opset",
      TESTS + "one opset (18); the supported range is far wider.",
      ["tf2onnx/handler.py", "tf2onnx/graph_builder.py", H], ["version dispatch", "input-versus-attribute selection by opset"]),
    P("P11", "Static shape reasoning never contradicts run-time shapes",
      "Whenever shape merging, broadcasting or inference states a dimension, every execution has that dimension; unknown stays unknown "
      "and genuinely incompatible shapes are never silently combined.",
      ["inputs", "programs"], "all shapes up to a rank bound with arbitrary dimension sizes and unknown dimensions",
      TESTS + "a few concrete shapes.",
      ["tf2onnx/shape_inference.py", "tf2onnx/schemas.py", "tf2onnx/utils.py"], ["dimension merging", "broadcast rule", "per-op inference"]),
    P("P12", "Slicing is converted exactly",
      "Slice, strided slice (with every begin, end, ellipsis, new-axis and shrink mask), split, unpack and reverse operators select "
      "exactly the elements the source framework selects, for every index including negative, out-of-range and run-time ones.",
      ["programs", "inputs"], "every index, stride and mask combination up to a rank/size bound, constant or run-time",
      TESTS + "some dozens of index combinations.",
      [H + "tensor.py"], ["strided-slice mask arithmetic", "sentinel ends", "run-time index computation"]),
    P("P13", "Convolution and pooling are converted exactly",
      "Convolutions (plain, depthwise, transposed, 1-3 dimensional, strided, dilated) and pooling with every padding mode and data "
      "layout compute the same numbers after conversion, also when spatial sizes are only known at run time.",
      ["programs", "inputs"], "kernel, stride, dilation, padding, layout and size combinations within a bound, all tensor values",
      TESTS + "a fixed grid of sizes.",
      [H + "nn.py", H + "common.py"], ["padding computation", "layout conversion of weights and data", "output shape handling"]),
    P("P14", "Reductions, sorting and cumulative operators are converted exactly",
      "Reductions, arg-reductions, cumulative sums, softmax, top-k, segment reductions and norms give the source framework's result for "
      "every axis (negative, multiple, empty, run-time), keep-dims setting and input value.",
      ["programs", "inputs"], "axes, keep-dims, tie-breaking, segment ids and opsets within bounds; all tensor values",
      TESTS + "a few axes with random data without ties.",
      [H + "reduction.py", H + "tensor.py", H + "nn.py"], ["axis normalisation", "keep-dims defaults", "segment-to-scatter rewriting"]),
    P("P15", "Elementwise arithmetic, comparison and logic are converted exactly",
      "Every arithmetic, comparison, logical, bitwise and selection operator, including integer division and modulo with negative "
      "operands and broadcasting between ranks, produces the source framework's value and type for all operands.",
      ["programs", "inputs"], "operators, element types, broadcast shapes and opsets; all operand values (divisor non-zero)",
      TESTS + "positive or small random operands.",
      [H + "math.py", H + "tensor.py"], ["integer fallback via casts", "floor/truncate emulation", "broadcast handling"]),
    P("P16", "Gather, scatter and one-hot operators address the right elements",
      "Gathering, scattering, one-hot, sequence masks and index conversions read and write exactly the elements the source framework "
      "addresses, including batch dimensions, negative axes and repeated indices.",
      ["programs", "inputs"], "shapes, axes, batch dims and every in-range index assignment within bounds",
      TESTS + "distinct random indices.",
      [H + "tensor.py"], ["batch-dim index construction", "accumulation for repeated indices", "one-hot depth/axis"]),
    P("P17", "Shape and layout operators move every element to the right place",
      "Reshape, transpose, concat, pack, tile, pad, space/depth/batch conversions, roll, broadcast, expand, matrix band/diagonal operators "
      "place every element where the source framework places it, for static and run-time shapes.",
      ["programs", "inputs"], "shapes, axes, paddings, modes and block sizes within bounds, all element values",
      TESTS + "single example shapes.",
      [H + "tensor.py", H + "nn.py"], ["run-time shape arithmetic", "pad mode mapping", "block permutation"]),
    P("P18", "Matrix products and contractions are converted exactly",
      "Matrix multiplication with every transpose/adjoint flag, batch broadcasting, bias addition, einsum and linear-algebra helpers "
      "compute the same product after conversion.",
      ["programs", "inputs"], "flags, ranks, batch shapes, equations within bounds, all operand values",
      TESTS + "a few shape pairs.",
      [H + "math.py", H + "nn.py", R + "gemm_rewriter.py"], ["transpose flag handling", "gemm pattern fusion"]),
    P("P19", "Recognising and replacing operator patterns preserves meaning",
      "When conversion recognises a multi-operator pattern (dropout, flatten, leaky relu, thresholded relu, layer norm, gemm, "
      "eye, random, quantisation, ...) the replacement computes what the original operators compute; look-alikes with other "
      "constants, axes or shared intermediates are not replaced wrongly.",
      ["programs", "inputs"], "each pattern and near-miss variant (constants, axes, operand order, extra consumers), all input values",
      TESTS + "the positive instance of each pattern.",
      [R], ["pattern matching", "captured constants checks"]),
    P("P20", "Recurrent cells keep their recurrence",
      "LSTM, GRU and plain RNN layers, in loop or fused form, one- or bidirectional, with initial state and sequence lengths, produce the "
      "same outputs and final states at every step after conversion.",
      ["programs", "inputs"], "cell kinds, biases, activations, directions and up to a bounded number of steps and units, all weights and inputs",
      TESTS + "trained-like random weights with loose tolerances.",
      [R + "lstm_rewriter.py", R + "gru_rewriter.py", R + "lstm_tf2_rewriter.py", R + "bilstm_rewriter.py"], ["gate reordering", "bias splitting", "state wiring"]),
    P("P21", "Branches and loops keep their control flow",
      "Conditionals and while loops (nested, with captured tensors, accumulated tensor lists and zero iterations) take the same branch and "
      "run the same number of iterations with the same loop variables after conversion.",
      ["programs", "inputs"], "condition and trip-count expressions over run-time values up to a bounded iteration count",
      TESTS + "one taken path per test.",
      [H + "controlflow.py", R + "cond_rewriter.py", R + "loop_rewriter.py"], ["condition inlining", "loop state and scan output wiring", "body capture"]),
    P("P22", "Custom-option buffers decode to the encoded value",
      "Every well-formed schema-less binary option buffer decodes to the value it encodes, for every type, width and nesting.",
      ["inputs"], "all buffers of the format up to a bounded length",
      TESTS + "a few encoded examples.",
      ["tf2onnx/flexbuffers.py"], ["width and offset arithmetic", "typed vectors and maps"]),
    P("P23", "TFLite models convert to models with the same meaning",
      "Converting a TFLite flatbuffer gives a model that computes what the flatbuffer computes, including fused activations, "
      "quantisation parameters and TFLite-specific operators.",
      ["programs", "inputs"], "TFLite operator instances within bounds, all input values",
      TESTS + "the same fixed list of models in TFLite form.",
      ["tf2onnx/tflite_utils.py", "tf2onnx/tflite_handlers/", R + "../tflite_rewriters/"], ["fused activation", "operator renaming", "dequantise insertion"]),
    P("P24", "Command-line names and shapes are parsed faithfully",
      "Splitting a list of tensor names with optional bracketed shapes returns exactly the names and dimensions written, for any "
      "number of entries, with negative meaning unknown, and adding or stripping port numbers is consistent.",
      ["inputs"], "all name/shape lists up to a bounded length and any dimension value",
      TESTS + "two or three strings.",
      ["tf2onnx/utils.py", "tf2onnx/convert.py"], ["bracket-aware splitting", "port handling"]),
    P("P25", "Large-tensor storage keeps every constant intact",
      "Saving a model with externally stored constants and loading it back gives every constant its own exact bytes, whatever the "
      "number, sizes, names and sharing of constants, and small constants stay inside the model.",
      ["inputs", "programs"], "all sets of constants up to a bound, any sizes around the threshold",
      TESTS + "one model saved once.",
      ["tf2onnx/graph.py", "tf2onnx/utils.py"], ["size threshold", "unique storage name", "cache of stored constants"]),
    P("P26", "Channel-first inputs and outputs are transposed exactly once",
      "Requesting channel-first inputs or outputs yields a model that equals the source model composed with the corresponding layout "
      "permutation on exactly the named tensors, with declared shapes permuted alike.",
      ["programs", "configurations", "inputs"], "which inputs/outputs are listed, shared uses, static or unknown dims, all values",
      TESTS + "one conv model.",
      ["tf2onnx/tfonnx.py"], ["input/output transposition"]),
    P("P27", "The handler chosen for an opset is the newest one not exceeding it",
      "For every source operator and requested opset, conversion uses the implementation registered for the highest version that does "
      "not exceed the request, per domain, and none if all are newer.",
      ["configurations"], "every registered operator and every requested opset, arbitrary registrations",
      TESTS + "the one opset the suite runs.",
      ["tf2onnx/handler.py", "tf2onnx/schemas.py"], ["handler table construction", "schema lookup"]),
    P("P28", "Pattern matching binds only real occurrences",
      "A graph pattern matches a node exactly when the node and its producers have the required types, arity and connections, with "
      "commuted operands tried where allowed, and every binding refers to the node that really occupies that place.",
      ["programs"], "all patterns and graphs up to a size bound",
      TESTS + "patterns used by the rewriters on matching graphs.",
      ["tf2onnx/graph_matcher.py"], ["operand permutation search", "backtracking of bindings"]),
    P("P29", "Element types map one-to-one between frameworks",
      "Mapping an element type between the source framework, numpy and the model format and back returns the same type, and never "
      "changes width or signedness.",
      ["inputs"], "all element types",
      TESTS + "the types that occur in test models.",
      ["tf2onnx/utils.py", "tf2onnx/tf_utils.py", "tf2onnx/tflite_utils.py"], ["type tables"]),
    P("P30", "Resizing and image operators sample the right pixels",
      "Nearest, bilinear and bicubic resizing with every corner-alignment and half-pixel setting, and crop-and-resize, sample the "
      "source framework's pixels with its weights, for static and run-time sizes.",
      ["programs", "inputs"], "sizes, scale factors, modes and opsets within bounds, all pixel values",
      TESTS + "one or two integer upscales per mode.",
      [H + "nn.py"], ["coordinate transformation choice", "scale computation"]),
    P("P31", "Normalisation and loss operators are converted exactly",
      "Batch, layer, local-response and L2 normalisation, moments, and softmax cross-entropy losses compute the source framework's "
      "values in inference mode for every layout and epsilon.",
      ["programs", "inputs"], "layouts, epsilons, window sizes, shapes within bounds, all values (variance non-negative)",
      TESTS + "one configuration each.",
      [H + "nn.py", R + "layer_normalization_rewriter.py"], ["parameter shape/broadcast handling", "window arithmetic"]),
    P("P32", "Keras and TensorFlow.js loading reproduces the saved layers",
      "Loading a model saved by a layer-level or JavaScript exporter yields the graph whose outputs the saved layers define.",
      ["programs", "inputs"], "all saved models",
      TESTS + "a few saved models.",
      ["tf2onnx/tfjs_utils.py", "tf2onnx/convert.py", "tf2onnx/tf_loader.py"], ["graph deserialisation", "attribute defaulting"]),
]

NOT_YET = "no check built yet: planned, see DESIGN.md"

# property -> (technique, level, level_note)
TV = "translation validation: the real code is executed on every run, both programs are executed symbolically, z3 decides equality"
TVN = ("Each program of a bounded family is put through the real code; z3 shows original and result equal for every tensor value (exact "
       "arithmetic, side conditions listed in the evidence), or a counterexample is replayed on the real runtimes before it is reported. "
       "Trusts the symbolic ONNX/TF evaluators (cross-validated against onnxruntime/TensorFlow on sampled programs) and z3. ")
CLAIMED = {
    "P01": (TV, "translation_validation", TVN + "Ranks 2-5, dims <= 4, opsets 8-18."),
    "P02": (TV, "translation_validation", TVN + "Cast chains are decided in exact bit-vector/IEEE arithmetic. Opsets 8-18, chains of 2-3."),
    "P12": (TV, "translation_validation", TVN + "Ranks 1-4, dims <= 3, all begins/ends/masks of the listed forms, opsets 9-18."),
    "P13": (TV, "translation_validation", TVN + "Space 2-8, channels 1-6, kernels 1-4, strides 1-4, opsets 9-18."),
    "P14": (TV, "translation_validation", TVN + "Ranks 0-4, dims <= 4, every axis subset, run-time axes and segment ids, opsets 9-18."),
    "P15": (TV, "translation_validation", TVN + "Scalar programs in exact machine arithmetic (bit vectors, IEEE-754) for every operand value; "
            "broadcasting programs up to rank 3 in exact reals; opsets 9-18."),
    "P16": (TV, "translation_validation", TVN + "Data up to rank 4, every in-range index value at run time, batch dims 0-2, opsets 9-18."),
    "P05": (TV, "translation_validation", TVN + "Pattern families plus pseudo-random programs of up to 12 steps with nested If/Loop, dims <= 6, opsets 9-18."),
    "P31": (TV, "translation_validation", TVN + "Tensors up to rank 5, dims <= 4, every layout/epsilon/window form, opsets 9-18; exp/log/sqrt uninterpreted with axioms."),
    "P03": ("symbolic execution of the real folding code on arrays of solver variables; z3 decides equality of the models before and after", "translation_validation",
            TVN + "Constants up to rank 5 are symbolic, elements of the full integer range; opsets 8-18."),
    "P04": ("symbolic execution / translation validation of the real quantisation passes with z3", "translation_validation",
            TVN + "Every element-moving operator between quantise/dequantise pairs, full 8-bit range, scales powers of two, random programs; opsets 10-18."),
    "P06": (TV, "translation_validation", TVN + "All one/two-operand equations over 4 labels, sampled three/four-operand ones, dims 1-3, opsets 12-18."),
    "P18": (TV, "translation_validation", TVN + "Matrices up to 3x3, batch ranks 0-2, all einsum equations over 4 labels with terms of rank <= 3, opsets 9-18."),
    "P26": (TV, "translation_validation", TVN + "Every subset of up to three rank-4 inputs and outputs requested channel-first, static/dynamic dims, opsets 9-18."),
    "P30": (TV, "translation_validation", TVN + "Images up to 6x6 resized to 1..8 by every mode, crops up to 5x5, opsets 9-18; sampling weights in exact arithmetic."),
    "P19": (TV, "translation_validation", TVN + "Patterns and look-alikes on tensors up to rank 5, dims <= 6, opsets 9-18; random samples are shared symbols."),
    "P21": (TV, "translation_validation", TVN + "Conditionals nested up to 3, loops of 0-5 iterations with run-time trip counts, tensor arrays up to 3 elements, "
            "functional and Switch/Merge control flow, opsets 9-18."),
    "P07": (TV, "translation_validation", TVN + "Names, order, element types and declared dimensions are compared with the request, declared dimensions with the shape of "
            "every symbolic run; one to three of 27 kinds of outputs, inner tensors as inputs, renamed tensors, overridden shapes, defaulted inputs; opsets 9-18."),
    "P20": (TV, "translation_validation", TVN + "LSTM, GRU and plain RNN cells in loop form, as v1 while loops and as Keras layers, one- and bidirectional; up to 3 steps, 2 units, "
            "batch 2, run-time sequence lengths; sigmoid and tanh uninterpreted with axioms; opsets 10-18."),
    "P22": ("symbolic execution of the real decoder on buffers of symbolic bytes; z3 decides equality with the encoded value", "translation_validation",
            "Buffers are laid out by an independent encoder; counterexamples are decoded again from real bytes. Every value type, width and slot, up to three nested levels and 300 (thorough 1000) elements or characters; every payload byte is symbolic."),
    "P27": ("symbolic execution of the real handler registration and mapping code on symbolic versions; z3 decides which handler must be found", "translation_validation",
            "Up to four handlers of three operators in two domains, versions 1-5 (thorough 1-8) and requested opset symbolic, and every operator of the real tables "
            "for a symbolic opset of 1-20."),
    "P17": (TV, "translation_validation", TVN + "Tensors up to rank 5, dims 0-6, static, dynamic and unknown-rank shapes, opsets 9-18."),
}
NOT_APPLICABLE = {
    "P08": "the order and names of a graph are Python dictionaries keyed by strings: every path fixes one concrete graph, so a solver would only enumerate concrete runs. "
           "Every model that the other checks emit is checked for order, unique names and completeness by the evaluator, but that is not a decision over all graphs.",
    "P09": "histories of graph edits act on dictionaries keyed by tensor names; symbolic names are fixed on every path, which leaves enumeration of concrete histories.",
    "P10": "whether an emitted operator is legal for an opset is a finite table lookup in onnx's C++ schemas with no quantity for a solver to range over; "
           "the evaluator of the other checks refuses operators of the wrong version, attributes and element types as a side effect.",
    "P11": "the inference functions act on TensorFlow tensors and onnx C++ shape inference, whose dimensions cannot be solver variables; the declared output dimensions "
           "that result are decided under P07, P12-P18 and P21.",
    "P23": "no evaluator with the TFLite semantics can be encoded here: its kernels are compiled C++ inside TensorFlow and the flatbuffer readers are generated code over numpy buffers.",
    "P24": "names and shapes are split by the re module, compiled C code that needs concrete strings; a model of it would not be the real code.",
    "P25": "storage goes through protobuf and files, C++ code on concrete bytes; only the placement of constants is Python and it depends on the byte length alone.",
    "P28": "matching compares strings and object identities of a concrete graph; every path fixes the graph, which leaves enumeration of concrete graphs. What matches "
           "lead to is decided under P19, P20 and P31.",
    "P29": "finite tables without inputs: looking at every entry needs no solver.",
    "P32": "loading goes through saved files, protobuf, JSON and Keras objects, C and library code on concrete bytes.",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = p["anchors"]
            for m in a["mechanism"]:
                m["where"] = os.path.normpath(m["where"])
            a["files"] = list(dict.fromkeys(os.path.normpath(x) + ("/" if x.endswith("/") else "") for x in a["files"]))
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/vf/setup_check.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        i = p["id"]
        if i in CLAIMED:
            t, l, n = CLAIMED[i]
            m["checks"].append({"property": i, "quick_cmd": CMD % (i, "quick"), "thorough_cmd": CMD % (i, "thorough"),
                                "technique": t, "level": l, "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, NOT_YET)})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
