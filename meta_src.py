"""Metadata of every property; `python3-vt meta_src.py` writes meta/, properties.jsonl and MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
OUT = {}


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
             technique=technique, level_note=" ".join(note.split()))
    if observe:
        d["anchors"]["observe_at"] = observe
    OUT[id] = d


TRUST = "Samples; trusts numpy as the reference, the C compiler, and the ctypes binding of the public C API."
B = "src/backend/base/"
K = "src/kernels/cpu/"

P("P09", "Elementwise binary operators broadcast and compute like numpy",
  """Applying add, sub, mul, div, mod, maximum, equal or the three-operand select (where) to operands whose shapes are
  compatible under numpy broadcasting (any rank, either side broadcast, scalar, per-channel, or both sides partly) gives
  the numpy-broadcast shape and, at every position, the operator applied to the corresponding elements in operand order.
  Operands of different numeric types are first brought to one common type that is wide enough for both; integer
  arithmetic is exact modulo the type's width and division by zero gives the documented saturated value.
  Operand shapes that do not broadcast are reported as an error instead of giving a result.""",
  ["inputs", "histories"], """every pair (triple) of shapes of rank 0-5 that broadcast, all 10 numeric types and mixes,
  runs repeated on one workbench with other shapes and thread counts""",
  """The kernel tests run a handful of fixed shapes in float32 and mostly print the result; which of the six
  specialised loops is used depends on the shape pair and operand order, so only a sweep over shapes reaches them all.""",
  [B + "element_wise_reduce.cpp", K + "add.cpp", K + "sub.cpp", K + "mul.cpp", K + "div.cpp", K + "mod.cpp",
   K + "maximum.cpp", B + "base_equal.cpp", B + "base_where.cpp"],
  [("reduce with scalar / bias / broadcast / same-shape dispatch", B + "element_wise_reduce.cpp"),
   ("per-operator kernels", K + "*.cpp"), ("type promotion", "src/core/tensor.cpp / include/core/dtype.h")],
  "property-based testing against numpy (random shapes/types/histories)", TRUST)

P("P10", "Unary activations and per-channel bias/scale match their formulas",
  """abs, square, relu, relu_max, leaky_relu, sigmoid, tanh, exp, softplus, sqrt, rsqrt, erf, floor, ceil, hard_sigmoid, pow,
  to_float, prelu, add_bias and batch_scale give, for every element of a tensor of any shape (rank 0 up, any length, empty
  too) and every element type they accept, the value of the documented formula with the given parameters, in a result of
  the same shape and type (to_float: float32). The result depends neither on the number of computing threads nor on what
  the same workbench ran before, and the input tensor is not modified.
  Slopes, biases and scales of another length,
  rank or type, and axes the tensor has not, give an error, never a result.""",
  ["inputs", "histories", "configurations"], """tensors of rank 0-5 with lengths around and across the vector width,
  float32/float64 and integer types, operator parameters, 1-4 threads, 1-3 runs per workbench""",
  """Vectorised kernels process blocks of elements and a remainder; the tests use one or two fixed sizes of float32, so
  remainder handling, other element types and parameters are never exercised.""",
  [B + "base_activation.cpp", K + "relu.cpp", K + "sigmoid.cpp", K + "softplus.cpp", K + "prelu.cpp", K + "add_bias.cpp",
   K + "batch_scale.cpp", K + "hard_sigmoid.cpp", K + "leaky_relu.cpp"],
  [("per-element kernels", K + "*.cpp"), ("parameters and defaults", B + "base_*.cpp")],
  "property-based testing against numpy formulas", TRUST)

P("P06", "Workbenches and programs behave as independent state machines",
  """A workbench's state is its program, its current inputs and the outputs of its last successful run, and nothing else.
  Setting an input by slot or by name takes effect in every later run until it is replaced, whatever happens to the tensor
  handle afterwards, and a run gives exactly what the program computes from the current inputs, however often and in
  whatever order inputs were set, runs made, thread numbers changed and outputs read. Out-of-range slots and unknown names
  are reported as errors and change nothing; a run that fails leaves the outputs of the last successful run, and the
  workbench works again as soon as its inputs are valid. A value obtained from an output keeps its content through later
  runs and after the workbench and program are freed; input tensors are never written to. A clone of a workbench or
  program starts with the same operator parameters and bound filters and is independent from then on; workbenches set up
  with one program share its parameters and filters and nothing else. set_operator_param changes exactly that operator of
  that program from the next run on; a bound filter is applied to exactly its input slot. run_hook makes the values of the
  named (non-constant) nodes in that run readable by name until the next run, and computes the same outputs as run.""",
  ["histories", "inputs"], """every history of API calls over several workbenches, programs (compiled, cloned, shared) and
  modules, interleaved in any order, including failing calls and freeing in any order""",
  """The tests load one module into one workbench, set inputs once, run once. Stale state, sharing between clones and
  lifetime of retained outputs only show in longer histories over several objects.""",
  ["src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/api/workbench.cpp", "src/api/program.cpp",
   "src/runtime/instruction.cpp", "src/runtime/stack.cpp", "src/runtime/image_filter.cpp"],
  [("input / output / run / clone / setup / run_hook", "src/runtime/workbench.cpp"),
   ("program clone, operator parameters, filters", "src/runtime/program.cpp")],
  "stateful model-based testing over API histories (with and without AddressSanitizer)", TRUST)

P("P11", "Convolutions equal their mathematical definition",
  """conv2d, conv2d_v2 (paddings given as an input), depthwise_conv2d, depthwise_conv2d_v2 and conv2d_winograd(_v2), in NCHW
  layout, give for every batch, channel count, kernel size, asymmetric padding with any padding value, stride and dilation
  the mathematical cross-correlation with output size floor((padded - dilated kernel)/stride)+1, up to rounding of the
  element type, whether the kernel is a model constant, a run-time input that changes between runs or (winograd) transformed
  ahead by winograd_transform_kernel for either tile size, with and without compile-time packing, for any number of computing threads and whatever sizes the workbench ran before. They neither read nor write
  outside their tensors. Arguments that are no convolution (channel or rank mismatch, mixed types, padding on channels, a
  kernel larger than the padded input, unsupported layout) give an error, not a result.""",
  ["inputs", "configurations", "histories"], """batches 1-3, channels 1-20, spatial sizes 1-20, kernels 1-5, asymmetric
  paddings up to the kernel size and more, strides and dilations 1-3, float32/float64, sequences of runs with different sizes
  and kernels; winograd with up to 260 channels so that the 6x6 tiles are chosen""",
  """The fast paths (1x1, 3x3 stride 1/2, winograd, packed kernels) each hold for a region of the parameter space with
  special treatment of borders; tests sample one point each.""",
  [K + "conv2d_core.cpp", K + "conv2d_algorithm.cpp", K + "depthwise_conv2d_algorithm.cpp", K + "depthwise_conv2d_core.cpp",
   K + "winograd_algorithm.cpp", K + "im2col.cpp", B + "base_conv2d.cpp", B + "base_conv2d_v2.cpp", B + "base_depthwise_conv2d.cpp"],
  [("im2col + packed gemm", K + "conv2d_core.cpp"), ("3x3 depthwise with borders", K + "depthwise_conv2d_algorithm.cpp"),
   ("winograd transforms", K + "winograd_algorithm.cpp")],
  "property-based testing against a direct numpy convolution (with and without AddressSanitizer)", TRUST)

P("P15", "Reductions, softmax and normalisations match their definitions",
  """reduce_sum, reduce_mean, max, argmax, softmax, l2_norm, batch_norm, fused_batch_norm, prewhiten and norm_image
  compute, along the requested (possibly negative) axis or axes of a tensor of any rank, the defined statistic of exactly
  the elements of each slice, with the requested epsilon and kept or dropped dimensions. The result for one slice is
  independent of every other slice, and parameters give the same result whether they are model constants or run-time
  inputs. Rounding is bounded by that of a straightforward computation in the element type.
  Axes the
  tensor has not and per-channel parameters of another length, rank or type give an error, never a result.""",
  ["inputs", "configurations"], """ranks 1-5, every axis (positive/negative), keep-dims settings, epsilons, float32/float64
  (integers for sum/max/argmax), parameters as constants or inputs""",
  """The tests call a few of these with one fixed shape and print; axis handling (outer/inner strides) and the
  metamorphic slice independence quantify over all shapes and axes.""",
  [B + "base_reduce_sum.cpp", B + "base_reduce_mean.cpp", B + "base_softmax.cpp", B + "base_l2_norm.cpp",
   B + "base_batch_norm.cpp", B + "base_fused_batch_norm.cpp", B + "base_argmax.cpp", B + "base_max.cpp",
   B + "base_prewhiten.cpp", B + "base_norm_image.cpp"],
  [("axis decomposition into outer/axis/inner", B), ("kernels", K)],
  "property-based testing against numpy plus slice-independence metamorphic relation", TRUST)

P("P16", "Layout operators move every element to its defined place, unchanged",
  """reshape (both forms, with -1 and 0), flatten, flatten2d, squeeze, unsqueeze, transpose (with implicit leading
  dimensions), concat, stack, chunk, split, pad, crop_nd, crop_to, tile (both forms), broadcast, dimension shuffle, expand,
  batch-to-space, space-to-batch, shape, dims, constant_of_shape, range and copy give exactly the output shape their
  definition prescribes and put exactly the defined input element (bit for bit, any numeric type) at every position.
  Axes and sizes counted from the end behave like their positive form (for squeeze: the last axis), sizes given as model
  constants behave like sizes given at run time, and the result does not depend on what the workbench ran before.
  A layout that does not exist (a reshape to another number of elements, an axis or index out of range, mismatching sizes
  in concat, stack, split or broadcast, a squeezed axis that is not 1, a permutation that repeats or leaves the range,
  negative repeats, block sizes below 1 or that do not divide, a range with delta 0, a padding table of the wrong shape)
  gives an error, never a result or a crash. Paddings that leave nothing are not covered.""",
  ["inputs", "configurations", "histories"], """ranks 0-7, all numeric types, generated permutations, axes, paddings (also
  negative), repeats, splits, block sizes, parameters as constants or run-time tensors""",
  """Each operator has specialised copy paths selected by shape and parameters (e.g. 4-D padding, last-axis concat); the
  tests sample one or two shapes per operator and many only print.""",
  [B + "base_reshape.cpp", B + "base_reshape_v2.cpp", B + "base_flatten.cpp", B + "base_unsqueeze.cpp", B + "base_transpose.cpp",
   B + "base_concat.cpp", B + "base_stack_tensor.cpp", B + "base_chunk.cpp", B + "base_split.cpp", B + "base_pad.cpp",
   B + "base_tile.cpp", B + "base_broadcast_v2.cpp", B + "base_dimshuffle.cpp", B + "base_batchtospace4d.cpp",
   K + "crop_to.cpp", K + "range.cpp", "include/utils/otl.h"],
  [("shape inference", B), ("copy kernels", K), ("fixed-capacity shape vector", "include/utils/otl.h")],
  "property-based testing, bit-exact against numpy", TRUST)

P("P14", "Matrix products equal the mathematical product",
  """gemm (alpha*op(A)*op(B)+beta*C with broadcast C), inner_prod (input flattened to 2-D, optional transpose) and matmul equal
  the mathematical matrix product up to floating-point rounding for all sizes, transpose flags, alpha and beta, in float32
  and float64, whether an operand is a run-time input or a model constant (packed at compile time or not), with omitted
  parameters taking their documented defaults, for any number of computing threads and on repeated runs of a workbench.
  Matrices that do not fit (other inner sizes, operands of
  mixed types, more than two dimensions where a matrix is asked for on the right) give an error, never a result or a crash.""",
  ["inputs", "configurations"], """matrix sizes 1-40 per dimension around the 4/8-wide blocking, all transpose/alpha/beta
  combinations, C of every broadcastable shape, operands constant or run-time, compile options with/without --pack""",
  """The tests use one size whose dimensions are multiples of the block; remainder rows/columns, the compile-time packing
  of constants and the rewriting of gemm into other operators only show up for specific size/flag/constness combinations.""",
  [K + "math_cpu.cpp", K + "cpu_gemm.cpp", K + "inner_prod.cpp", K + "matmul.cpp", B + "base_gemm.cpp", B + "base_inner_prod.cpp",
   B + "base_matmul.cpp", "src/compiler/option/pack_translator_option.cpp"],
  [("8x8 blocked kernel and packing", K + "math_cpu.cpp"), ("gemm rewriting and const packing", "src/compiler/option/pack_translator_option.cpp")],
  "property-based testing against float64 numpy with magnitude-scaled error bounds", TRUST)

P("P17", "Slicing, gathering, scattering and selection pick exactly the defined elements",
  """slice, slice_v2, slice_v3, strided_slice (begin/end/ellipsis/new-axis/shrink masks, negative strides), gather, gatherv2,
  gather_elements, scatter_nd, topkv2 and non_max_suppression_v3 give the output shape and exactly the elements (bit for
  bit, in the defined order) that their definition prescribes for every valid input, axis (also negative), range (also
  reaching past the ends or counted from the end) and index tensor (also negative indices where allowed). Index tensors
  and data inputs are not modified, and repeated runs with other shapes give what a fresh workbench gives.
  Selections that do not exist
  (slice and slice_v2 ranges, indices and axes outside the tensor, steps of 0, tables of the wrong length, updates, boxes or
  scores of another shape, a negative number of values) give an error, never a result or a crash.""",
  ["inputs", "configurations", "histories"], """ranks 1-5, all numeric types, generated ranges/strides/masks/indices, boxes and
  scores incl. thresholds; parameters constant or run-time""",
  """Range normalisation has many corner cases (negative steps to the front, clamped ends, masks combined with new axes);
  the tests run one literal example per operator, several of them only printing.""",
  [B + "base_slice.cpp", B + "base_slice_v2.cpp", B + "base_slice_v3.cpp", B + "base_strided_slice.cpp", B + "base_gather.cpp",
   B + "base_gather_elements.cpp", B + "base_gatherv2.cpp", B + "base_scatter_nd.cpp", B + "base_topkv2.cpp",
   B + "base_non_max_suppression_v3.cpp", K + "slice_v3.cpp", K + "strided_slice.cpp", K + "gather.cpp", K + "topkv2.cpp"],
  [("range normalisation", B), ("element copy", K)],
  "property-based testing, bit-exact against numpy / a direct python reference", TRUST)

P("P01", "Saved tensors have the documented bytes and load back identically",
  """Saving a tensor (ts_Tensor_save, or serialising it to a stream) writes exactly the documented encoding: number of fields,
  and per field element type, rank, sizes and the raw little-endian elements in row-major order, whether the tensor was built
  directly, packed from several fields, or is a view (slice, range, reshape, field, clone) of another one. Loading that
  encoding gives back a tensor with the same fields, element types, shapes and bytes, consumes exactly the bytes of that
  tensor (so several tensors may follow each other in a stream), replaces whatever the receiving tensor held before, and
  saving it again gives the same bytes.""",
  ["inputs", "histories"], """all element types of the format, ranks 0-7, sizes incl. 0, 1-5 fields, chains of views, consecutive
  tensors read into one object""",
  """Tests save one float tensor; views, packed tensors, odd element types, rank 0 and empty sizes are not covered, and a
  writer and a reader that share a mistake agree with each other; only an independent encoder notices.""",
  ["src/core/tensor.cpp", "src/api/tensor.cpp", "include/module/io/stream.h", "src/module/io/fstream.cpp", "src/module/io/sstream.cpp"],
  [("Tensor::serialize / externalize", "src/core/tensor.cpp"), ("views", "src/core/tensor.cpp"), ("streams", "src/module/io/*")],
  "property-based testing: differential against an independent encoder, round trip", TRUST)

P("P02", "Loading and saving a module preserves the whole graph",
  """For every well-formed module file, loading it (from a file or a stream, either API version) and saving it gives a file that
  an independent decoder of the documented format reads as the same graph: the same inputs and outputs in the same order, the
  same nodes (operator, name) with the same ordered inputs and sharing, and every parameter with unchanged name, element
  types, shapes and bytes - including unknown parameters, packed and empty tensors, declared shapes and types of inputs,
  equal node names, unused inputs and repeated outputs; only nodes that no input or output needs are dropped. A saved
  module computes what the original computes. Copying, moving or assigning a node keeps all of it as well.""",
  ["inputs", "histories"], """random graphs with random parameters, node orders, parameter orders and headers; load/save
  repeated; all loading entry points""",
  """Tests round-trip a fixed tiny graph without comparing content; order of inputs/outputs, sharing and untouched unknown
  parameters are properties over all graphs.""",
  ["src/module/module.cpp", "src/module/bubble.cpp", "src/module/menu.cpp", "src/module/loaders/open.cpp", "src/module/header.cpp",
   "src/api/module.cpp"],
  [("Module::Save / Load", "src/module/module.cpp"), ("node encoding", "src/module/bubble.cpp"), ("graph linking", "src/module/menu.cpp")],
  "property-based testing: random graphs, independent encoder/decoder, graph isomorphism, metamorphic execution", TRUST)

P("P03", "Damaged module or tensor data is rejected cleanly",
  """Loading damaged, truncated or malicious module or tensor bytes through any loading entry point either returns an error
  (NULL result and a message) or, when the bytes still form a valid encoding, exactly the graph or tensor these bytes
  describe. Data that ends early (every strict prefix of a module), node indices that do not exist, links that form a cycle,
  unknown element types and negative or overflowing sizes are rejected. Loading never reads or writes outside its buffers,
  never crashes, hangs, or lets an exception escape the C API, and never allocates in proportion to a damaged count.""",
  ["inputs", "fault_sequences"], """valid encodings damaged by truncation, bit flips, extreme 32-bit fields, inserted/removed ranges and
  rewired links, under AddressSanitizer""",
  """Tests only load intact files. The property is about all damaged inputs, and memory errors stay invisible without a
  sanitizer.""",
  ["src/module/module.cpp", "src/module/bubble.cpp", "src/module/menu.cpp", "src/module/loaders/open.cpp", "src/core/tensor.cpp",
   "include/module/io/stream.h", "src/api/declaration.h"],
  [("length-checked reads", "include/module/io/stream.h"), ("index and cycle checks", "src/module/menu.cpp"),
   ("prototype checks", "src/core/tensor.cpp"), ("exception barrier", "src/api/declaration.h")],
  "structure-aware mutation fuzzing under ASan with an independent decoder as oracle", TRUST)

P("P04", "A compiled program computes exactly what its graph says",
  """For every graph of supported operators, loading it on a workbench and running it yields at each output exactly the value
  obtained by evaluating the graph node by node in any valid order - whatever the sharing between nodes, the order of the
  inputs of operators, the number and order of outputs (also repeated outputs, outputs that are inputs or constants), packed
  multi-value nodes and their fields, constant sub-graphs folded at compile time, unused inputs, node order in the file,
  names and number of threads. Running again with other data, or data of other shapes, gives what a fresh workbench would
  give, and input tensors are never modified.""",
  ["inputs", "histories", "configurations"], """random graphs of 1-14 operators over 20+ operator kinds, up to 3 inputs and 4
  outputs, 1-3 runs with new data / shapes, 1-3 threads""",
  """Tests run a couple of literal graphs. The compiler turns graphs into stack programs by swapping and re-pushing values; which
  shuffles occur depends on the shape of the graph, so only random graphs cover them.""",
  ["src/compiler/compiler.cpp", "src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/stack.cpp",
   "src/runtime/instruction/stack_instruction.cpp", "src/runtime/instruction/tensor_instruction.cpp", "src/module/graph.cpp"],
  [("graph to stack program", "src/compiler/compiler.cpp"), ("constant folding", "src/compiler/compiler.cpp"),
   ("stack execution", "src/runtime/stack.cpp, workbench.cpp")],
  "property-based testing: random graphs against node-by-node numpy evaluation", TRUST)

P("P05", "Compile options and routes change neither results nor the module",
  """Compiling a module with any option string (--pack, --no-pack, --float16, --filter, device maps, unknown words, any
  combination) and by any route (loading a workbench, compiling a program and setting it up on the same or another workbench,
  cloning the program, translating the module first) yields the same inputs, outputs and results as compiling without
  options (on CPU exactly, up to rounding of re-ordered products; --filter additionally replaces constants smaller in
  magnitude than the epsilon of their type by 0, in that program only). Inputs with a declared element type are converted
  to it under every option. Compiling, translating and running never change the module object, which can be compiled any
  number of times with any sequence of options.""",
  ["configurations", "inputs", "histories"], """random graphs heavy in matrix products and convolutions, 2-5 compilations of one
  module object with drawn options and routes, results of each compared with numpy""",
  """Tests compile each model once with default options. That options are independent of each other and of earlier
  compilations quantifies over option sequences.""",
  ["src/compiler/translater.cpp", "src/compiler/option/pack_translator_option.cpp", "src/compiler/option/fp16_translator_option.cpp",
   "src/compiler/zipper.cpp", "src/compiler/argparse.cpp", "src/runtime/program.cpp", "include/module/graph.h"],
  [("option parsing", "src/compiler/argparse.cpp"), ("translators", "src/compiler/option/*"), ("program construction", "src/runtime/program.cpp")],
  "property-based metamorphic testing over option sequences, with a numpy oracle and saved-module comparison", TRUST)

P("P07", "Separate workbenches work concurrently as they do alone",
  """Any number of threads may at the same time load modules, compile one module, clone one workbench or program, run their own
  workbenches (clones share constants and parameters), set thread numbers, create, cast and free tensors, share read-only input tensors and run image filters. Each
  thread gets exactly the results it would get alone, every error message belongs to the thread whose call failed and is not
  replaced by calls of other threads, there is no data race, and the common module, program and workbench still work afterwards.""",
  ["schedules", "histories"], """2-6 threads with scripts of 2-11 actions each over 1-2 random graphs; whatever schedules the OS produces in release and
  ThreadSanitizer builds""",
  """No test uses two threads. A race needs particular overlaps; ThreadSanitizer reports it from the happens-before relation of any
  overlapping run of a generated script.""",
  ["include/core/threadsafe/smart.h", "include/module/module.h", "src/runtime/program.cpp", "src/runtime/workbench.cpp", "src/runtime/runtime.cpp",
   "src/core/memory.cpp", "src/api/common.cpp", "include/utils/ctxmgr_lite_support.h"],
  [("reference counting", "include/core/threadsafe/smart.h"), ("clone under the program lock", "src/runtime/program.cpp"),
   ("thread-local contexts", "include/utils/ctxmgr_lite_support.h"), ("thread-local message", "src/api/common.cpp")],
  "property-based testing of generated multi-threaded scripts, under ThreadSanitizer and against a sequential numpy oracle",
  TRUST + " Schedules are those the operating system produces; the ThreadSanitizer build has no OpenMP.")

P("P12", "Transposed, deformable and quantized convolutions follow their definitions",
  """transpose_conv2d is the transpose of a convolution: every input element adds its kernel, scaled, at position
  index*stride + kernel index*dilation, and the paddings are cut off the borders. dcn_v2_forward is a convolution whose taps
  are read by bilinear interpolation at the regular position plus the given offsets (0 outside the image) times the mask, plus
  the bias. quantize gives the nearest int8 of x times the scale of its row (dimension 0), limited to -128..127, the same for equal values
  wherever they stand; conv2d_quantized is the exact integer convolution times the scale of its output channel. All of that holds for
  any shapes, asymmetric paddings, strides, dilations, kernels given as constants or at run time, compile options, thread numbers and repeated
  runs with other sizes. Operands that do not fit together, or that leave no output, are reported as errors without reading or writing out of bounds.""",
  ["inputs", "configurations", "histories"], """x up to 20x20, up to 18 channels, kernels 1-7, strides 1-4, dilations 1-3, paddings 0-3, 1-3 deformable
  groups with offsets inside and far outside, int8 data over the whole range, 1-8 threads""",
  """There are no asserting tests for these operators. Wrong results appear at particular strides against paddings, several channels with
  several threads, sampling positions on the border, or values beyond int8.""",
  [B + "base_conv2d_transpose.cpp", K + "transpose_conv2d_core.cpp", K + "im2col.cpp", "src/backend/torch/base_dcn_v2_forward.cpp",
   K + "dcn/dcn_v2_cpu.cpp", K + "dcn/dcn_v2_im2col_cpu.cpp", K + "quantize.cpp", B + "base_quantize.cpp",
   B + "base_conv2d_quantized.cpp", K + "quantized/conv2d_quantized_core.cpp"],
  [("col2im", K + "im2col.cpp"), ("bilinear taps", K + "dcn/dcn_v2_im2col_cpu.cpp"), ("saturating rounding", K + "quantize.cpp"),
   ("dequantisation", K + "quantized/conv2d_quantized_core.cpp")],
  "property-based testing against a numpy reference (release and ASan builds)", TRUST)

P("P13", "Pooling and the dynamic padding operators follow their definitions",
  """On NCHW float32 and float64 data of any size, pooling2d, pooling2d_v2 (padding, kernel size and stride given at run time) and
  global_pooling2d give at each position the maximum or average of the window starting at position*stride - padding: padded positions
  do not take part (padding type black) or count as zeros in the average's divisor (white), a window outside the data gives 0, and the output size is
  the documented one, rounded up. The operators _tf_conv2d_padding, _tf_pooling2d_padding, _mx_pooling2d_padding and
  _onnx_pooling2d_padding give the paddings with which the convolution or pooling has the output size of TensorFlow, MXNet or ONNX in
  each of their padding modes (SAME, VALID, SAME_UPPER, SAME_LOWER, NOTSET, valid 0/1) for any input size, kernel, stride, dilation and
  static padding. This holds for any number of threads and repeated runs with other sizes; wrong arguments are errors, a failed run
  leaves later runs unaffected, and no access goes out of bounds.""",
  ["inputs", "configurations", "histories"], """images up to about 30x30, kernels 1-5, strides 1-4, paddings -2 to 5, both types, parameters as
  node params, constants or run-time inputs""",
  """Tests print pooling results of fixed images. Fast paths exist for 2x2 and 3x3 windows and depend on size, stride and padding.""",
  [B + "base_pooling2d.cpp", B + "base_pooling2d_v2.cpp", B + "base_global_pooling2d.cpp", K + "pooling2d_core.cpp", K + "pooling_algorithm.cpp",
   "src/backend/tf/conv2d_padding.cpp", "src/backend/tf/pooling2d_padding.cpp", "src/backend/mxnet/pooling2d_padding.cpp"],
  [("window loops", K + "pooling2d_core.cpp"), ("fast paths", K + "pooling_algorithm.cpp"), ("padding rules", "src/backend/tf, mxnet, onnx")],
  "property-based testing against a numpy reference (release and ASan builds)", TRUST)

P("P22", "Element type conversions are exact and safe for every pair of types",
  """Converting a tensor of any shape between any two of the eleven numeric types (8-64 bit integers, float16, float32,
  float64), by ts_Tensor_cast, ts_intime_cast, the _cast and to_float operators or chains of them, keeps the shape and gives at every element: between
  integers the value modulo the width of the result; from float to integer the value truncated towards zero (when it fits); to float32
  and float64 the nearest value; to float16 one of the two neighbouring halves, and the value itself when it is a finite half (subnormal ones included);
  float16 to wider types exactly. Converting to the same type changes nothing and the source is never modified. A node parameter (number, flag, list
  of numbers, indices, shape) means the same in whichever numeric type it is stored.""",
  ["inputs"], """all 121 pairs of types, shapes of rank 0-5 and lengths around the vector width, values at the ends of both types, all
  halves, random bit patterns, as inputs and constants, and operators with parameters stored in other types""",
  """The conversions are hand written loops per pair of types and bit manipulations for halves; tests convert a few float32 values.""",
  ["src/core/tensor.cpp", "src/core/tensor_builder.cpp", "include/core/ieee754_float.h", "src/core/ieee754_float.cpp", "src/api/tensor.cpp", "src/backend/base/base_cast_v2.cpp"],
  [("cast loops", "src/core/tensor_builder.cpp"), ("half conversion", "include/core/ieee754_float.h, src/core/ieee754_float.cpp"), ("parameter reading", "include/core/tensor_builder.h")],
  "property-based testing against numpy conversions (release and ASan builds)", TRUST)

P("P23", "Tensor handles behave as values with documented sharing",
  """Over every history of tensor calls, each live handle keeps its element type, shape, fields and values: creating copies the data
  given; cloning, casting and gathering to a fresh tensor are independent of their source; fields, reshaped and moved tensors are the same memory as
  their source, so that a write through one is seen by the others and by nothing else, and the memory lives until the last handle
  is freed, in any order (a slice is a view that needs its source). Packing and taking fields returns the fields in order; saving and
  loading gives equal tensors of all types and field counts. Requests that can not be met (wrong element counts, shapes, slices, fields or indices out of range,
  files that can not be read or written) return failure with a message and change no tensor.""",
  ["histories", "inputs", "fault_sequences"], """histories of 3-40 calls over tensors of 10 types, rank 0-5, with frees in any order and invalid arguments in between""",
  """Tests make a tensor and read it back. Sharing and lifetime bugs need histories of several handles on the same memory.""",
  ["src/api/tensor.cpp", "src/core/tensor.cpp", "include/core/tensor.h", "src/core/memory.cpp", "include/core/memory.h", "src/module/io/fstream.cpp"],
  [("handle functions", "src/api/tensor.cpp"), ("sharing and reshape", "src/core/tensor.cpp"), ("reference counted memory", "src/core/memory.cpp")],
  "stateful model-based testing (release and ASan builds)", TRUST)

P("P26", "Custom operators are driven exactly by their contract",
  """An operator registered by ts_Operator_Register, ts_Operator_RegisterEx or the C++ wrapper is used like a built-in one. For each of its nodes in a
  program one object is made by the new function, initialised with the node's parameters (all of them readable, by name, with the values and types of the node) before its first
  run and again after a parameter is changed, run once per run of the node with exactly the node's inputs in order, and freed exactly once with
  what holds it; a clone has objects of its own. What run returns is the node's value with all its fields. A failure of new, init or run (NULL, false, an
  error) fails the call that caused it with its message and nothing else, and later calls work. Registering a name again
  replaces the operator for programs compiled later. The element types and shapes an extended operator's infer returns are read exactly, and
  malformed answers are refused without reading out of bounds. Restoring a snapshot of the registrations (ts_plugin_*) brings back exactly the operators registered when it was taken.""",
  ["histories", "fault_sequences", "programs"], """random graphs with 1-4 custom nodes among built-in ones, up to several runs, clones, parameter changes, with
  failures injected at any call of new, init, run or infer""",
  """One example plugin exists and no test fails in a callback; object lifetimes and the use of answers only show when counted over histories.""",
  ["src/api/operator.cpp", "include/api/operator.h", "src/api/plugin.cpp", "src/global/operator_factory.cpp", "src/runtime/inferer.cpp", "include/api/cpp/operator.h", "src/runtime/program.cpp"],
  [("adapter class", "src/api/operator.cpp"), ("factory", "src/global/operator_factory.cpp"), ("infer adapter", "src/api/operator.cpp")],
  "property-based testing with journalling callbacks and injected failures", TRUST)

P("P27", "Fusing modules composes the functions they compute",
  """Fusing two modules by output slots of the one and input slots of the other gives a module that computes the composition: its inputs are the
  first module's inputs followed by the unconnected inputs of the second, its outputs are the first module's outputs other than the connected value
  followed by all of the second; -1 stands for the only slot of a module. Every output equals what running the parts one after the other gives, for any graphs (leaf or repeated
  outputs, inputs not used, equal names in both, one module used twice or fused with itself), for chains of fusions, and after saving and loading. The parts are not changed. Slots that do not exist are errors.""",
  ["programs", "inputs", "histories"], """2-4 random graph modules with random slot maps, fused repeatedly, run on random inputs""",
  """No test fuses modules. Correct slot order depends on which outputs are repeated, which inputs are unused, and how nodes are shared.""",
  ["src/module/module.cpp", "src/api/module.cpp", "include/module/module.h"],
  [("Module::Fusion", "src/module/module.cpp"), ("ts_Module_Fusion", "src/api/module.cpp")],
  "property-based testing against composition in a reference evaluator", TRUST)

P("P28", "Every C API call either succeeds silently or fails cleanly with a message",
  """In any history of C API calls, a call with a NULL for a required handle, name or buffer, an index, slot, name, device, format or file that
  does not exist, or tensors that the call can not accept returns its failure value (NULL or 0) and leaves a message in ts_last_error_message;
  a call that succeeds leaves the message empty. A failing call ends neither the process nor any object: every handle given to it
  stays valid with its content, later calls work as if it had not been made, and no memory is read or written out of bounds.""",
  ["histories", "fault_sequences", "inputs"], """histories of 2-25 calls over all exported functions mixing valid and invalid arguments""",
  """Tests never pass invalid arguments. The guarantee covers every function, argument and order of calls.""",
  ["src/api/tensor.cpp", "src/api/module.cpp", "src/api/workbench.cpp", "src/api/program.cpp", "src/api/image_filter.cpp",
   "src/api/intime.cpp", "src/api/setup.cpp", "src/api/common.cpp", "src/api/declaration.h"],
  [("try/catch of every call", "src/api/declaration.h"), ("argument checks", "src/api/*.cpp")],
  "stateful property-based testing with generated invalid calls (release and ASan builds)", TRUST)

P("P18", "Image resizing and affine sampling follow their interpolation rules",
  """_resize2d gives, for images of any rank, element type and size (from one pixel, enlarging or reducing), the requested sizes of two adjacent dimensions
  with every batch and channel treated alone: output position i reads the input at (i+0.5)*in/out-0.5 limited to the image, by linear
  interpolation, the nearest pixel (halves up), or cubic convolution (a=-0.75, positions limited to 1..size-3, images smaller than 4 extended by their border);
  type hard reads floor(i*in/out). affine_sample2d reads position affine*(x,y,1) by the same rules (hard: its integer part); positions outside of the image (cubic: outside of
  1..size-3) give the outer value when there is one and else the border. Integer results are cut towards zero and limited to the type's range. sample2d is affine sampling by
  1/scale with outer value 0, sample2d_v2 is _resize2d to floor(size*scale), resize_nearest_neighbor is _resize2d nearest or, with align_corners, maps the corner pixels onto
  each other. Results do not depend on threads or earlier runs. Sizes that are not two adjacent positive numbers, empty images and wrong operand shapes
  are errors, and no access goes out of bounds.""",
  ["inputs", "configurations", "histories"], """images up to about 40x40 of 10 types, rank 2-5, any image dimension, exact and inexact ratios, exact, rotated and far-away affine maps,
  parameters as constants or run-time inputs, 1-4 threads""",
  """Tests print a few resized images and assert nothing. Borders, one pixel images, overshoot of integer types and rounding ties are data dependent.""",
  [K + "resize2d.cpp", K + "affine_sample2d.cpp", K + "sample2d.cpp", K + "sample2d_v2.cpp", K + "resize_nearest_neighbor.cpp",
   B + "base_resize2d.cpp", B + "base_affine_sample2d.cpp"],
  [("interpolation loops", K + "resize2d.cpp"), ("affine loops and outer value", K + "affine_sample2d.cpp"), ("size rules", B + "base_resize2d.cpp")],
  "property-based testing against a numpy reference (release and ASan builds)", TRUST)

P("P19", "ImageFilter pipelines apply their steps in order, exactly as documented",
  """An ImageFilter casts its image to 8-bit unsigned NHWC (h×w and h×w×c images become one image of one or c channels) and applies the added steps in order;
  without steps it returns the image itself. to_float, scale, sub_mean and div_std (per channel), resize and the short-side resize (long side
  rounded down), center_crop (zero padding smaller images), channel_swap, to_chw, prewhiten, norm_image, letterbox (scaled by the smaller ratio, anchored at the top left, rest
  outer_value), divided (padded at bottom and right to multiples), force_color and force_gray (default BGR weights, also for NULL or zero weights) give their documented result. The result is
  the same whether steps were added at once or after earlier runs, after clear, when the pipeline is exported with ts_ImageFilter_module, and when it is bound to
  an input of a workbench (also of its clone, and when the filter is changed afterwards); other inputs are untouched. The operators behind the steps (_nhwc_center_crop2d, _nhwc_scale_resize2d,
  _nhwc_letterbox, divided, _limit, force_color, force_gray, prewhiten, norm_image) do the same for every number type they support. Images a step cannot take
  (channel count, rank, integers for prewhiten and norm_image, resizing an empty image) are errors, never crashes or reads out of bounds.""",
  ["inputs", "histories", "configurations"], """pipelines of 0-6 steps, 1-3 rounds of extending, clearing and running, images up to 30x30x4 with 1-3 per batch, operators on
  10 types and rank 1-5, 1-4 threads""",
  """Tests run one fixed filter and only print. The guarantee covers every order of steps, image size and channel count, and every way of using the filter.""",
  ["src/runtime/image_filter.cpp", "src/api/image_filter.cpp", "src/backend/zoo/nhwc_center_crop2d.cpp", "src/backend/zoo/nhwc_scale_resize2d.cpp",
   "src/backend/zoo/nhwc_letterbox.cpp", "src/backend/zoo/divided.cpp", "src/backend/zoo/limit.cpp", K + "force_color.cpp", K + "force_gray.cpp",
   K + "norm_image.cpp", K + "prewhiten.cpp", "src/runtime/workbench.cpp"],
  [("pipeline construction and run", "src/runtime/image_filter.cpp"), ("filter applied to inputs", "src/runtime/workbench.cpp"),
   ("composite image operators", "src/backend/zoo")],
  "stateful property-based testing, every step against a numpy reference (release and ASan builds)", TRUST)

P("P21", "LSTM computes the documented recurrence in every direction",
  """The LSTM operator, for x [length, batch, inputs], weights W [directions, 4·hidden, inputs], R [directions, 4·hidden, hidden], biases [directions, 8·hidden] (gates in order i, o, f, c) and
  initial states h and c [directions, batch, hidden] (a tensor of less than three dimensions means zeros), gives the packed outputs y [length, directions, batch, hidden], final h and
  final c of the recurrence f = sigmoid(.), c' = f·c + i·tanh(.), h' = o·tanh(c'): forward over time, reverse from the last to the first step with y in the order of the input, or both
  for bidirectional. Results do not depend on threads or on earlier runs with other lengths and batches.""",
  ["inputs", "configurations", "histories"], """length 1-20, batch 1-4, inputs 1-10, hidden 1-12, float32 and float64, constant and run-time weights""",
  """There is no test of LSTM. Directions, missing initial states and changing lengths multiply.""",
  [K + "lstm.cpp", B + "base_lstm.cpp"], [("recurrence", K + "lstm.cpp"), ("directions and packing", B + "base_lstm.cpp")],
  "property-based testing against a numpy reference (release and ASan builds)", TRUST)

P("P20", "Detection operators produce the boxes and regions they define",
  """roi_align averages bilinear samples of the region's image over pool_h x pool_w cells (defaults spatial_scale 1, sampling_ratio 2; 0 or less: adaptive; a region of a negative image
  gives zeros). shape_index_patch cuts, for each position, the origin_patch·H/origin patch around it, with zeros outside (the corner is truncated toward zero). yolo applies the sigmoid
  to x, y, objectness and classes of each mask entry and passes on classes, mask and anchors; yolo_poster decodes every layer, keeps scores above thresh, suppresses per class overlaps
  above nms and gives one tensor per image [left, top, width, height, score, class]. prior_box (whole-number or fractional sizes and steps, flip, clip, offset, variance), detection_output (decoding
  1 CORNER, 2 CENTER_SIZE, 3 CORNER_SIZE, per-class greedy suppression with nms_top_k and nms_eta, keep_top_k, background class, shared locations) follow SSD; proposal
  (anchors from strides, ratios and scales, the best pre_nms_top_n boxes, size filter, suppression, post_nms_top_n, assignment to min_level..max_level by area) follows Faster R-CNN/FPN,
  each image from its own scores and deltas. The results hold for every batch and for further runs with other sizes; inputs whose rank, type or sizes do not fit are refused. Not specified:
  outcomes decided by equal scores or by a rounding error, and different scales per stride.""",
  ["inputs", "configurations", "histories"], """feature maps up to 12, 1-3 images, up to 30 priors per image and class, up to 960 yolo candidates, 1-3 feature levels; two runs per workbench""",
  """No test runs these operators. Their code is branchy (per class, per level, per image) and mistakes concern later images, rare options or empty results.""",
  [K + "roi_align.cpp", K + "shape_index_patch.cpp", K + "yolo.cpp", K + "yolo_poster.cpp", K + "prior_box.cpp", K + "detection_output.cpp", K + "proposal.cpp", K + "caffe/bbox_util.cpp",
   K + "dragon/proposal_op.cpp", K + "dragon/roi_align_op_kernel.cpp", K + "dragon/bbox_utils.cpp", B + "base_shape_index_patch.cpp"],
  [("yolo decoding and suppression", K + "yolo_poster.cpp"), ("SSD decoding and suppression", K + "caffe/bbox_util.cpp"), ("anchors, suppression and levels", K + "dragon/proposal_op.cpp"),
   ("region sampling", K + "dragon/roi_align_op_kernel.cpp")],
  "property-based testing against float64 references (release and ASan builds)", TRUST)

P("P25", "Streams and encrypted files return exactly what was written",
  """Whatever the sizes of the writes and of the reads, a reader returns the bytes written to the file or string in order: each read gives as many bytes as asked while there are
  that many and the rest at the end, then nothing more (0 or an error). A file written by EncryptedFileStreamWriter is the AES-256-ECB encryption with PKCS#7 padding of the bytes, under
  the first 32 bytes of the key (a shorter key is completed by the built-in one), and modules and tensors saved through it load as equal. A missing file is not open; an
  encrypted file whose length is no multiple of 16, or whose padding (with the given key) is not 1 to 16, gives an error and never bytes other than those it decrypts to. A write that
  failed is reported: by write, by close, by Module::Save or by ts_Tensor_save. FileStreamReaderV2 starts again after rewind, also from the end; str and clear of the string streams
  replace the contents and the end state. AES ECB, CBC and CTR (aes.h) agree with the standard for keys and initial vectors of every length, over several calls.""",
  ["inputs", "histories", "fault_sequences"], """up to 6000 bytes, keys up to 40 bytes, up to 60 writes and 400 reads per file, /dev/full and missing paths as faults""",
  """Tests encrypt one file in one way. Block boundaries against read and write sizes, damaged ends and full disks need search.""",
  ["src/encryption/aes.cpp", "src/encryption/aes_fstream.cpp", "src/encryption/encrypted_fstream.cpp", "src/module/io/fstream.cpp", "src/module/io/sstream.cpp", "src/module/module.cpp"],
  [("block buffering", "src/encryption/aes_fstream.cpp"), ("cipher", "src/encryption/aes.cpp"), ("stream state", "src/module/io/sstream.cpp")],
  "stateful property-based testing against byte-string models and an independent AES (release and ASan builds)", TRUST)

P("P29", "The C++ API does exactly what the C API does",
  """Whichever overload is used, the classes and helpers of ts::api (Workbench, Program, Module, ImageFilter, Tensor, Device; include/api/cpp) give what the C call they stand
  for is specified to give: the same results for the same history of calls, and where the C call fails a ts::api::Exception (or the documented null or false result) whose text is
  the C API's error message, after which the objects go on as before. Tensors made by the helpers of ts::api::tensor from values, vectors, strings and buffers hold those values
  converted to the type asked for, in the shape asked for (another element count is refused), and are read back unchanged as int, unsigned int, float, double, string or arrays of
  these; type_str and type_bytes name and measure every data type. Operators derived from ts::api::Operator receive their parameters and inputs, give one or several outputs, and
  an exception thrown in init or run makes that call fail with its text. The 2-D transformations of graphics2d.h compose, invert and apply to points as 3x3 matrices.""",
  ["histories", "inputs", "programs"], """every history of the checks of workbenches, filters, tensor handles and fusion with a random overload at each call; values of all numeric types, 0 to 6 per
  dimension; chains of up to 6 transformations in float and double""",
  """No test includes the C++ headers with the library's results checked; the headers are the API users compile, and each overload is separate code.""",
  ["include/api/cpp/workbench.h", "include/api/cpp/program.h", "include/api/cpp/module.h", "include/api/cpp/image_filter.h", "include/api/cpp/tensor.h", "include/api/cpp/operator.h",
   "include/api/cpp/graphics2d.h", "include/api/cpp/dtype.h"],
  [("overloads over the C calls", "include/api/cpp/*.h"), ("operator class trampolines", "include/api/cpp/operator.h")],
  "stateful property-based testing, differential against the models of the C API's checks", TRUST)

P("P31", "The intime functions compute what the operators they name compute",
  """Every function of ts_intime_* (C) and ts::api::intime (C++), called in the context of a workbench, returns a new tensor equal to what the operator it stands for is specified to
  give for those arguments: transpose, sigmoid, gather, concat, softmax, pad, cast, resize2d, affine_sample2d (with and without outer value), and matmul as a product of matrices.
  Arguments are not modified, the results stay valid and unchanged after other calls, runs of the workbench and its end, and calls in between do not change what the workbench
  computes. Arguments the operator refuses give an error and no result. ts_intime_memcpy copies exactly the bytes asked for between buffers, within the range given.""",
  ["inputs", "histories"], """the argument ranges of the operators' own checks, several calls per context, empty and loaded workbenches, thread counts 1 to 4""",
  """No test calls an intime function more than once; argument order, defaults and lifetime show only over inputs and histories.""",
  ["src/api/intime.cpp", "src/frontend/intime.cpp", "include/api/cpp/intime.h"],
  [("operator lookup and call", "src/api/intime.cpp")],
  "property-based testing against the operators' references", TRUST)

P("P32", "The C++ graph frontend builds and loads the program it describes",
  """A node made by a function of ts::symbol or ts::frontend (add, sub, mul, div, transpose, sigmoid, gather, concat, softmax, cast, pad, resize2d, affine_sample2d, affine_on_sample2d,
  matmul, broadcast, in every overload, inputs being nodes or tensors) computes, in the compiled program, what its operator is specified to compute for the arguments given;
  so do the functions of ts::intime in the workbench of the context or one given. A graph built of such nodes and of ts::bubble::param, data, op and bubble nodes, loaded into a Module by
  its sinks, by output nodes or by output names, has those outputs in that order and exactly the parameters they need as inputs, and once sort_inputs gave them an order (by
  names or by nodes, inputs nothing needs may be listed by nodes), compiling and running the module gives the graph's values. It keeps working after the Graph object is gone; clear() empties it;
  loading a second graph adds its inputs and outputs; set_param changes what programs compiled later compute. Unknown or ambiguous output names, outputs of another graph, and sort_inputs
  with unknown names or missing inputs throw, and a refused sort_inputs leaves the inputs as they were.""",
  ["inputs", "programs", "histories"], """every frontend function over its operator's own check's inputs; random graphs of up to 12 operators, 3 inputs, every way of loading and sorting, one or two graphs per module""",
  """No test builds a graph with the frontend functions and looks at what it computes; a wrong operator, argument order or overload shows only when such a graph is run.""",
  ["src/frontend/symbol.cpp", "src/frontend/frontend.cpp", "src/frontend/desc.cpp", "src/frontend/intime.cpp", "src/module/module.cpp", "src/module/menu.cpp"],
  [("node functions", "src/frontend/symbol.cpp"), ("loading and sorting", "src/module/module.cpp"), ("operators in time", "src/frontend/intime.cpp")],
  "property-based testing: generated graphs against numpy", TRUST)

P("P33", "Tasks given to a thread pool run exactly once and joins wait for them",
  """Every task given to ThreadPool::run or Thread::run (a Thread being joined before it is given its next task) runs exactly once and the task given to follow it exactly once after it,
  both with the same number in [0, size of the pool) (for a Thread: its own), and no two tasks run at the same time with the same number of one pool. A pool of size 0 runs both in the caller before run
  returns and returns no Thread. ThreadPool::join returns only when everything given before it has ended, Thread::join when its task has; what the tasks wrote is then visible to
  the caller. busy() of a pool or Thread is true from run until the task given to it has ended, and false once everything was joined and nobody gives it tasks. Pools work the same when several threads give them tasks and
  join them at once, also when they are made and destroyed again and again. parallel_run, parallel_range and the TS_PARALLEL macros visit each element of the range exactly once, joined or synced later, on the pool of
  the context with numbers in [0, parallel_size()), in the caller without one. split_bins and lsplit_bins cut a range into at most the asked number of adjoining bins that cover it, all
  equal but the last, which may be smaller. ctx::bind makes an object the context of its own thread only, nests, and gives back the one before when it ends.
  Not covered: tasks that throw, tasks that give or join tasks of their own pool, pools destroyed while tasks are pending.""",
  ["schedules", "programs", "inputs"], """pools of 0 to 6 threads, 1 to 4 submitting threads, up to 12 operations each, ranges of up to 400 elements, bounds of ranges up to 2^29 (2^40 for the long form)""",
  """No test runs a pool at all; lost wake ups and early joins depend on the interleaving, which only many programs on many schedules meet.""",
  ["src/runtime/inside/thread_pool.cpp", "include/runtime/inside/thread_pool.h", "include/runtime/inside/parallel.h", "src/utils/box.cpp", "include/utils/ctxmgr_lite.h"],
  [("threads and the pool", "src/runtime/inside/thread_pool.cpp"), ("parallel loops", "include/runtime/inside/parallel.h")],
  "property-based testing: generated programs and schedules against a history checker, and ThreadSanitizer", TRUST)

P("P34", "Tensors, stacks and bubbles of the C++ core behave as values with known sharing",
  """A ts::Tensor made from a type, sizes and memory of any constructor or controller holds what is written to it. Copies, reshape, flatten, field, view, weak, strong and cast to the same type
  share its memory (what one writes all see), slices are windows into it, clone and cast to another type are independent; memory lives while an owner does. Reshape accepts exactly the sizes with as many elements, one of which may be
  open; slices, fields and stack indexes out of range are refused. pack, Pack, unpack, refield and field hold the fields given in order, pack of none and refield(0) empty the tensor. has_shape, prototypes, their
  texts and comparisons, and conversions to numbers and arrays tell the tensor's types, sizes and values; writing and reading a tensor gives back the same. A ts::Stack holds what is pushed,
  made, copied or cloned, in order, with indexes relative to its current frame (negative ones to the top), and push_base, pop_base, rebase, pop, erase and clear change exactly what they name. A ts::Bubble keeps op, name, shape, type and
  parameters as set, copied, moved, cleared, and written and read back over any other. memory copies and views between them agree; broadcast of a tensor leaves it and its views as they were. edit_distance is the least number of
  insertions and deletions between two texts.
  Not covered: nested packed fields, values outside the range of the type cast to, use of weak tensors or slices after their owner is gone, negative indexes below the frame.""",
  ["histories", "inputs"], """histories of up to 40 calls over up to 10 tensors of up to 4 fields and 4 dimensions, one stack, two bubbles; strings of up to 12 characters""",
  """Tests build single tensors; wrong sharing or ownership shows only over histories in which tensors outlive, alias and replace each other.""",
  ["src/core/tensor.cpp", "include/core/tensor.h", "src/core/tensor_builder.cpp", "src/runtime/stack.cpp", "src/module/bubble.cpp", "src/utils/box.cpp", "include/core/sync/sync_block.h"],
  [("tensors", "src/core/tensor.cpp"), ("the stack", "src/runtime/stack.cpp"), ("bubbles", "src/module/bubble.cpp"), ("shared memory", "include/core/threadsafe/smart.h")],
  "stateful property-based testing against models, with AddressSanitizer", TRUST)

P("P35", "Operators given what they are not made for answer with an error or a result",
  """An operator of a program that gets a run-time input, a constant or a parameter it is not made for - left unset, of another element type, rank or sizes, empty, without dimensions, with
  several fields, with values out of range, not finite or negative; a parameter missing, of another sign, size, type or value - either reports an error through the API or gives a result. It does not end
  the process, hang, or read or write memory outside its tensors. The workbench in which such inputs ran stays usable: the inputs it is made for are accepted after it and give exactly what they gave before.
  One thing is wrong at a time. Which of the two answers is given is not part of it (P09-P21 say which inputs are refused); nor are sizes too large for the memory.""",
  ["inputs", "histories"], """about 100 operators; one change to an otherwise valid case of their own checks; tensors of at most 20000 elements""",
  """Tests run operators on what they are made for; what happens otherwise is decided by checks spread over every operator, and one that lacks shows only for one kind of input.""",
  ["src/backend/base", "src/kernels/cpu", "src/runtime/operator.cpp", "src/runtime/workbench.cpp", "src/runtime/instruction.cpp"],
  [("checks of operators", "src/backend/base/base_conv2d.cpp"), ("errors of a run", "src/runtime/workbench.cpp")],
  "property-based testing: fault injection into generated valid cases, with AddressSanitizer", TRUST)

P("P08", "Shape inference never contradicts what an operator or program produces",
  """For every operator and input it accepts, the types and sizes the operator announces when it is only asked for them (Workbench::offline_infer, Operator::infer) are exactly those of
  what it produces when it runs, whether run by itself (Workbench::offline_run) or in a program, and both runs give the same values. For a graph whose inputs are marked with their
  type and sizes, some of them possibly open (-1), static inference (ts::infer) gives for every node either nothing, or a type and sizes that the node has when the graph is run with
  inputs of such sizes: the type exactly, every size that is not open exactly, every value known before running exactly. It does not fail on graphs that run when no size is open,
  and, for the operators it has a method for other than those whose sizes depend on values, the result has no open size when the first input's sizes and the values of the others are
  given. Each module is inferred for one set of sizes; inputs the operators refuse are not part of it.""",
  ["inputs", "programs"], """every operator over its own check's inputs, any subset of inputs constant and of sizes open, random graphs of up to 14 operators, four ways of calling inference""",
  """No test calls inference. Whether prediction and execution agree depends on attributes, ranks, defaults, open sizes and constants together.""",
  ["src/runtime/inferer.cpp", "src/runtime/inferer/factory.cpp", "include/runtime/inferer.h", "src/runtime/workbench.cpp"],
  [("static inference", "src/runtime/inferer.cpp"), ("per operator methods", "src/runtime/inferer/factory.cpp"), ("operators outside programs", "src/runtime/workbench.cpp")],
  "property-based testing: inferred types, sizes and values against execution", TRUST)

P("P24", "Memory is reused, bounded, released, reported, and free to leave its thread",
  """Histories of public calls that end with every object freed leave no tensor memory allocated, and repeating any such history, failing calls included, does not make the process
  hold more: no byte, block or C++ object stays behind each time. Running a workbench again and again with inputs of the same shapes stops taking memory; equal runs
  give equal results however often they were repeated. Output tensors of a workbench may be read and freed in other threads while it runs again, keep their values, and stay valid
  after it. A memory controller gives blocks that do not overlap and keep their contents and place until freed, also after the controller has ended; a flow controller takes no new memory
  while one of its free blocks is large enough, never holds more blocks than were in use at one time, and gives back what is free when it ends; summary() is what it holds.
  HardMemory keeps its contents through expect and shrink and has the capacity asked for. ts_Workbench_summary is JSON giving device, thread number, shared and flow memory as sizes that
  round the true ones.""",
  ["histories", "inputs", "schedules"], """up to 80 controller operations over 3 controllers, histories as in P06, P19, P23 and P27 repeated up to 12 times, 40 runs per graph, up to 40 runs against 3 consuming threads""",
  """Leaks, growth and sharing show only over repeated histories and schedules; the tests run everything once in one thread and never count.""",
  ["src/memory/flow.cpp", "src/memory/orz/vat.cpp", "src/memory/orz/pot.cpp", "src/core/hard_memory.cpp", "src/core/memory.cpp", "src/core/controller.cpp", "include/core/sync/sync_controller.h",
   "src/runtime/workbench.cpp", "src/utils/box.cpp"],
  [("pool of blocks", "src/memory/orz/vat.cpp"), ("flow memory of a workbench", "src/memory/flow.cpp"), ("summary", "src/runtime/workbench.cpp")],
  "stateful property-based testing with a counting allocator below the library and counted C++ allocations; ThreadSanitizer and ASan builds", TRUST)

P("P30", "Running out of memory is an error of one call and nothing else",
  """Whenever the allocator of tensor memory refuses a request - any one, or all from some point on - during a call of the C API, that call either still gives its specified result or
  fails with its failure value and a message; the process goes on. Nothing else changes: values of tensors, modules and filters, outputs kept before and other workbenches stay
  as they were, a filter keeps exactly the steps that were added successfully, and once memory is there again the same workbench, program or filter gives the specified results, for every
  operator. After everything is freed no tensor memory stays allocated. HardMemory frees its block exactly once whatever size change failed.""",
  ["fault_sequences", "histories", "inputs"], """the 1st to 12th request of a call, single or lasting, any size or only large ones; the operators and inputs of the checks P09-P18 and P20-P22, random graphs, every call of the C API""",
  """No test makes an allocation fail; which request of which call fails is a fault space only a search covers.""",
  ["src/kernels/cpu/memory_cpu.cpp", "src/core/hard_memory.cpp", "src/global/hard_allocator.cpp", "src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/image_filter.cpp", "src/memory/flow.cpp", "src/api/workbench.cpp"],
  [("failing allocation", "src/kernels/cpu/memory_cpu.cpp"), ("rollback of filter steps", "src/runtime/image_filter.cpp"), ("error of an API call", "src/api/declaration.h" if os.path.exists("/repo/src/api/declaration.h") else "src/api/workbench.cpp")],
  "fault injection driven by random generation (refused allocations), against the operators' references and state models (release and ASan builds)", TRUST)

if __name__ == "__main__":
    os.makedirs(os.path.join(H, "meta"), exist_ok=True)
    for i, d in OUT.items():
        json.dump(d, open(os.path.join(H, "meta", i + ".json"), "w"), indent=1, ensure_ascii=False)
    import runpy
    runpy.run_path(os.path.join(H, "mk.py"))
