NF = "value-graph dataflow over the generator source, template expansion, and normal-form comparison of the emitted loop nest with a reference loop nest for symbolic extents; value numbering of the unrolled loop nest at enumerated extents"
prop("C01", "Generated C moves data exactly as each layout operator defines",
     "For every layer that only rearranges data (concatenation along any axis, gather, gather-elements, tile, transpose, constant and edge padding, input layout conversion, stored constants) the generated C writes, at every output position, exactly the input element (or fill value) that the operator definition assigns to that position, passed once through the layer's activation. This holds for every shape, axis, permutation, number of inputs and padding amount the layer accepts.",
     ["inputs", "configurations"], "all input values, tensor shapes, axes, permutations, repeat counts, padding amounts, number of concatenated tensors",
     "Tests run one or two shapes per layer, mostly square or with unit dimensions, where a swapped extent, a wrong border or a wrong stride is invisible.",
     ["generator/layers/concatenate/ConcatenateDefault.py", "generator/layers/gather/GatherDefault.py", "generator/layers/gather_elements/GatherElementsDefault.py", "generator/layers/tile/TileDefault.py", "generator/layers/transpose/TransposeDefault.py", "generator/layers/padding/Pad.py", "generator/layers/padding/constant_pad/ConstantPadDefault.py", "generator/layers/padding/edge_pad/EdgePadDefault.py", "generator/layers/input/InputDefault.py", "generator/layers/constant.py"],
     [("per-layer code emission", "generator/layers/concatenate/ConcatenateDefault.py"), ("index arithmetic of the templates", "templates/layers/template_Concatenate.c.tpl")],
     NF, "Equality of effects for all shapes once both normal forms are decided, at enumerated extents where there is no normal form; reals instead of floats; template rendering and Python semantics as modelled by the analyser are trusted.")
prop("C02", "Generated C of convolution, pooling and matrix layers computes the operator",
     "For every convolution algorithm that can be selected for a convolution layer, and for max and average pooling, dense, matrix product and general matrix product layers, the generated C writes at every output position the value the operator defines: the right window or row and column, padding outside the input contributing nothing, the right weight for each element, the bias added once and the activation applied once. This holds for every shape, stride, dilation, padding and transposition flag.",
     ["inputs", "configurations"], "all input values, weights, shapes, kernel sizes, strides, dilations, asymmetric paddings, transposition flags and scalar factors",
     "Tests cover a handful of square kernels and symmetric paddings with unit dilation; index and window errors only show for rectangular, dilated or asymmetric configurations.",
     ["generator/layers/convolution/Conv2D6loops.py", "generator/layers/convolution/Conv2DStdGemm.py", "generator/layers/convolution/Conv2DGemm.py", "generator/layers/pooling/Pooling2D.py", "generator/layers/dense/DenseDefault.py", "generator/layers/matmul/MatMulDefault.py", "generator/layers/gemm/GemmDefault.py"],
     [("convolution templates", "templates/layers/Conv/template_Conv_6loops.c.tpl"), ("im2col", "templates/layers/Conv/template_im2col.c.tpl"), ("pooling template", "templates/layers/template_Pooling2D.c.tpl"), ("gemm templates", "templates/layers/Gemm/template_gemm_nn.c.tpl")],
     NF, "As C01. Variants whose code the analyser cannot reduce (indirect gemm, gemm_target, block convolutions, the tn gemm) are listed as undecided in the evidence and not claimed.")
prop("C03", "Generated C of elementwise, reduction and normalising layers is the operator",
     "For the elementwise operators with numpy broadcasting (add, subtract, multiply, divide, average, maximum, minimum, with any number of operands and an optional constant operand), batch normalisation, softmax, the five reductions over any set of axes, and standalone activation layers, the generated C writes at every output position the value of the operator's definition over exactly the elements it ranges over, passed once through the layer's activation.",
     ["inputs", "configurations"], "all input values and shapes, every set of reduced axes, every broadcastable combination of operand shapes, any fused activation",
     "Tests use one shape per axis set and rarely combine broadcasting with a constant operand or a fused activation.",
     ["generator/layers/broadcast/Broadcast.py", "generator/layers/reduce/Reduce.py", "generator/layers/softmax/SoftmaxDefault.py", "generator/layers/batch_normalization/BatchNormalizationDefault.py", "generator/layers/activation_layers/ActivationLayerDefault.py"],
     [("broadcast template", "templates/layers/template_Broadcast.c.tpl"), ("reduction template", "templates/layers/template_Reduce.c.tpl"), ("softmax template", "templates/layers/template_Softmax.c.tpl")],
     NF, "As C01.")
PYF = "abstract interpretation of the reference implementation into pointwise array normal forms, compared with a reference definition; value numbering at enumerated extents; in-place-update effect rule"
prop("C04", "The Python reference computes the operators and leaves its inputs alone",
     "The Python reference of every layer returns, at every output position, the value of the operator that the generated C is meant to compute, with the fused activation applied exactly once, for every shape, stride, dilation, padding, axis, number of operands and optional constant it accepts. It never modifies the arrays it is given, so a tensor consumed by several layers has the same value for all of them.",
     ["inputs", "configurations"], "all input values, shapes and layer parameters; any number of consumers of a tensor",
     "The suite compares the C output with the Python output, so a shared or Python-only mistake on shapes it does not sample is invisible, and in-place updates only show on branching graphs.",
     ["generator/layers/pooling/Pooling2D.py", "generator/layers/convolution/Conv2D.py", "generator/layers/gemm/Gemm.py", "generator/layers/reduce/Reduce.py", "generator/layers/softmax/Softmax.py", "generator/layers/padding/wrap_pad/WrapPad.py", "generator/layers/broadcast/average/Average.py"],
     [("reference implementations", "generator/layers/convolution/Conv2D.py"), ("reference run over the graph", "generator/neural_network.py")],
     PYF, "numpy semantics as modelled by the analyser are trusted; what has no normal form for symbolic extents is decided at enumerated extents only; input conversion is listed as undecided.")
prop("C05", "Activation functions mean the same in Python, in C and wherever C puts them",
     "Every activation function has one definition: its Python computation and the C expression it writes both equal it for every operand and parameter value, and the saturating ones (sigmoid, hyperbolic tangent) never take the exponential of an operand that can be arbitrarily large. Wherever a layer inserts the C expression, it applies to the whole operand it was given, whatever expression that operand is.",
     ["inputs", "configurations"], "all operand values and activation parameters, all layers and operand expressions",
     "Tests evaluate activations on small random tensors, where wrong branches at the extremes, boundary handling and operator precedence go unnoticed.",
     ["generator/activation_functions.py"],
     [("C expression and Python computation of each function", "generator/activation_functions.py")],
     "normal-form comparison of the derived C expression, of the Python computation and of the definition; guarded-exponential rule; parse-tree comparison of every emitted layer with the expression substituted", "Resize layers whose code does not parse and the quantised shift are undecided (the latter is C22).")

prop("C12", "Selecting an implementation never changes the layer",
     "Whatever implementation is selected for a layer, the layer that replaces it has every parameter of the original (shapes, strides, paddings, axes, weights, constants, activation, names) and its place in the graph. The selection itself is by layer index first, then by layer kind, then the default of the kind; an implementation name that is not registered is refused, and registering a name twice is refused.",
     ["configurations"], "all layer kinds and parameters, all registered implementations, all version selections",
     "A parameter lost while a layer is rebuilt only shows when a test uses a non-default value of that parameter together with that implementation.",
     ["versioning/versioning.py", "versioning/layer_factories.py", "generator/neural_network.py", "generator/layers/convolution/Conv2DStdGemm.py", "generator/layers/pooling/max_pooling/MaxPooling2DDefault.py"],
     [("replacement of layers", "versioning/versioning.py"), ("registry", "versioning/layer_factories.py"), ("selection", "generator/neural_network.py")],
     "value-graph comparison of every field of the replaced and of the replacing layer object, for every registration found by interpreting the module-level registration statements; value-graph comparison of registry lookup, dispatch and selection with their definition", "Replacement and selection are decided on layer lists of three representative layers.")
prop("C06", "Optimising a network keeps what it computes",
     "With graph optimisation on, the rewritten network computes the same function as the network that was loaded: fusing an activation, folding a batch normalisation into a convolution, or replacing x*sigmoid(x) by a silu never loses an activation, an operand or a coefficient, and every layer still finds its operands in the buffer it reads. Layer indices stay distinct and removed layers are no longer referenced.",
     ["programs", "configurations"], "all network graphs (branches, shared tensors, any numbering of the layers), all layer kinds and activations",
     "Tests optimise a few networks, mostly chains; a rewrite applied under a wrong condition, or buffers and saved outputs not moved with the tensor, only show on particular branching shapes.",
     ["pattern_matching/Pattern.py", "pattern_matching/PatternMatcher.py", "pattern_matching/patterns/FuseActivationLayers.py", "pattern_matching/patterns/FuseConvBatchNorm.py", "pattern_matching/patterns/FuseSigmoidMul.py"],
     [("rewrite driver", "pattern_matching/PatternMatcher.py"), ("bookkeeping of links, indices and saved outputs", "pattern_matching/Pattern.py"), ("rewrites", "pattern_matching/patterns/FuseActivationLayers.py")],
     "abstract interpretation of the rewriting code over enumerated graph schemas (layers and weights symbolic), comparing the term denoted by the network before and after, by links and by buffers; array normal forms for the folded coefficients",
     "Every graph of up to 3 computing layers over the kinds the rewrites look at, every layer kind as producer, and 2500 larger schemas (thorough: 36000); larger graphs rest on the rewrites being local.")
prop("C09", "Every operand is still in its buffer when it is read",
     "For every network graph, layers are evaluated after all their operands, each exactly once, and between the evaluation of a layer and the last layer that uses its output no other layer writes the buffer that the readers are told to read. The number of buffers declared covers every buffer used, and the prediction is read from the output of the last layer of the network.",
     ["programs"], "all network graphs: branches, tensors used several times or twice by the same layer, stored constants, any order of layers in the model file",
     "Each test network exercises one allocation; sharing a buffer too early only shows for particular branching shapes and consumer orders.",
     ["graph/graph_interpretor.py", "ir/layer.py"],
     [("topological sort", "graph/graph_interpretor.py"), ("liveness of paths and saved outputs", "graph/graph_interpretor.py"), ("output naming", "ir/layer.py")],
     "abstract interpretation of the sort and allocation over enumerated graph schemas with an exact model of lists, queues and dictionaries; last-writer rule per buffer",
     "All graphs of one input and up to 5 computing layers with one or two operands each (thorough: 6), with stored constants up to 3; larger graphs are not decided.")
prop("C14", "Importing an ONNX model keeps the meaning of every node",
     "Importing an ONNX model gives each supported operator a layer with exactly the parameters the ONNX operator specification gives the node (attributes present or left to their default, negative axes, meaning depending on the opset, tensors of lower rank, explicit or automatic padding), with its weights and its operands in order. Nodes that only pass data through are skipped without changing who reads what. Operators and attribute combinations without an equivalent layer are refused.",
     ["inputs", "programs", "configurations"], "all graphs of supported operators, all attribute values and omissions, tensor ranks, opset versions, names and sharing of tensors",
     "Tests import a few models exported by one tool, with the attributes that tool writes; defaults, negative axes, lower ranks, shared tensors and other opsets are not sampled.",
     ["importers/ONNX_importer/create_layer.py", "importers/ONNX_importer/parser_ONNX.py", "ir/layer.py"],
     [("one layer per node", "importers/ONNX_importer/create_layer.py"), ("walk over the graph", "importers/ONNX_importer/parser_ONNX.py"), ("padding amounts", "ir/layer.py")],
     "abstract interpretation of the importer over enumerated model schemas (every operator, attribute presence, rank and opset; symbolic weights), comparing each layer built and its operands with those the ONNX operator specification gives",
     "Enumerated schemas per operator plus 120 generated graphs; the protobuf and onnx helper functions are modelled, not analysed.")
prop("C21", "Layers refuse geometry that does not fit and record what does",
     "Building a layer whose declared size, extents, weight, bias or constant shapes, axes, indices, repeats or permutation do not fit its operator is refused with an error before any code is generated, and every layer whose parameters fit is accepted. The geometry recorded by the layer (element counts of weights and biases, extents, broadcast shapes, and the padding of each of the four sides for explicit, valid, same, SAME_UPPER and SAME_LOWER requests with any stride and dilation) is what the operator defines.",
     ["inputs", "configurations"], "all layer kinds and constructor arguments, rectangular shapes, strides, dilations, paddings",
     "Tests build layers from consistent models only, with mostly square windows; a check that no longer refuses, refuses too much, or a padding wrong for one stride and extent is not sampled.",
     ["ir/layer.py", "generator/layers/convolution/Conv2D.py", "generator/layers/pooling/Pooling2D.py", "generator/layers/dense/Dense.py", "generator/layers/gemm/Gemm.py", "generator/layers/matmul/MatMul.py", "generator/layers/broadcast/Broadcast.py", "generator/layers/reduce/Reduce.py", "generator/layers/gather/Gather.py", "generator/layers/gather_elements/GatherElements.py", "generator/layers/concatenate/Concatenate.py", "generator/layers/tile/Tile.py", "generator/layers/transpose/Transpose.py", "generator/layers/padding/Pad.py"],
     [("padding amounts", "ir/layer.py"), ("consistency checks of the constructors", "generator/layers/convolution/Conv2D.py")],
     "abstract interpretation of every constructor over enumerated parameter schemas (fitting ones and one-field perturbations of them), comparing acceptance and recorded fields with the operator definition",
     "Enumerated extents, strides, dilations and shapes; checks of argument types alone are not claimed, nor the resize layers.")

EMT = "abstract interpretation of the generator over enumerated networks gives the emitted files; "
prop("C07", "The generated code stays inside its arrays and reads only what it wrote",
     "In the C code generated for any accepted network and generator options, every array access stays within the extent the array is declared with, whether it is a shared layer buffer, a scratch buffer, weights, constants, the input or the prediction. No element is read before the same inference wrote it, constants are never written, and no integer is divided by zero.",
     ["programs", "configurations"], "all networks, implementations of the layers and options; extents of 1, strides, paddings and shared buffers included",
     "Out-of-bounds and stale reads usually return plausible values: the tests compare outputs and do not run a sanitizer, and only on their few shapes.",
     ["generator/neural_network.py", "templates/template_header_file.c.tpl", "templates/template_source_file.c.tpl", "generator/layers/convolution/Conv2DStdGemm.py", "generator/layers/padding/Pad.py", "generator/layers/gather/Gather.py"],
     [("extents of the declared buffers", "generator/neural_network.py"), ("declarations", "templates/template_header_file.c.tpl"), ("layer code", "templates/template_source_file.c.tpl")],
     EMT + "constant propagation of every index and dependency propagation of every element through the emitted C, against the extents the emitted header declares",
     "Networks with constant shapes: one per supported operator variant, generated branching graphs, generated channels-last networks; values are unknown to the analysis, so both branches of a condition on values are taken. Resize layers, the LSTM layer and the indirect and tn/tt/nt gemm convolutions are undecided or excluded.")
prop("C08", "Sharing buffers never changes what a layer computes",
     "In the C code generated for any accepted network, each element of each layer's output, and of the prediction, is computed from exactly the same elements of the layer's operands as it would be if every layer had a buffer of its own. It never depends on anything else left in a shared, stored or scratch buffer.",
     ["programs", "configurations"], "all networks: branches, layers that write over an operand, stored tensors, several inferences with the same context",
     "Whether a layer may overwrite its operand in place depends on the order of its loops and on who reads the operand next; tests exercise a few chains.",
     ["generator/neural_network.py", "graph/graph_interpretor.py", "ir/layer.py", "templates/template_source_file.c.tpl", "templates/layers/template_Transpose.c.tpl", "templates/layers/template_Concatenate.c.tpl"],
     [("buffer of each layer", "ir/layer.py"), ("scratch buffer and copy back", "templates/template_source_file.c.tpl"), ("allocation", "graph/graph_interpretor.py")],
     EMT + "dependency analysis per element of the emitted C, compared with that of the program emitted with a private buffer per layer",
     "Networks with constant shapes, as C07; the dependencies compared are sets of tensor elements, the computation itself is C01-C05.")
prop("C10", "What is generated is a complete project that compiles",
     "For every accepted network and every combination of generator options (optimisation, binary data set, inputs read at run time, debug and verbose modes, number format, implementations, function name, makefile properties), generation succeeds and the files it writes form a complete C project: the Makefile builds the requested targets from generated files only, with the requested compiler and flags, every included file is generated, every name is declared and defined exactly once, and the sources compile and link.",
     ["programs", "configurations"], "all networks, generator options and selected implementations",
     "Tests build a few networks with mostly default options; code written only for one option or one layer under that option is not compiled.",
     ["generator/neural_network.py", "templates/template_makefile.tpl", "templates/template_header_file.c.tpl", "templates/template_source_file.c.tpl", "templates/template_main_file.c.tpl", "templates/template_parameter_file.c.tpl"],
     [("file emission", "generator/neural_network.py"), ("Makefile", "templates/template_makefile.tpl"), ("declarations and definitions", "templates/template_header_file.c.tpl")],
     EMT + "makefile dependency analysis, and the type checker and linker of a C compiler as witness on the derived texts (compiled, never run)",
     "Enumerated networks and options; debug_mode time and named targets are excluded.")
prop("C11", "The stored parameters and test data are those of the network",
     "The parameter and test data files generated for a network (C initialisers and binary images, with any number format and data type) hold every weight, bias, statistic and constant of every layer and every test sample, exactly the value of the network, in the order the layer code indexes them. The declared extents, the offsets, alignment and symbols of the binary images and the sizes and names used by the training hook agree with what is stored.",
     ["inputs", "programs", "configurations"], "all networks, parameter values and data sets; number formats, data types, binary or source data sets, implementations with their own weight layout",
     "Tests compare outputs to a tolerance on small networks: a truncated value, two parameters swapped in the binary image or a size taken from another array goes unnoticed when it is not the parameter of a tested layer.",
     ["generator/neural_network.py", "templates/template_parameter_file.c.tpl", "templates/template_test_dataset_source.c.tpl", "templates/template_train_hook_file.c.tpl", "generator/layers/convolution/Conv2Ddirect_block.py", "templates/template_makefile.tpl"],
     [("parameter file and binary image", "generator/neural_network.py"), ("symbols of the binary image", "templates/template_makefile.tpl"), ("training hook", "templates/template_train_hook_file.c.tpl")],
     EMT + "the expression behind each written number compared with the array element it stands for (literal folding), offsets and extents compared across the files",
     "Enumerated networks with symbolic parameters; the number formatting of Python and the reading of C literals are modelled.")
prop("C25", "The programs that run the network evaluate each sample once and in order",
     "The generated main program and batch loop evaluate every test sample exactly once, from its own inputs, in a context no other concurrent evaluation uses, and store and print its outputs in its own row and in order, whatever the number of samples and the batch size. They read the inputs given at run time in order and report the mean time per sample. The Python reference run evaluates, for every sample, every layer once on the outputs of its predecessors, and writes the outputs of the last layer in the layout the generated code prints.",
     ["inputs", "configurations", "schedules"], "all numbers of samples (below, at and above the batch size), data types, input sources, number formats, networks",
     "Tests run a handful of samples, always fewer than one batch, with the inputs compiled in.",
     ["generator/neural_network.py", "templates/template_main_file.c.tpl", "templates/template_train_hook_file.c.tpl"],
     [("main program", "templates/template_main_file.c.tpl"), ("batch loop", "templates/template_train_hook_file.c.tpl"), ("reference run", "generator/neural_network.py")],
     EMT + "abstract run of the emitted driver with inference, files and clock replaced by summaries, race rule on its parallel loops; abstract run of the reference evaluation with the layers replaced by summaries",
     "Enumerated numbers of samples up to 70 (batch size 32).")
prop("C18", "The command line tools pass on what they are given and report differences",
     "acetone_generate gives the generator, the C emission and the reference run exactly the options given on the command line (or their documented defaults), into the requested directory, and refuses missing or unknown arguments. acetone_compare declares two runs equal if and only if both files hold the requested number of inferences, with as many values on each, and every pair of values agrees within the tolerance of the comparison; a value that is not a number or is missing always shows, and the largest differences reported are taken over all the pairs.",
     ["inputs", "configurations"], "all combinations of options and all contents of the two output files",
     "Tests run the tools with a few options on outputs that agree; a verdict that ignores a row, a short file or a nan is never exercised.",
     ["cli/generate.py", "cli/compare.py"],
     [("generation command", "cli/generate.py"), ("comparison command", "cli/compare.py")],
     "constant propagation through the two programs over enumerated argument lists and file tables; every call to the generator and every verdict compared with the definition",
     "Enumerated argument lists and file contents; argparse and numpy's number parsing are modelled.")
prop("C19", "Generation writes exactly the announced files and never over existing ones",
     "Generating a network writes the files announced for the chosen options, all of them and no other, in the requested directory. If any of them exists already, generation refuses before changing anything there. With custom generation functions, each chosen file is produced by the function given for it and the others by the default one; an unknown file name is refused.",
     ["configurations", "histories"], "all option combinations, networks, sets of already existing files, custom generation functions",
     "Tests always generate in a fresh directory with the default functions.",
     ["generator/neural_network.py"],
     [("list of files and refusal", "generator/neural_network.py"), ("choice of the generation functions", "generator/neural_network.py")],
     "file-effect analysis of the generation: abstract interpretation with a model of which files exist, over enumerated options, existing files and custom functions",
     "Enumerated options and networks.")
prop("C26", "Resizing interpolates as the operator defines",
     "For nearest, linear and cubic resizing, every coordinate transformation mode, rounding mode, cubic coefficient and treatment of what lies outside, whether scales or a size are given, for growing and shrinking and for extents of one, each output element is the combination of input elements the operator defines, in the generated C and in the Python reference; no code reads outside its input and the output has the requested extents.",
     ["inputs", "configurations"], "all input values, extents, scales and sizes, modes, rounding modes, coefficients, regions of interest",
     "Tests compare C with Python, or with one framework on one shape per mode, mostly doubling a square image.",
     ["generator/layers/resize/Resize.py", "generator/layers/resize/resize_linear/ResizeLinear.py", "generator/layers/resize/resize_cubic/ResizeCubic.py", "generator/layers/resize/resize_nearest/ResizeNearest.py"],
     [("coordinate transformation", "generator/layers/resize/Resize.py"), ("interpolation code", "generator/layers/resize/resize_cubic/ResizeCubicDefault.py")],
     "value numbering: the emitted loop nest and the reference are unrolled in the analysis at enumerated extents and modes, every output element as a polynomial over input elements is compared with the operator's definition",
     "Enumerated extents, scales and modes; reals instead of floats.")
prop("C23", "An NNET file becomes the network it describes, normalised as it says",
     "Importing an NNET file gives one fully connected layer for each block of the file, with exactly the weights and biases of the file, ReLU after every layer but the last and nothing after the last, whatever the layer sizes, notation and comments; when normalisation is asked for, inputs are clipped to the file's minima and maxima, centred and scaled and outputs rescaled with its means and ranges, in the same way in the reference run and in the generated C; when it is not asked for, nothing is changed.",
     ["inputs", "configurations"], "all layer sizes, numbers and comments of a file, all inputs, with and without normalisation",
     "Tests import two files and compare with stored results on one input, which is not clipped.",
     ["importers/NNET_importer/parser_NNET.py", "importers/NNET_importer/nnet_normalize.py", "importers/parser.py", "generator/neural_network.py", "templates/normalization/template_pre_processing.c.tpl"],
     [("reading of the file", "importers/NNET_importer/parser_NNET.py"), ("normalisation", "importers/NNET_importer/nnet_normalize.py"), ("generated normalisation", "templates/normalization/template_pre_processing.c.tpl")],
     "abstract interpretation of the importer on enumerated file texts; value numbering (with an exact decision for functions made of lines) of the normalisation in the reference run and in the emitted inference function",
     "Enumerated layer sizes; real arithmetic; files that follow the format.")
prop("C15", "A PyTorch program is imported as the network it computes, or refused",
     "Importing an exported PyTorch program gives a network that computes, from every input, what the program computes: for every supported operator (linear, convolution, batch normalisation, pooling, relu, clamp, addition, concatenation, dropout, flattening), with arguments given or left out, biases or not, images or vectors, whatever else reads the intermediate values and whatever operators are fused into a layer; in the number format and layout of the program. A program the importer has no layer for, or arguments it cannot express, is refused, never imported as something else.",
     ["programs", "inputs"], "all exported programs of the supported operators, their arguments and parameter values, and all inputs",
     "Tests import a few programs with default arguments and square shapes, where an argument ignored, an axis read from the wrong end or an activation applied to a value read elsewhere does not show.",
     ["importers/PYTORCH_importer/parse_pytorch.py", "importers/parser.py"],
     [("operators", "importers/PYTORCH_importer/parse_pytorch.py"), ("layers made", "generator/layers/convolution/Conv2D.py")],
     "abstract interpretation of the importer on enumerated exported graphs; value numbering of the layers it makes against the definition of the operators",
     "Enumerated programs (every operator with its arguments in several contexts, random graphs); the form of the graphs is that of torch.export 2.7; real arithmetic; one input.")
prop("C13", "The generated program computes the ONNX model, end to end",
     "For an ONNX model that is accepted, the values the reference run writes and the values the generated program predicts are, for every input, those the ONNX operator specification gives the model: through import, optimisation, choice of implementations, allocation of the buffers, generation, and the order in which inputs are read and outputs written. This holds for every combination of operators and of options (optimisation on or off, implementation of the convolutions, layout of the target), whatever is connected to what.",
     ["programs", "inputs"], "all accepted models with one input and one output, all generator options, all parameter values and all inputs",
     "Tests compare the generated program with the reference run on a few networks; both share the importer, the optimiser and the order of the input and output, and the networks are chains.",
     ["importers/ONNX_importer/parser_ONNX.py", "importers/ONNX_importer/create_layer.py", "generator/neural_network.py", "graph/graph_interpretor.py", "pattern_matching/PatternMatcher.py"],
     [("import", "importers/ONNX_importer/parser_ONNX.py"), ("reference run and generation", "generator/neural_network.py"), ("allocation", "graph/graph_interpretor.py")],
     "abstract interpretation of import, optimisation, allocation and generation on enumerated models; value numbering of the reference run and of the emitted program, end to end, against the ONNX operator specification",
     "Enumerated models (operators with their attributes; random graphs of many operators) and options; real arithmetic; forms that cannot be shown equal are undecided.")
prop("C27", "A JSON model file is imported as the network it describes, or refused",
     "Importing the JSON description of a Keras model gives a network whose reference run and whose generated program both compute, from every input, what the model computes: for every layer type (fully connected, convolutions, pooling, merging, concatenation, padding, batch normalisation, softmax and the other activations, flattening and reshaping), with any arguments, layouts, data types and weights, and whatever the layers between which they stand. What the importer has no layer for, or arguments it cannot express, is refused, never imported as something else or skipped.",
     ["programs", "inputs"], "all model descriptions of the supported layers, their arguments, layouts and parameter values, and all inputs",
     "Tests import chains of a few layers with default arguments and compare the reference run with the generated program, which share the importer's mistakes.",
     ["importers/JSON_importer/parser_JSON.py", "generator/neural_network.py", "generator/layers/Softmax.py", "generator/layers/flatten/Flatten.py"],
     [("layers and links", "importers/JSON_importer/parser_JSON.py"), ("reference run and generation", "generator/neural_network.py")],
     "abstract interpretation of the importer on enumerated descriptions; value numbering of the reference run and of the emitted program, end to end, against the definitions of Keras",
     "Enumerated models (every layer with its arguments in several contexts, random graphs); real arithmetic; the form of the descriptions is that of the JSON exporter.")
prop("C20", "The generated inference is bounded, re-entrant and leaves its input alone",
     "A call of the generated inference, for any network, any options and any input, performs a number of steps that is fixed when the code is generated (each loop runs up to a bound that depends on neither the input nor the parameters, nothing is recursive), takes no memory other than its context, its stack frame and its arguments (no heap, no array whose length is not constant, no state kept from one call to the next), calls nothing but mathematical functions (and, in the debug and timing modes that ask for it, the file and clock functions, with every file closed again), and writes only to its context and to the prediction: the input and the parameters are as they were. Inferences with contexts of their own can therefore interleave in any way.",
     ["programs", "inputs", "schedules"], "all networks and generator options, all inputs, all interleavings of inferences with contexts of their own",
     "Tests run one inference at a time in a process of its own and compare its prediction: nothing shows a static counter, an input that was changed, or a loop whose length depends on the data.",
     ["generator/neural_network.py", "templates/template_source_file.c.tpl", "templates/normalization/template_pre_processing.c.tpl", "generator/layers/activation_layers/ActivationLayerDefault.py"],
     [("inference function", "generator/neural_network.py"), ("layer texts", "templates/layers")],
     "effect analysis over the syntax tree of every emitted inference: loop bounds, recursion, calls, storage and the objects assignments reach",
     "Emitted programs of enumerated networks and options; the context, the prediction and the input do not overlap.")
prop("C16", "Generation and reference run are repeatable and independent of each other",
     "What is generated depends only on the model, the options and the data: generating again (from the same object, from a second object made from the same model in the same process, in another process where sets of strings and directory listings have another order, before or after a reference run) gives the same files with the same contents, and no content depends on the time, on the environment, on the addresses of objects or on an unseeded source of randomness. The reference run gives each input the output it gives that input alone, however often it is run, whatever inputs precede it, and whether or not code has been generated; neither changes the network.",
     ["programs", "histories"], "all models and options, all orders of generation and reference runs, all processes",
     "Tests generate once and run once per object, in one process, mostly on one input.",
     ["generator/neural_network.py", "generator/layers", "versioning/layer_factories.py"],
     [("generation", "generator/neural_network.py"), ("layers", "generator/layers")],
     "abstract interpretation of several generations and runs in one heap; the emitted texts and printed values compared as terms; search of the terms for ambient calls",
     "Enumerated networks and options, and the histories listed; libraries are taken to be deterministic.")
prop("C17", "An exported ONNX model computes what the network computes",
     "Exporting the layers of a network that was imported from an ONNX model gives a model whose nodes are operators ONNX has, with operands that an earlier node, the input or an initializer makes, of the element types and extents the operators require, and whose output, on every input, is the output of the imported network; every parameter of a layer (weights, biases, padding, strides, axes, indices, bounds, slopes, fused activation) is in the model. The export raises no error.",
     ["programs", "inputs"], "all networks, parameters and inputs", "No test exports a network.",
     ["exporters/ONNX_exporter/exporter_onnx.py", "exporters/ONNX_exporter/acetone_to_onnx_layer.py"],
     [("export", "exporters/ONNX_exporter/exporter_onnx.py"), ("layers", "exporters/ONNX_exporter/acetone_to_onnx_layer.py")],
     "abstract interpretation of the importer and the exporter over the heap; the exported graph evaluated as terms by the ONNX operator definitions, compared with the imported model",
     "Enumerated networks; models with one input and one output. The extents declared for the output are not compared.")
prop("C28", "The rounding error of the generated program is bounded",
     "For every network and input, the prediction of the generated program differs from the exact value of the network by no more than a bound that follows from the precision of its data type.",
     ["programs", "inputs"], "all networks, parameters and inputs in floating point", "Tests compare two floating-point computations within a tolerance, on a few inputs.",
     ["generator/neural_network.py"], [("inference", "generator/neural_network.py")],
     na="The error depends on the magnitudes of parameters and inputs, which are not in the source; an interval argument over generated loops of arbitrary depth gives no useful bound. The checks treat values as real numbers (C05 decides the range in which activation texts stay finite).")
prop("C29", "The execution time of the generated program is bounded in time units",
     "For every network and target, the time one inference takes is at most a bound that is known when the code is generated.",
     ["programs", "inputs"], "all networks, inputs and targets", "Tests do not measure time.",
     ["generator/neural_network.py"], [("inference", "generator/neural_network.py")],
     na="Needs a timing model of the target processor and its compiler, neither of which is in the repository; what can be decided from the source, that the number of steps is fixed when the code is generated, is C20.")
prop("C30", "A Keras model (H5 file) is imported as the network it describes",
     "Importing a Keras model gives a network that computes what the model computes, or is refused.",
     ["programs", "inputs"], "all Keras models", "The tests import no Keras model.",
     ["importers/H5_importer/parser_h5.py"], [("import", "importers/H5_importer/parser_h5.py")],
     na="The importer (and the JSON exporter for Keras models) reads attributes of layers (output_shape) that Keras 3, the version installed here, no longer has: every model is refused, so that no violation could be shown against the real code. The JSON descriptions themselves are decided by C27.")
