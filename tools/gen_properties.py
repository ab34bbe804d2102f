import json
H="include/cnn_from_scratch/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Matrix storage, indexing, iteration and reshaping always agree",
"For every element type and every shape (including shapes with a zero extent), each (row, column, channel) position of a matrix names exactly one element, and every way of reaching elements - 3-D indexing, flat indexing, forward iteration with its reported position, copying, moving, type conversion, filling from a list - sees the same element at the same position. Iteration visits every element exactly once in flat (column-major) order and the distance between iterators is the number of elements between them. Reshaping keeps the flat sequence of elements and resizing changes the shape to exactly what was asked with every position addressable. This holds for matrices of any size, also beyond 2^31 elements.",
["inputs","histories"],"all element types, all shapes up to the tested extents incl. empty and 1-wide ones, and all sequences of construct/copy/move/convert/fill/reshape/resize/write operations",
"MatrixTest samples about ten fixed shapes (mostly 3x3), one at a time; it never iterates an empty shape, never checks flat order against 3-D order on rectangular shapes, and never runs operation histories.",
[H+"Matrix/SimpleMatrix.h","src/SimpleMatrix.tpp",H+"Matrix/MatrixIterator.h",H+"Matrix/dim.h",H+"Matrix/MatrixBase.h"],
[("column-major index computation","src/SimpleMatrix.tpp getIndex / operator()"),("lock-step 3-D and scalar iterator","Matrix/MatrixIterator.h"),("carry logic of DimIterator","Matrix/dim.h")],
["operator()(x,y,z)","operator()(dim3)","operator[]","begin()/end()/idx()","copy/move/converting construction and assignment","reshape/resize"],
[("values_","flat element storage","Matrix/SimpleMatrix.h"),("dim_","shape","Matrix/MatrixBase.h")])
p("C02","Sub-matrix views read and write exactly their own region",
"A view (sub-matrix, slice, range of slices, or view of a view) at any in-range offset and size reads exactly the corresponding elements of its matrix, and assigning or updating through it changes exactly those elements and nothing else, at once visible in the matrix. Copies taken from a view are independent of the matrix. A view that does not lie completely inside the matrix or view it is taken from (including negative offsets or extents) is refused with a size exception, and checked element access outside the view is refused with an out-of-range exception.",
["inputs","histories"],"all matrices, all view offsets/extents/nesting depths, const and mutable, all sequences of reads and writes through overlapping views",
"The tests create about four views of one or two fixed matrices, none nested, none out of range, and none with channel offsets.",
[H+"Matrix/SubMatrixView.h","src/SubMatrixView.tpp","src/SimpleMatrix.tpp"],
[("range check in the view constructors","Matrix/SubMatrixView.h"),("start_ offset added on every access","src/SubMatrixView.tpp")],
["subMatView/subMatCopy/slice/slices","view operator()/at/operator=/iteration","compound assignment through views"],
[("start_, dim_, mat_ptr_","region of the viewed matrix","Matrix/SubMatrixView.h")])
p("C03","Element-wise expressions equal per-element arithmetic",
"For matrices, views and nested expressions of equal shape, of any mix of element types and any mix of named and temporary operands, each element of an element-wise expression (arithmetic and comparison between matrices or with a scalar on either side, absolute value, exponential, user-supplied function, and the compound updates) equals the same operation applied to the corresponding elements, and the expression has the operands' shape. Evaluating an expression never changes its operands, and it gives the same values however often and in whatever form (indexing, iteration, storing into a matrix) it is read.",
["inputs","programs"],"all expression trees over +,-,*,/, comparisons, scalar ops, abs, exp, apply and compound assignments; all shapes, element types, and lvalue/rvalue/view operands",
"MatrixTest evaluates a dozen fixed expressions on 3x3 matrices, never scalar-on-the-left for non-commutative operators, comparisons, exp/abs/apply, or temporaries nested several levels deep.",
[H+"Matrix/MatrixMath.h"],
[("lazy expression objects storing lvalues by reference and rvalues by value","Matrix/MatrixMath.h"),("compound assignment loops","Matrix/MatrixMath.h")],
["operators on matrices","conversion of an expression to a matrix","expression indexing and iteration"])
p("C04","Product, dot, convolution, transpose and rotation match their definitions",
"For all conforming operands - matrices, views, temporaries, or expressions - the matrix product (per channel), the dot product, the valid convolution (cross-correlation) with any positive stride, the transpose, and the rotation by 90, 180 or 270 degrees give exactly the shape and the element values of their mathematical definitions, in the precision of the common element type. The result does not depend on whether operands are named or temporary, nor on the compiler's order of evaluating arguments.",
["inputs","programs","configurations"],"all conforming shapes (rectangular, 1-wide, multi-channel), element types, strides, operand categories; gcc and clang builds",
"The tests multiply four fixed matrix pairs and transpose two named matrices; dot, convolve with stride, rotate, and temporaries are never exercised, and only one compiler is used.",
[H+"Matrix/MatrixMath.h"],
[("index mapping lambdas","Matrix/MatrixMath.h matrixMultiply/convolve/transpose/rotate"),("output shape computation","Matrix/MatrixMath.h")],
["matrixMultiply","dot","convolve","transpose","rotate<1..3>"])
p("C05","Reductions and comparisons of matrices are exact summaries",
"For every non-empty matrix, view or expression, sum, mean, minimum, maximum, position of the minimum and maximum (first in flat order on ties), flat index of the minimum and maximum, and the L2 norm equal the values computed from the individual elements (sums being formed in the element type), for signed, unsigned and floating element types. Whole-matrix equality is true exactly when the shapes are equal and every pair of elements is equal (or differs by at most the given tolerance).",
["inputs"],"all shapes, element types, operand forms, value patterns including ties, negatives and extremes at any position",
"No existing test calls sum, mean, min, max, minIndex, maxIndex or l2Norm; matrixEqual is only ever expected to be true.",
[H+"Matrix/MatrixMath.h","src/SimpleMatrix.tpp"],
[("std algorithms over MatrixIterator","Matrix/MatrixMath.h"),("std::distance of iterators","src/SimpleMatrix.tpp minIndex/maxIndex")],
["sum/mean/min/max/minIndex/maxIndex/l2Norm/matrixEqual"])
p("C06","Assignments and in-place updates use the values from before the update",
"Assigning to a matrix or view an expression that mentions that same matrix (its transpose, rotation, product, sub-view, arithmetic on it) stores the value the expression had before the assignment, with that expression's shape. Updating a matrix or view in place by a scalar taken from one of its own elements, by itself, or by an expression over itself (such as A += transpose(A)) uses the original element values for every position.",
["inputs","programs"],"all self-referential assignments A = f(A) and updates A op= A(i), A op= A, view = view-of-same-region, over all shapes",
"No existing test assigns a matrix from an expression over itself or updates by one of its own elements.",
["src/SimpleMatrix.tpp",H+"Matrix/MatrixMath.h","src/SubMatrixView.tpp"],
[("evaluation order of lazy expressions into the destination","src/SimpleMatrix.tpp operator="),("scalar operand capture","Matrix/MatrixMath.h compound operators")],
["SimpleMatrix operator=","+= -= *= /= with scalar or matrix"])
p("C07","Ill-shaped requests are refused with a typed error and no effect",
"Every operation whose operands do not conform - element-wise operators and compound updates on different shapes, products with mismatched inner size or channels, dot of non-vectors or different lengths, quarter-turn rotation of a non-square matrix, filling from a list of the wrong length, reshaping to a different element count, assigning a different shape to a view, wrong channel count or undersized input to a convolution or pooling layer, wrong input size to a connected or output layer, a backward pass or label for an entry beyond the batch that was set up, an out-of-range or unknown label - raises the library's documented exception type. After the refusal all operands, layers and models still have the values they had before, and remain usable.",
["inputs","histories"],"all non-conforming shape pairs and layer inputs; any interleaving of refused and accepted requests",
"Only three EXPECT_THROW cases exist (value constructor, vector assignment, bad matmul); no test checks what state is left after a refusal and no layer refusal is tested.",
[H+"Matrix/MatrixMath.h","src/SimpleMatrix.tpp",H+"Matrix/SubMatrixView.h","src/SubMatrixView.tpp","src/Layers/Kernel.cpp","src/Layers/Pooling.cpp","src/Layers/ConnectedLayer.cpp","src/Layers/Softmax.cpp","src/ModelDescription.tpp",H+"exceptions.h"],
[("checkSize for matrices","Matrix/MatrixMath.h"),("checkSize of layers","src/Layers/*.cpp"),("assignTrueLabel range check","src/Layers/Softmax.cpp")],
["exceptions thrown by operators, layers and models","operand values after the throw"])
p("C08","No public operation performs an invalid memory access or undefined step",
"Whatever sequence of public matrix, layer, model, serialization and reader operations a program performs - with in-contract arguments or with arguments the library refuses - no out-of-bounds, use-after-lifetime, uninitialised or misaligned access, arithmetic undefined behaviour or memory leak occurs, including when lazily evaluated expressions keep temporaries alive. Results never depend on the content of uninitialised memory.",
["inputs","histories","programs"],"all operation sequences over the public API, shapes and value categories generated",
"The tests link -fsanitize=address without compiling with it, so nothing is instrumented, and they touch a small fixed set of operations.",
[H+"Matrix/dim.h",H+"Matrix/MatrixIterator.h",H+"Matrix/MatrixMath.h",H+"Matrix/SubMatrixView.h","src/SimpleMatrix.tpp","src/Layers/*.cpp","src/ModelDescription.tpp",H+"Serialization.h"],
[("operand storage by value/reference in expressions","Matrix/MatrixMath.h MatrixStorageType"),("range checks","Matrix/SubMatrixView.h")],
["sanitizer and memcheck reports over the operation sequence"])
p("C09","Convolution layer computes the convolution and its exact gradients",
"For any filter size, filter count, channel count, stride and input at least as large as the filter (square or not), the layer's output at each position and filter is the filter's bias plus the sum over channels and filter cells of weight times input, with the output shape of a valid convolution. For any output gradient, the weight, bias and input gradients it computes are the exact partial derivatives of that map.",
["inputs","configurations"],"all filter dims (rectangular too), filter and channel counts, input shapes, strides, weights, inputs, output gradients",
"ForwardPassTest checks three 4x4 inputs with 3x3 filters; BackwardPassTest checks one 3x3 input, one channel, one filter; multi-channel, multi-filter, rectangular and strided gradients are untested and biasGradient asserts nothing.",
["src/Layers/Kernel.cpp",H+"Layers/Kernel.h",H+"Matrix/MatrixMath.h"],
[("per-filter, per-channel accumulation","src/Layers/Kernel.cpp propagateForward"),("gradient by correlation / full convolution","src/Layers/Kernel.cpp getdLdW/getdLdX/getdLdB")],
["Kernel::propagateForward/getdLdW/getdLdX/getdLdB/propagateBackward"])
p("C10","Pooling selects per window and routes gradients to what it selected",
"For any window, stride, pooling type and input at least as large as the window, each output element is the maximum, minimum or mean of its window in its own channel, and the output has one element per complete window. The input gradient returns each output gradient to the selected input element (or in equal shares to the window for the mean), accumulating where windows overlap, so the total gradient is conserved. Batch entries are independent: the backward pass for an entry uses the selections of the latest forward pass for that same entry, whatever else went through the layer in between.",
["inputs","histories"],"all window sizes, strides (smaller, equal, larger than the window), pool types, shapes, inputs incl. ties, and interleavings of forward/backward over batch entries",
"Three forward tests on one 4x4 input; the backward pass, overlapping windows, rectangular windows and batch entries are never tested.",
["src/Layers/Pooling.cpp",H+"Layers/Pooling.h"],
[("affected index record per batch entry","src/Layers/Pooling.cpp"),("window arithmetic","src/Layers/Pooling.cpp outputSize/propagateForward")],
["Pooling::propagateForward/getdLdX/propagateBackward/outputSize"],
[("affected_indices_","argmin/argmax per output per batch entry","Layers/Pooling.h")])
p("C11","Fully connected layer is an affine map with exact gradients",
"After its parameters exist, for every input with the right element count the layer outputs weights times the flattened input plus biases as a column; its weight, bias and input gradients are the exact derivatives, with the input gradient in the shape of the layer's inputs (all inputs of a layer share one shape, that of its first input). Parameters are created once, at the first input, with one weight column per input element and finite values of unit norm, and are afterwards changed only by applying a batch, by loading, or by the user - never by a forward or backward pass.",
["inputs","histories"],"all input shapes, output counts, weights, gradients, and sequences of forward/backward calls, incl. after loading parameters",
"No existing test runs ConnectedLayer at all.",
["src/Layers/ConnectedLayer.cpp",H+"Layers/ConnectedLayer.h"],
[("lazy initialisation in checkSize","src/Layers/ConnectedLayer.cpp"),("reshape of the input gradient","src/Layers/ConnectedLayer.cpp getdLdX")],
["ConnectedLayer::propagateForward/propagateBackward/getdLd*"],
[("initialized_, input_dim_","whether and for which input shape parameters exist","Layers/ConnectedLayer.h")])
p("C12","Activation layers apply their function and its true derivative",
"For every activation kind and every finite input, the forward pass applies the named function to each element independently and keeps the shape, and the backward pass multiplies each incoming gradient by the derivative of that function at the element's input. The layer keeps no state between calls, and an activation kind survives conversion to and from its name.",
["inputs"],"all activation kinds, all finite doubles (incl. large magnitudes, zero, denormals) and gradients, all shapes",
"ModelLayerTest checks one random 5x5 matrix in (-1,1) per activation and never calls propagateBackward.",
["src/Layers/Activation.cpp",H+"Layers/Activation.h"],
[("function tables indexed by the enum","src/Layers/Activation.cpp"),("elementwise apply","Matrix/MatrixMath.h")],
["Activation::propagateForward/propagateBackward/activationGradient","toString/fromString"])
p("C13","Softmax output is a probability distribution with the right gradient",
"For every finite input vector of the configured length, the output layer returns values in [0,1] that sum to one, are proportional to the exponentials of the inputs, keep their order, and stay finite whatever the magnitude or common offset of the inputs. Its backward result is the output minus one at the assigned true label of that batch entry and unchanged elsewhere; without a label assigned in the current batch (setting the batch size starts a new one) it refuses.",
["inputs","histories"],"all input vectors (row or column), magnitudes, offsets, label counts and label assignment sequences over batch entries",
"No existing test runs Softmax.",
["src/Layers/Softmax.cpp",H+"Layers/Softmax.h"],
[("max offset before exponentiation","src/Layers/Softmax.cpp softMax"),("label bookkeeping","src/Layers/Softmax.cpp assignTrueLabel/propagateBackward")],
["Softmax::propagateForward/propagateBackward/assignTrueLabel/getdLdX"],
[("true label per batch entry","label used by the backward pass","Layers/Softmax.h")])
p("C14","Model inference is the composition of its layers, repeatable and pure",
"For any stack of layers and any input, inference returns the recorded input of every layer plus the final output, where each recorded value is the corresponding layer applied to the previous one (to single precision), the predicted label index is the position of the largest output and the confidence is that output. Inference changes no parameter, so repeating it, or interleaving it with other inputs and batch entries, gives the same result. The loss assigned for a label is the base-2 cross entropy of the probability at that label's position in the label list (with the probability offset by at most 1e-5, so that it stays finite), never negative.",
["inputs","programs","histories"],"all layer stacks, inputs, labels, interleavings of inference calls over inputs and batch entries",
"No existing test calls forwardPropagation, assignLoss or lossFcn.",
["src/ModelDescription.tpp",H+"ModelDescription.h"],
[("layer chaining and recording","src/ModelDescription.tpp forwardPropagation"),("label lookup and loss","src/ModelDescription.tpp assignLoss/lossFcn")],
["ModelDescription::forwardPropagation/assignLoss/lossFcn, ModelResults"])
p("C15","Back-propagation yields the true gradient of the whole network",
"For any supported stack of layers (convolution, activation, pooling, fully connected, softmax, in any order that type-checks, square or rectangular inputs) and any labelled sample, running back-propagation and applying a batch of that one sample moves every weight and bias by minus the learning rate times the exact partial derivative of the natural-log cross entropy of that sample, to single-precision accuracy.",
["inputs","programs"],"all layer stacks, input shapes, parameter values, labels and learning rates",
"No existing test back-propagates through more than one layer; layer gradients are tested for one convolution only.",
["src/ModelDescription.tpp","src/Layers/*.cpp"],
[("reverse traversal feeding each layer its recorded input and output","src/ModelDescription.tpp backwardsPropagation"),("per-layer gradients","src/Layers/*.cpp")],
["parameters before and after backwardsPropagation + applyBatch"])
p("C16","A batch update is the learning rate times the mean gradient of that batch",
"Applying a batch changes each weight and bias of a trainable layer by minus the learning rate times the mean of the gradients recorded for the samples of that batch, each sample counted once, whatever the batch size, the order in which entries were filled, or how many of the available entries were filled. Gradients of earlier batches never leak into a later update, and with no recorded sample the parameters stay unchanged.",
["inputs","histories"],"all batch sizes, fill orders, partially filled batches, repeated batches, changes of batch size, learning rates (incl. zero and negative)",
"No existing test calls setBatchSize or applyBatch.",
["src/Layers/Kernel.cpp","src/Layers/ConnectedLayer.cpp"],
[("gradient slots per batch entry","Layers/Kernel.h, Layers/ConnectedLayer.h"),("average and apply","applyBatch in Kernel.cpp/ConnectedLayer.cpp")],
["weights/biases before and after applyBatch"],
[("weight_gradients_, bias_gradients_","gradients recorded per batch entry","Layers/Kernel.h, Layers/ConnectedLayer.h")])
p("C17","Training uses every sample exactly once per epoch, independent of threads",
"For any data source, batch size, number of worker threads and number of epochs, each epoch draws every available sample exactly once, each drawn sample is propagated forward and then backward with its own data and its own label, every parameter update happens after all samples of its batch and before any of the next, and the reported success count is the number of samples whose predicted label was right. The source is reset after an epoch, so training again with the same source and model uses all samples again. The parameters after training are the same, up to rounding, for every number of threads and every thread schedule.",
["schedules","configurations","inputs"],"all thread counts, batch sizes (incl. not dividing the data set, larger than it, smaller than the thread count), epochs, and interleavings of workers",
"No existing test calls train or runEpoch, so not one multi-threaded schedule is exercised.",
["src/ModelDescription.tpp","src/Layers/Softmax.cpp","src/Layers/ConnectedLayer.cpp","src/Layers/Pooling.cpp"],
[("data mutex","src/ModelDescription.tpp runEpoch"),("slot ranges per worker","src/ModelDescription.tpp runEpoch"),("join before applyBatch","src/ModelDescription.tpp runEpoch"),("per-batch-entry state in layers","src/Layers/*.cpp")],
["DataGenerator calls","layer propagateForward/propagateBackward/applyBatch calls seen by a probe layer in the stack","weights after train"],
None,"none: a probe layer in the public layer list and a custom data generator observe and perturb the schedule")
p("C18","Multi-threaded training and inference are free of data races",
"Training with any number of worker threads, and running inference from several threads on one model with a distinct batch entry per thread, performs no unsynchronised conflicting memory accesses, from the very first sample of a new model onwards. Under such concurrency each inference returns what it would return alone.",
["schedules","configurations"],"all thread counts and interleavings, fresh and loaded models, all layer kinds",
"No existing test starts a thread, and none is built with a race detector.",
["src/ModelDescription.tpp","src/Layers/*.cpp","src/main.cpp"],
[("data mutex and join","src/ModelDescription.tpp runEpoch"),("per-batch-entry state","src/Layers/*.cpp"),("serialised first initialisation","src/Layers/ConnectedLayer.cpp checkSize")],
["ThreadSanitizer reports over train / concurrent forwardPropagation / the main program"])
p("C19","Matrices and layers survive writing and reading back",
"For every matrix of finite numbers and every layer in any configuration (convolution incl. stride, pooling incl. type and stride, fully connected, activation, softmax), reading back what was written restores the same shapes and configuration and every number to within the six decimals written, however the stream formats numbers otherwise (its formatting state is kept), leaves the stream positioned right after the data, and gives a layer that behaves like the original. Writing the restored object again produces the identical text.",
["inputs","configurations","histories"],"all shapes, values (magnitudes from 0 to very large, both signs), layer configurations, and sequences of objects in one stream",
"No existing test calls serialize or deserialize.",
["src/SimpleMatrix.tpp",H+"Serialization.h","src/Layers/*.cpp"],
[("place/expect pairs","Serialization.h"),("matrix text format","src/SimpleMatrix.tpp serialize/deserialize")],
["serialize()/deserialize() of matrices and layers","behaviour of the restored layer"])
p("C20","A saved model loads as the same model",
"For any model built from the supported layers with any output labels (text including spaces, numbers or characters; labels containing a line break are refused), saving succeeds and loading into a new model restores the same layers in the same order, the same label list, and predictions that agree to the precision of the file; saving the loaded model writes an identical file. A loaded model can be trained further exactly like the original.",
["inputs","programs","histories"],"all layer stacks, labels, parameter values; before and after training; chains of save/load/train",
"No existing test saves or loads a model (loading was never even instantiated).",
["src/ModelDescription.tpp",H+"ModelDescription.h",H+"Serialization.h","src/Layers/*.cpp"],
[("layer sections and label list","src/ModelDescription.tpp saveModel/loadModel")],
["saveModel/loadModel return values, file bytes, predictions, further training"])
p("C21","Failed saves and damaged or missing files are reported, never accepted",
"Saving a model to a place that cannot be opened or completely written returns failure. Loading a missing file, a file cut off anywhere before the end of its label list, or a file whose section names, numbers or sizes are damaged or inconsistent returns failure (layer- and matrix-level reads return failure or raise an error) without undefined behaviour, crash or hang. (A convolution layer section without its stride line is the older file format and means stride 1.)",
["fault_sequences","crash_points","inputs"],"every truncation point of saved files, keyword/number/size corruption at every line, unopenable and full targets",
"No existing test exercises any I/O failure.",
["src/ModelDescription.tpp",H+"Serialization.h","src/SimpleMatrix.tpp","src/Layers/*.cpp"],
[("keyword and stream-state checks","Serialization.h expect, SimpleMatrix deserialize, loadModel")],
["return values and exceptions of saveModel/loadModel/deserialize under injected faults"])
p("C22","MNIST reader returns exactly the stored image and label at every index",
"For any well-formed image/label file pair, the reader reports the stored count, and the image for index i has the stored height and width, each pixel equal to (byte-128)/255 at its row and column, and the label stored at i - for every order of sequential and random reads. Reading continues with i+1 after index i; requests past the last image are refused with an exception and do not disturb later valid reads; a file that ends early is reported by an exception, never as invented data.",
["inputs","histories","fault_sequences"],"all image counts and sizes (rectangular too), pixel/label bytes, access sequences mixing nextImage/getImage/out-of-range, and truncation points",
"No existing test uses MNISTReader (the image files are not even in the repository).",
["src/MNISTReader.cpp",H+"MNISTReader.h"],
[("seek arithmetic and big-endian reads","src/MNISTReader.cpp"),("index bound check","src/MNISTReader.cpp nextImage")],
["numImages/imageIndex/getImage/nextImage on generated files"],
[("current_index_","next image to be read","MNISTReader.h")])
p("C23","Rendering shows every element faithfully and only touches its own stream",
"Printing a matrix or expression writes, to the given stream only, one bracketed group per row and channel with every element in order (sign, magnitude, two decimals for floating types; the most negative value of an integer type excluded), and leaves the formatting state of that and every other stream as it was. Printing an image emits one coloured cell per pixel, row by row, with intensities in 0..255 that never fall as the pixel value rises (so the brightest pixel gets the highest intensity of the image), for any finite values of ordinary magnitude (up to 1e30) including constant images; where the image has a pixel of value 1 or more, or is of an integral type, the intensity is the value's share, up to rounding and clipping, of the range from the lowest value of a grey image (0 for a colour image) to the brightest value (255 for an integral type). The progress bar keeps its width, shows the share of work done to within one cell and one percent, never goes back as work proceeds, and leaves the formatting of std::cout as it was.",
["inputs"],"all shapes, element types and finite values, constant images, target streams with arbitrary format state",
"No existing test prints anything.",
[H+"Matrix/SimpleMatrix.h",H+"imageUtil.h"],
[("operator<<","Matrix/SimpleMatrix.h"),("intensity mapping","imageUtil.h")],
["captured output of operator<< and printImage"])
p("C24","The training program trains, validates and saves one consistent model",
"Run on any well-formed data set, the program trains on the training files, reports a validation accuracy that is the fraction of test images the trained model labels correctly, and saves that same model under the requested name, for any number of worker threads. It exits successfully and reports each epoch's accuracy once.",
["inputs","schedules","configurations"],"all well-formed training/test file pairs of the program's image size, all hardware thread counts and schedules",
"The program is built but never run by the tests; its data files are absent from the repository.",
["src/main.cpp","src/ModelDescription.tpp","src/MNISTReader.cpp"],
[("MNistGenerator","src/main.cpp"),("validate","src/main.cpp"),("saveModel call","src/main.cpp")],
["stdout and the saved model file of the program run on generated data sets"])
p("C25","Errors during training reach the caller and leave the model usable",
"If a sample in training is refused (unknown label, wrong shape) the data source itself fails, or a worker thread cannot be started, training ends by raising that error to its caller, for any number of threads, with all workers finished and the process alive. No parameter has been moved by the batch in which the error occurred, and the model can be used and trained again afterwards. A training asked for with no threads or an empty batch is refused without effect.",
["fault_sequences","schedules","configurations"],"every position of the failing sample, every kind of failure, all batch sizes and thread counts",
"No existing test trains, let alone with a failing sample.",
["src/ModelDescription.tpp"],
[("worker threads and join","src/ModelDescription.tpp runEpoch")],
["exception observed by the caller of train/runEpoch","parameters after the failure","subsequent training"])
p("C26","Layers and models that live side by side never affect each other",
"Whatever is done to one layer or model - training passes, updates, changing the batch size, reading, writing, copying, moving, assigning, destroying - never changes the parameters, recorded gradients, batch entries or results of any other one, in any interleaving and also from different threads. A layer that is copied, moved or assigned keeps configuration, parameters, recorded batch entries and gradients: the copy continues exactly as the original would have, independently of it. A model trained in between or at the same time as others ends up like one trained alone.",
["histories","schedules","configurations"],"all numbers and kinds of layers and models alive at once and all interleavings of operations on them",
"Every existing test has one layer of a kind alive at a time, never copies or moves one, and never runs two models.",
["src/Layers/Kernel.cpp","src/Layers/Pooling.cpp","src/Layers/ConnectedLayer.cpp","src/Layers/Softmax.cpp","src/Layers/Activation.cpp",H+"Layers/ModelLayer.h","src/ModelDescription.tpp"],
[("per-layer batch records","src/Layers/*.cpp setBatchSize / propagateForward / propagateBackward"),("special members of the layer classes",H+"Layers/*.h")],
["parameters of every layer alive after every operation","forward and backward results of every layer","results and parameters of interleaved models"])
import sys
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
