#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json, sys
T="src/tensor.rs"; H="src/tensor/helper.rs"; CV="src/tensor/operations/convolution.rs"; N="src/network.rs"
LC="src/layer/convolutional.rs"; LF="src/layer/fully_connected.rs"; LM="src/layer/max_pool.rs"; LS="src/layer/softmax.rs"; L="src/layer.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","A tensor is a faithful store: each index addresses its own element",
 "For every shape with dimensions of at least one, a new tensor holds zeros (the empty tensor a single zero), and writing through an in-range three-dimensional index changes exactly that element and is read back bit-for-bit, while every other element keeps its value. Data supplied as a flat vector is laid out with the first index varying fastest, then the second, then the third, and a vector of any other length is rejected without changing the tensor. Reading outside the shape yields zero and writing outside the shape changes nothing, and a clone shares nothing with its original.",
 ["inputs","histories"],"All shapes, all in-range and out-of-range indices, all f32 bit patterns, all sequences of set/get/fill/clone operations.",
 "test_get_set_tensor probes two indices of one 3x4x5 tensor; aliasing of two different indices, wrong strides for other aspect ratios and neighbour corruption are not observable there.",
 [T,H],[("stride/index arithmetic",H+": TensorStride, Mul"),("bounds check",H+": TensorShape::fits_index"),("set_item/get_item/fill_with_vec",T)],
 ["Tensor::get_item","Tensor::set_item","Tensor::fill_with_vec"])
p("C02","Element-wise tensor arithmetic computes each element independently and exactly",
 "For tensors of one common shape, addition, element-wise multiplication and scaling by a scalar produce at every position exactly the single-precision result for that position's operands, including for infinities, signed zeros and not-a-number. The in-place form of each operation leaves its target equal to what the out-of-place form would have written, and whatever the destination held before never influences an out-of-place result. Operands that are only read are never modified.",
 ["inputs"],"All shapes and all f32 operand values, all prior contents of the destination.",
 "One 2x3x1 example with small positive integers per operation; no third dimension, no special values, no stale destination.",
 [T],[("add/add_to_self/scale/scale_self/multiply_elementwise(_self)",T)],["destination tensor contents"])
p("C03","Matrix products and transpose match linear algebra for all compatible shapes",
 "For every compatible pair of shapes the matrix product, the product with the first operand transposed, the product with the second operand transposed, and the fused product-plus-bias-plus-ReLU equal the mathematical definition applied separately to each slice of the third dimension, up to single-precision rounding and exactly when all partial sums are representable; infinities and not-a-number among the operands propagate as IEEE arithmetic prescribes. Transposing swaps the first two indices of every element, transposing twice restores the input, and the transposed products equal the plain product of explicitly transposed operands. Operands are not modified and stale destination contents never influence the result.",
 ["inputs"],"All compatible (rows, inner, columns, batch) extents and operand values.",
 "Tests use at most 3x3 operands with batch extent 1, all-ones or vector operands; a wrong index that coincides for square, vector or single-slice operands passes.",
 [T],[("matrix_multiply and variants",T),("transpose_ij",T)],["result tensor contents"])
p("C04","Tensor operations on incompatible shapes change nothing and never panic",
 "When the shapes of the tensors given to an element-wise, transpose, matrix-product, softmax, ReLU-with-mask, pooling or scatter-add operation are not compatible, the operation leaves every tensor it was given unchanged and returns without panicking. Operations that can report failure return an error in exactly these cases and succeed in all others. A scatter-add with more indices than source elements, or with any index outside the target, is such a failure.",
 ["inputs"],"All tuples of shapes and contents, compatible and not, and all index lists.",
 "Existing tests exercise the shape predicate with one good and one bad triple; partial writes before an error and near-miss shapes (only one dimension off, same element count) are never tried.",
 [T],[("check_matrix_multiply_dimensions and per-operation shape tests",T)],["all tensor arguments before/after","Result values"])
p("C05","Convolution forward equals the direct definition for every geometry and stride",
 "For every image, kernel and stride for which the kernel steps exactly across the image, the convolution written to a result channel equals, at each output position, the sum over the kernel window of image times kernel values plus the scalar bias, up to single-precision rounding and exactly when all partial sums are representable; infinities and not-a-number propagate as IEEE arithmetic prescribes. The variant with ReLU yields the same values with negatives replaced by zero. Only the selected channel of the result changes; other channels, the image, the kernel and the bias are untouched.",
 ["inputs"],"All image/kernel extents, depths, strides, result channels, values and stale destination contents.",
 "One 4x4x1 image with a diagonal 3x3x1 kernel, stride 1, channel 0 of 1: stride, depth, non-square shapes and channel selection are all invisible.",
 [CV],[("convolution_bias, convolution_bias_relu",CV)],["result tensor contents"])
p("C06","Convolution gradients are the adjoints of the forward convolution",
 "For every geometry and stride the forward convolution accepts, the gradient with respect to the image equals the exact adjoint: each image element receives the sum, over all output positions and channels whose window covers it, of the incoming gradient times the kernel weight it met. The gradient with respect to the kernel of one output channel equals the sum over output positions of that channel's incoming gradient times the image element met, and does not depend on the other channels' gradients. Both satisfy the inner-product identity with the forward convolution, and neither panics or depends on stale destination contents.",
 ["inputs"],"All image/kernel extents, depths, numbers of kernels, strides and values.",
 "The tests use a single geometry each where kernel and output extents coincide (2x2 and 2x2), one of them with a single channel, so bounds taken from the wrong extent, stride handling and channel mixing are not observable.",
 [CV],[("convolution_backprop_outgoing_gradient, convolution_backprop_kernel",CV)],["gradient tensors"])
p("C07","Max pooling returns each window's maximum and a position that attains it",
 "For every image, window and stride that fit, each pooled value equals the maximum of its window in the same depth slice, every output element is written, and the image is unchanged. The variant that tracks origins produces the same values and records for each output the flat position of an element inside that output's own window and slice which attains the maximum. This holds for negative values, ties, infinities and overlapping windows.",
 ["inputs"],"All image/window extents, strides, depths and non-NaN values.",
 "Two images with positive, mostly distinct values; all-negative windows, ties, -inf, non-square windows, deep images for origins are not covered.",
 [T],[("max_pool, max_pool_track_origin",T)],["result tensor","origin list"])
p("C08","Kernel and pooling geometry checks accept exactly the geometries that fit",
 "The checks that decide whether a kernel or pooling window fits an image accept a combination exactly when the stride is at least one, the window has an extent of at least one in both directions and is no larger than the image in either direction, the stride divides the remaining extent in both directions, the depths agree as required, and the stated result extents and channel match the resulting grid. Every other combination, including a window larger than the image or a stride of zero, is refused without panicking and without any tensor being written. The computed output extents equal the number of window positions along each direction.",
 ["inputs","configurations"],"All combinations of image, kernel/window and result shapes, strides and channels.",
 "One accepting and one rejecting example; windows larger than the image and zero strides are never tried, and unsigned arithmetic fails there.",
 [T,CV],[("check_convolution_dimensions",CV),("check_max_pooling_dimensions, does_kernel_stride_fit_image, get_convolution_dim_fit",T)],["Result/bool values","panics"])
p("C09","Softmax always yields a probability distribution that preserves order",
 "For every tensor of finite values, softmax writes finite values in [0,1] that sum to one over the whole tensor and equal exp(x) divided by the sum of all exp(x), up to single-precision rounding, however large or small the inputs are. Larger inputs never get smaller probabilities, equal inputs get equal ones, and adding one constant to all inputs does not change the result beyond rounding. The input is unchanged and stale output contents have no influence.",
 ["inputs"],"All shapes and all finite f32 values.",
 "One three-element example (1,2,3); overflow of the exponential above 88, underflow below -104, many elements and other shapes are not covered.",
 [T],[("softmax",T)],["output tensor"])
p("C10","The softmax layer's backward pass is the softmax Jacobian-vector product",
 "In training mode, for every layer shape, input and incoming gradient, after a forward pass the gradient the softmax layer passes back equals s_i * (g_i - sum_j s_j g_j) with s its output and g the incoming gradient, up to rounding. It therefore sums to zero, vanishes for constant incoming gradients, and is linear in the incoming gradient. Several backward passes may follow one forward pass. Earlier passes or stale gradient contents have no influence.",
 ["inputs","histories"],"All shapes, inputs and incoming gradients; repeated passes.",
 "The existing test runs one three-element example and never compares the resulting gradient.",
 [LS],[("SoftmaxLayer::backward",LS)],["outgoing gradient"])
p("C11","Fully connected layer: forward value and all gradients are exact",
 "For every layer size, weights, bias and input, the fully connected layer outputs max(0, W x + b). In training mode, after a forward pass, each of any number of backward passes yields the input gradient W^T (m*g), adds m*g to the bias gradient and the outer product (m*g) x^T to the weight gradient, where m is one exactly where the output is strictly positive and g is the incoming gradient. All hold up to rounding, exactly when all partial sums are representable.",
 ["inputs","histories"],"All input/output sizes, weights, biases, inputs and incoming gradients.",
 "A single 3x3 example; a non-square layer, where swapped dimensions show, is never back-propagated with distinct values.",
 [LF,T],[("FullyConnectedLayer::forward/backward",LF)],["output","outgoing gradient","accumulated parameter gradients"],hook="read access to accumulated weight and bias gradients")
p("C12","Convolutional layer: forward value and all gradients are exact, through ReLU",
 "For every geometry, the convolutional layer's output channel c is max(0, conv(x, K_c) + b_c). In training mode, after a forward pass, each of any number of backward passes first zeroes the incoming gradient wherever the output is not strictly positive; from this masked gradient it yields the input gradient (the adjoint over all kernels), adds to each kernel gradient the correlation of the input with that channel only, and adds to each bias gradient the sum over that channel. All hold up to rounding, exactly when all partial sums are representable.",
 ["inputs","histories"],"All geometries, strides, kernel counts, values and incoming gradients.",
 "The existing layer test only asserts that the outgoing gradient is not all zero; parameter gradients are never examined.",
 [LC,CV],[("ConvolutionalLayer::forward/backward",LC)],["output","outgoing gradient","accumulated parameter gradients"],hook="read access to accumulated kernel and bias gradients")
p("C13","Max-pool layer routes every gradient to an element that produced the maximum",
 "In training mode, after a forward pass, the gradient the max-pool layer passes back in each following backward pass is obtained by adding each incoming gradient element to one input element inside its own window that attains that window's maximum, and is zero elsewhere. Input elements that win several overlapping windows receive the sum, so the total gradient is conserved per depth slice. Stale gradient contents and earlier passes have no influence.",
 ["inputs","histories"],"All geometries (also overlapping and gapped windows), depths, non-NaN inputs, gradients, repeated passes.",
 "One 3x3x1 image with distinct increasing values and no element winning twice.",
 [LM,T],[("MaxPoolLayer::backward, add_from_index_list",LM+", "+T)],["outgoing gradient"])
p("C14","Training mode and inference mode compute the same outputs",
 "For every layer kind and for every network of such layers, a forward pass in training mode produces the same output, and the same value after each layer, as in inference mode on the same parameters and input, up to rounding. Switching modes any number of times changes neither parameters nor results. Doing backward passes also leaves the parameters, and hence later outputs, unchanged.",
 ["inputs","histories","configurations"],"All layers, networks, inputs and sequences of mode switches and passes.",
 "The two modes run different code; the tests compare them on single tiny examples per layer and never on a network or after a switch back.",
 [LF,LC,LM,LS,N],[("forward match on run mode",LF+", "+LC+", "+LM)],["forward outputs","get_intermediate_state"])
p("C15","Parameter gradients accumulate over passes and reset when cleared",
 "In training mode, after any number of forward passes with any number of backward passes after each, a fully connected or convolutional layer's accumulated parameter gradients equal the sum of the gradients of the single passes since the gradients were last cleared, since the layer entered training mode, or since its parameters were (re)loaded, up to rounding. Clearing sets all of them to zero and does not alter parameters or forward results. A forward pass alone never changes them.",
 ["histories","inputs"],"All sequences of forward, backward, clear, switch and reload operations with arbitrary samples.",
 "Tests perform exactly one backward pass and never clear or switch afterwards.",
 [LF,LC],[("add_to_self into gradient buffers, clear_gradients, update_gradient_and_intermediate_tensors",LF+", "+LC)],["accumulated parameter gradients"],hook="read access to accumulated parameter gradients")
p("C16","Network inference is the composition of its layers and keeps no memory",
 "For every network, inference on an input of the declared shape succeeds, and the intermediate states are the input followed by each layer's forward result on the previous state, the last being the output. The result depends only on the parameters and the current input: earlier inferences, failed calls, backward passes, mode switches or layers appended later do not change what the same prefix of layers yields. An input of any other shape, or a network without layers, is answered with an error and leaves the stored output as it was.",
 ["inputs","histories","configurations"],"All layer stacks, inputs and call histories.",
 "One network of two constant-filled fully connected layers, one inference.",
 [N],[("Network::infer slice splitting and intermediate_states",N)],["get_output","get_intermediate_state"])
p("C17","Network backward is the chain rule through all layers",
 "In training mode, after an inference, each following network backward hands each layer that layer's own input and output of this inference together with the gradient produced by the layer after it (the caller's gradient for the last layer), from the last layer to the first, each exactly once. The gradients with respect to every layer's input and parameters therefore equal the derivatives of the dot product of output and given gradient. A gradient of the wrong shape is answered with an error and changes no layer's gradients.",
 ["inputs","histories","configurations"],"All layer stacks, inputs, gradients, and sequences of inference/backward pairs.",
 "One two-layer network with constant weights whose gradients are all equal, so wrong pairing of states and gradients is largely invisible; convolution, pooling and softmax are never chained.",
 [N],[("Network::backward",N)],["arguments and results of every layer's backward","accumulated parameter gradients"],hook="read access to accumulated parameter gradients")
p("C18","Run mode is consistent, and backward works exactly in training mode",
 "After any history of creating a network, adding layers and switching modes, the network reports the mode last requested, every layer is in that mode, and a layer added later adopts it. Network backward with a correctly shaped gradient succeeds exactly when the network is in training mode and has layers, and otherwise returns an error without panicking; a single layer's backward in inference mode likewise returns an error. Switching to the mode already active is harmless.",
 ["histories","configurations"],"All sequences of add-layer, switch, infer and backward on all layer kinds.",
 "One fixed sequence that inspects only the layers' modes, not the network's own mode or the behaviour of backward after a switch back.",
 [N,LF,LC,LM,LS],[("switch_to_training/switch_to_inference, add_layer",N)],["get_run_state","get_run_mode","Result of backward"])
p("C19","Layers can be appended exactly when shapes chain; refusals change nothing",
 "Adding a layer to an empty network always succeeds, and to a non-empty network succeeds exactly when the layer's input shape equals the current output shape. The network's input shape is then its first layer's input shape, its output shape its last layer's output shape, and there is one intermediate state more than layers, with matching shapes. A refused layer leaves layers, shapes, mode, stored states and all later behaviour unchanged.",
 ["histories","configurations"],"All sequences of accepted and refused additions over all layer kinds, interleaved with inference and switches.",
 "One fixed sequence of two accepted and one refused layer, where behaviour after the refusal is not examined.",
 [N],[("Network::add_layer",N)],["get_input_shape","get_output_shape","get_layers","get_intermediate_state"])
p("C20","Saving and loading a tensor is lossless",
 "Saving any tensor to a file and loading that file yields a tensor of the same shape whose every element has the same bit pattern, including not-a-number payloads, infinities, signed zeros and subnormals, and which behaves identically in further operations. An existing file is fully replaced, whatever its former length, and saving does not alter the tensor. Saving to an unusable path or where the data cannot be written, or loading a missing file, returns an error.",
 ["inputs","histories"],"All shapes, all bit patterns, all previous contents of the target file, arbitrary file names.",
 "One 3x4x5 Gaussian tensor written once to a fresh file.",
 [T,H],[("save_to_file/from_file, derive(Serialize, Deserialize)",T)],["loaded tensor","file"])
p("C21","A layer restored from serialized form is equivalent to the original",
 "Serializing any layer and loading the result into a layer of the same kind, whatever that layer held before and whichever mode it is in, yields a layer with the same name, shapes and parameters that computes identical forward results and gradients and keeps its own mode; serializing it again gives the same content. Loading from another kind's serialized form, or from one with a missing field, returns an error and leaves the layer working as before. The original is not altered by being serialized.",
 ["inputs","histories","configurations"],"All layer kinds, parameters, names, target layers and their modes.",
 "Tests restore zero- or constant-filled layers into fresh inference-mode layers and compare fields; restoring into a used or training-mode layer is not covered.",
 [L,LF,LC,LM,LS],[("get_serialized/load_from_serialized/fill_from_state",LF+", "+LC+", "+LM+", "+LS)],["get_serialized","forward/backward results"],hook="read access to accumulated parameter gradients")
p("C22","Saving and loading a network reproduces it",
 "Saving any network and loading the file into an empty network yields the same sequence of layers, with the same kinds, names, shapes and parameters, the same network input and output shapes, and identical inference results; the loaded network and its layers are in the mode the receiving network was created in, and training on it gives identical gradients. Loading into a network that already has layers appends the stored layers under the same shape rule as adding layers, as does adding a stored layer directly, and leaves gradients gathered so far alone. Saving does not change the network, and an existing file is fully replaced; saving to an unusable path or where the data cannot be written returns an error.",
 ["inputs","histories","configurations"],"All layer stacks, parameters, names, modes and file histories.",
 "The only network serialization test covers two constant fully connected layers in memory; the file functions, other layer kinds and modes are never run.",
 [N,L],[("save_to_file/load_from_file, SerializedNetwork, SerializedLayer::add_to_network",N+", "+L)],["get_layers","get_output","file"])
p("C23","Malformed files are refused cleanly: error, no panic, nothing half-loaded",
 "Loading a tensor or network from a file that is truncated, corrupted or not such a file at all never panics; it either returns an error or yields an object that is internally consistent, fully usable and exactly what the file's content encodes: a network file in which some layer lacks a field, or holds one that cannot be decoded, is refused rather than loaded with something else in its place. A truncated file of either kind is always refused. When loading a network fails, the receiving network is left exactly as it was before the call.",
 ["inputs","fault_sequences"],"All truncations of valid files and arbitrary byte- and field-level corruptions whose declared sizes fit in memory.",
 "No test loads anything but a well-formed file.",
 [T,N,L,LF,LC,LM,LS],[("bincode::deserialize, load_from_serialized_data, populate_network",N+", "+T)],["Result of from_file/load_from_file","panics","network state after failure"])
p("C24","Layer construction accepts exactly usable configurations",
 "Constructing or filling a layer succeeds exactly when its parts fit together: window no larger than the input, stride of at least one that steps exactly across it, one scalar bias per kernel, at least one kernel, all kernels of one shape with the input's depth; for a fully connected layer, bias length equal to output size. Otherwise an error is returned, without panicking, and a layer being refilled keeps its former state. A constructed layer accepts every tensor of its declared input shape in both modes and produces its declared output shape.",
 ["inputs","configurations"],"All combinations of shapes, strides, kernel and bias lists, for all layer kinds.",
 "Tests only construct valid layers.",
 [LC,LF,LM,LS],[("new/fill_from_state",LC+", "+LF+", "+LM)],["Result of constructors","forward results","panics"])
p("C25","Layers refuse tensors of the wrong shape instead of pretending success",
 "A layer given an input or output tensor in forward, or an input, incoming or outgoing gradient tensor in backward (for the softmax layer, which computes its gradient from it, the output too), whose shape is not the one its geometry requires, returns an error in either mode and does not panic. A successful return therefore always means the destination was completely computed from the given input. A refused call leaves the layer usable: a following correct pass gives the usual result.",
 ["inputs","histories","configurations"],"All layer kinds, modes and tensor shapes, in particular near misses with equal element count.",
 "No test passes a wrongly shaped tensor to a layer.",
 [LF,LC,LM,LS],[("shape validation in forward/backward",LF+", "+LC+", "+LM+", "+LS)],["Result of forward/backward","destination contents"])
p("C26","Initialisers, norm and equality respect their definitions",
 "Filling with a value sets every element; filling uniformly draws every element independently and evenly from within the inclusive bounds; Gaussian filling draws every element independently from the normal distribution of the requested mean and spread; none changes the shape and all ignore previous contents. The norm equals the square root of the sum of squares up to rounding, is zero exactly for the zero tensor, and scales with the absolute value of a scalar. Two tensors compare equal exactly when their shapes agree and all elements compare equal, and inequality is always the negation.",
 ["inputs"],"All shapes, values, bounds, means and spreads.",
 "Fixed small examples; Gaussian statistics are never checked, equality is tried on two tensors of one shape.",
 [T],[("fill_with_*, get_norm, PartialEq",T)],["tensor contents","get_norm","=="])
p("C27","Stored files keep the established format",
 "The file a tensor is saved to holds, little-endian and without gaps, its three strides, its three extents, the 64-bit number of elements and the elements' bits in storage order. The file a network is saved to holds the number of layers and per layer its kind, the number of its fields and each field as number, length and content: tensors and extents as above, numbers as 32 bits, names as length and UTF-8 bytes. Files written by the original release therefore load and yield the object they describe, and files written now are such files; only the order of a layer's fields is free.",
 ["inputs"],"All tensors, and all networks of the four layer kinds with any parameters and names; any order of the fields within a layer.",
 "Tests only read back what the same build wrote, so a format changed on both sides goes unnoticed while every existing file becomes unreadable.",
 [T,H,N,L,LC,LF,LM,LS],[("Serialize/Deserialize of Tensor",T),("SerializedNetwork, save_to_file, load_from_file",N),("*SerialKeys, get_serialized, load_from_serialized",L)],["file bytes","the loaded object"])
p("C28","A failing layer fails the network call, and a later call recovers",
 "When a layer of a network returns an error from its forward pass, network inference returns an error and runs no layer behind it; when one returns an error from its backward pass, network backward returns an error and hands no gradient to the layers in front of it. Neither panics nor changes the network's layers, shapes, mode or parameters, whatever the failing layer left in its destination. The next inference in which no layer fails, and a backward pass after it, give the results of a network in which none ever failed.",
 ["inputs","fault positions","histories"],"All networks, also of user-defined layers, all positions and moments of failure, all later histories.",
 "No test contains a layer that fails; a swallowed error, or a loop that goes on after it, passes them all.",
 [N,L],[("infer, backward error propagation",N),("trait Layer",L)],["Network::infer and backward results","the calls layers receive","intermediate states"])
p("C29","Objects are independent of each other and of the thread they are used on",
 "Tensors, layers and networks share no hidden state: when several of them are used in turns in any order, each gives bit for bit the results, gradients and stored states it gives when used alone, also when they have the same kind, name and geometry. The same holds when different objects are used on different threads at the same time, and when an object is handed to another thread between two calls, for example between forward and backward.",
 ["histories","schedules"],"All sets of objects, all interleavings of their operations, all hand-overs between threads.",
 "Tests use one or two objects from start to end on one thread; a shared or thread-bound scratch buffer or cache is invisible there.",
 [T,CV,LC,LF,LM,LS,N],[("per-object buffers (relu masks, gradients, origin lists, intermediate states)",L)],["outputs, gradients, stored states and modes of all objects"])
p("C30","New layers start defined: as named and shaped, zero parameters, inference mode",
 "A newly constructed layer has exactly the name it was given, the input and output shape of the requested geometry (a fully connected size of zero counting as one), is in inference mode, and has all weights, kernel elements and biases zero, so it computes what the layer with those parameters computes in both modes. A placeholder made by empty() is such a layer with all extents one. Its parameter gradients are zero when it enters training mode. Setting a fully connected layer's weights or bias to a value sets every element of exactly that parameter, in either mode, and affects no other layer.",
 ["inputs","configurations","histories"],"All sizes, fitting geometries and names; all sequences of fills, passes and mode switches.",
 "Tests construct a few layers and look at single outputs; stray initial values or a fill that misses elements at other sizes are not observed.",
 [LC,LF,LM,LS],[("new, empty, fill_from_state",L),("fill_weights_with_value, fill_bias_with_value",LF)],["getters, serialized content, forward and backward results"])
p("C31","Repeated work does not accumulate memory",
 "Repeating any cycle of operations on a tensor, layer or network - passes, clearing, mode switches, refills, saving, loading, refused inputs, layers and files - does not make the heap memory it holds grow from one repetition to the next. A layer or network that was trained and is back in inference mode holds, after an inference, no more memory than after an inference before the training, bookkeeping that does not depend on tensor sizes aside. Dropping the objects gives everything back.",
 ["histories","configurations"],"All layer kinds, networks and tensors; all cycles of operations, including refused ones.",
 "Tests run one or two passes and never look at what stays allocated; a buffer that is appended to instead of replaced, or training memory kept in inference, only shows over many passes.",
 [T,LC,LF,LM,LS,N],[("update_gradient_and_intermediate_tensors",L),("intermediate_states, intermediate_gradients, load_from_file",N)],["live heap bytes (counting allocator)"])
p("C32","Rectification and scatter-add act on exactly the elements they name",
 "Rectifying a tensor in place keeps every strictly positive element bit for bit, makes every other (non-NaN) element zero, and writes a mask that is one exactly where the element was strictly positive and zero elsewhere, whatever the mask held before. A scatter-add adds each source element to the target element its index names, several to the same one when indices repeat, up to rounding in any order; a target element that no index names keeps its bits, source elements beyond the list are ignored, and source and list are unchanged.",
 ["inputs"],"All shapes, all values other than NaN in rectified tensors including subnormal numbers, infinities and signed zeros, all index lists within range, all former contents of mask and target.",
 "Tests rectify and scatter a handful of small integers; thresholds next to zero, stale masks, repeated or missing indices in long lists are not sampled.",
 [T],[("relu_self_and_store_mask",T),("add_from_index_list",T)],["contents of tensor, mask, source and target"])
for x in P: print(json.dumps(x))
