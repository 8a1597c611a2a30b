"""The properties: one entry each; mkmeta.py writes properties.jsonl and MANIFEST.json from them."""

DEV = "src/aihwkit/simulator/configs/devices.py"
RC = "src/rpucuda/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


prop("C01", "Configuration fields reach the simulator parameter of the same meaning",
     "Every field a user sets in a tile, device or unit-cell configuration reaches the compiled simulator as the parameter of the same meaning, "
     "with the value the user gave: no field is dropped, swapped with another, or handed to a parameter of a different name. Every choice of an "
     "enumerated option selects the simulator option of the same name, and a compound device hands over each of its unit-cell devices, in order.",
     ["configurations"], "every field of every configuration class, every enumerator, every list of unit-cell devices",
     "Tests instantiate a handful of devices and look at weights, which are insensitive to most of the several hundred fields (many default to zero).",
     [DEV, "src/aihwkit/simulator/configs/compounds.py", "src/aihwkit/simulator/parameters/helpers.py", "src/aihwkit/simulator/rpu_base_src/rpu_base_devices.cpp"],
     [("conversion of dataclasses to simulator parameters", "src/aihwkit/simulator/parameters/helpers.py"),
      ("parameter bindings", "src/aihwkit/simulator/rpu_base_src/rpu_base_devices.cpp")],
     "cross-language table agreement over the Python class model and the clang AST of the bindings, with a path-sensitive value-flow analysis of the handover functions",
     "All configuration classes, bindings attributes and enumerators of the CPU build are enumerated and compared; the accelerator bindings are not compiled here.")

prop("C02", "Copying, moving and swapping simulator objects carries all of their state",
     "A copy of a compiled simulator tile, device, weight updater or parameter object has all the state of the original and shares no storage it owns with it; "
     "a move or a swap transfers every part of the state. Only scratch buffers, random generators and storage owned by someone else are exempt.",
     ["histories", "inputs"], "every record with a user-written copy constructor, move assignment or swap; every member of it",
     "A member that is left out shows only in a copied object whose member had a non-default value and is read later; tests copy few objects and compare weights.",
     [RC + "rpu.cpp", RC + "rpu_pulsed_device.cpp", RC + "rpu_simple_device.cpp", RC + "rpu_vector_device.cpp", RC + "rpu_transfer_device.cpp"],
     [("copy constructors, move assignments and swap functions", "src/rpucuda")],
     "member-completeness effect analysis of copy/move/swap functions over the clang AST (what is written from which member of the source)",
     "Flow-insensitive within a function: a member counts as copied when some statement writes it from the same member of the source.")

prop("C03", "Saved simulator state is complete and restored into the place it came from",
     "The extra state of a compiled simulator tile (weights buffers, device states and counters, updater, forward/backward pass, drifter, modifier, clipper, remapper) "
     "that is dumped when a tile is saved contains every member that is not fixed by the configuration, and loading puts each entry back into the "
     "member it was taken from, under the same name, the same sub-part and the same condition; a base class and every owned part is dumped if and only if it is loaded.",
     ["histories", "crash points"], "every class with a dumpExtra/loadExtra pair, every member of it, every saved entry",
     "Whether an entry is lost shows only after saving in a state where that member has a non-default value and continuing; tests compare weights right after loading.",
     [RC + "rpu.cpp", RC + "rpu_vector_device.cpp", RC + "rpu_forward_backward_pass.cpp", RC + "weight_drifter.cpp", RC + "rpu_mixedprec_device_base.cpp"],
     [("dumpExtra/loadExtra pairs", "src/rpucuda"), ("state keys and prefixes", RC + "utility_functions.h")],
     "writer/reader table agreement: the entries, parts and base calls of dumpExtra and loadExtra extracted from the clang AST, plus member completeness",
     "Scratch buffers, random generators, sizes and configuration copies are exempt by a table with a reason for each; values are not compared.")

prop("C04", "Hidden device parameters are set into the place they were read from",
     "The hidden parameters of a device (bounds, step sizes, slopes, persistent and hidden weights ...) that are read out by name are the members the names say; "
     "setting them puts each one back into the member it was read from, for every device of a compound and every optional parameter, and nothing that setting "
     "does afterwards overwrites it. The inverted copy that a one-sided device makes mirrors the parameters of the device it copies "
     "(up and down exchanged, bounds and reference negated), not its own.",
     ["histories", "inputs"], "every device class with hidden parameters; every name, every pointer of the list, every optional parameter",
     "A slot that is off by one, or a value that is overwritten by a later step, shows only for device types and options the tests do not read back.",
     [RC + "rpu_pulsed_device.cpp", RC + "rpu_pulsed_device.h", RC + "rpu_vector_device.cpp", RC + "rpu_mixedprec_device_base.cpp", RC + "rpu_buffered_transfer_device.cpp"],
     [("getDPNames / getDeviceParameter / setDeviceParameter", "src/rpucuda"), ("copyInvertDeviceParameter", RC + "rpu_pulsed_device.cpp")],
     "writer/reader slot agreement by symbolic offset analysis of the three parameter functions over the clang AST, with an ordered effect analysis of what follows the writes",
     "Names are tied to members by a table confirmed by reading; values are not compared.")

prop("C05", "Every pulse moves a weight in its direction and within its bounds",
     "For every pulsed device type, sparse and dense, a down pulse (positive pulse sign) lowers the weight it belongs to by the down step and an up pulse raises it by the up step: only the "
     "parameters of that direction and of that weight enter, the change is added to the old weight, both ways of updating make the same step, and the result is limited "
     "to the upper and the lower bound of that weight. Decay, diffusion, clipping, reset and setting weights keep the bounds as well; decay and reset go toward the reset bias; "
     "with write noise the visible weight is the limited persistent weight plus noise.",
     ["inputs", "histories"], "every device type, every path of its update and of the weight operations, every weight value and noise draw",
     "Tests run a few updates from zero with small noise; a missing clamp or a mixed-up direction shows at the bounds, for rare noise draws or in options nobody tests.",
     [RC + "rpu_linearstep_device.cpp", RC + "rpu_softbounds_reference_device.cpp", RC + "rpu_expstep_device.cpp", RC + "rpu_pulsed_device.cpp"],
     [("doSparseUpdate / doDenseUpdate of the pulsed devices", "src/rpucuda"), ("decay, diffusion, clip, reset, set", RC + "rpu_pulsed_device.cpp")],
     "path-sensitive value-flow analysis of the instantiated C++ update functions with syntactic sign, direction and bound rules on the resulting expressions",
     "Step sizes are taken as positive (their sign is not analysed); min <= max of the bounds is assumed; compound devices delegate to these.")

EQ = ("agreement with reference definitions by path-sensitive value numbering: for each function every pair of compatible paths of the current source and of the "
      "reference must compute, store, change in place and call the same values (canonical polynomials over symbolic values; helpers inlined)")
EQNOTE = ("The reference definitions in specs/ were confirmed by reading; loops are compared for a general round, while loops for two rounds; functions with "
          "too many paths along the paths that differ from two base paths in at most two decisions. Operations outside of the comparison are left undecided and listed.")
T = "src/aihwkit/simulator/tiles/"
PER, SIM, RPU, MOD = T + "periphery.py", T + "base.py", T + "rpucuda.py", T + "module.py"

prop("C06", "Saving, loading and copying an analog tile restores it",
     "An analog tile that is pickled, deep-copied, moved between devices or saved to and loaded from a state dict afterwards has the weights, hidden parameters, learning rate, extra state and "
     "configuration of the tile it came from: every entry is taken from and put back into the simulator tile it belongs to, in an order in which no later step "
     "overwrites it, shared weight tensors and the weight view of the analog context follow the weights, and a state of a different structure is rejected. "
     "Reading the hidden or forward/backward parameters by name and setting them again leaves the tile as it was.",
     ["histories", "crash points"], "every tile type, every configuration, every moment at which a tile is saved or copied",
     "A lost or overwritten part shows only in later behaviour of a restored tile in a state with non-default values; tests compare weights right after loading.",
     [SIM, MOD, RPU, T + "inference.py", T + "transfer.py"],
     [("tile state", SIM + " __getstate__ / __setstate__"), ("state dict hooks", MOD), ("extra state by name", RPU)], EQ, EQNOTE)

prop("C07", "A tile owns its configuration and is built from all of it",
     "Every tile works on its own deep copy of the configuration it was created with, loaded with or re-configured with, so that later changes of the object the user passed, or of another tile, "
     "do not reach it. The simulator tile is created with the sizes of the layer (plus one input for an analog bias), the data type of the configuration, and the whole "
     "configuration including the device; the bias is analog or digital as configured; incompatible configurations are rejected rather than half applied.",
     ["configurations", "histories"], "every tile class, every configuration, every later change of a shared configuration object",
     "Tests build one tile per configuration object and do not change it afterwards.",
     [SIM, MOD, T + "analog.py", T + "floating_point.py", T + "inference.py", T + "inference_torch.py", T + "custom.py", T + "transfer.py"],
     [("construction of tiles", SIM), ("replacing the configuration", MOD + " replace_with")], EQ, EQNOTE)

prop("C09", "Forward, backward and update use the same digital periphery",
     "In the forward pass a tile scales (and clips) the inputs by the input range, runs the analog product, undoes the input scaling and applies the mapping and the learned output scales along the output "
     "dimension, and adds the digital bias once; the backward pass sets the gradient to zero where the output bound of the forward pass was hit (if configured), multiplies it with the mapping scales before the analog transposed product and updates the learning of the input range; "
     "the update uses the input scaled by the input range and divides the gradient by the mapping scales. Transposed layouts, indexed (convolution) and plain calls do the same thing.",
     ["inputs", "configurations"], "every tile type, every input and gradient, every combination of scales, bias, transposition and indexing",
     "Most tests run with unit scales, without input range or without bias, where a scale that is missing, doubled or applied along the wrong dimension cannot be seen.",
     [PER, T + "analog.py", T + "inference.py", T + "inference_torch.py", T + "custom.py", T + "quantized_inference_torch.py"],
     [("digital periphery", PER), ("forward of the tiles", T)], EQ, EQNOTE)

prop("C10", "Weights and scales of a tile always multiply to the weights that were set",
     "Setting weights stores the given weight (and bias) matrix in the tile, split into analog values and mapping scales whose product is the given matrix; getting them multiplies the scales back, row by row of the "
     "output, and separates the bias again; changing, remapping or initialising scales keeps that product. Programming writes the target weights and remembers the reference; a realistic "
     "read-out estimates the same matrix from forward passes, without changing the tile. Values are copied, not shared, unless a reference is asked for.",
     ["inputs", "configurations", "histories"], "every weight matrix, every scale, every mapping option, every order of set / get / program / remap",
     "Tests use few shapes and default mappings; scales along the wrong dimension or a stale scale are invisible for square or unit-scale cases.",
     [PER, SIM, T + "inference.py", T + "inference_torch.py", T + "custom.py", T + "transfer.py"],
     [("weights and scales", PER), ("combined weights", SIM + " _combine_weights / _separate_weights")], EQ, EQNOTE)

prop("C12", "The autograd function pairs each forward with its own backward and update",
     "The autograd function runs forward, backward and update of the tile it was called with, on the input of that call and on the gradient of that output: with shared weights the update is written into the "
     "weight gradient only, otherwise input and gradient are handed to the analog context, one pair per forward call and in that order, for the optimizer to apply; test-mode, offloading and indexed calls keep that pairing. "
     "The maintenance calls of a tile (decay, diffusion, drift, column reset, learning rate, post-update) reach its simulator tile with the arguments given and under the conditions of the device.",
     ["histories", "inputs"], "every tile, every sequence of forward and backward calls, shared or own weights",
     "A swapped or stale tensor is invisible in single-layer, single-call tests.",
     [T + "functions.py", RPU, T + "custom.py"], [("AnalogFunction", T + "functions.py"), ("maintenance of tiles", RPU)], EQ, EQNOTE)

prop("C13", "The input range is learned as configured",
     "The input range of a tile starts from the configured value, is set from the first training batches (a running mean over the counted batches of the configured multiple of the standard deviation of the input), and is then learned: its gradient is built from the output "
     "gradients at the clipped inputs with the sign of the clipping, scaled as configured, with a decay added only when the fraction of inputs within the range exceeds the configured minimum, and with the output-bound management enlarging it as configured; in test mode nothing is changed. "
     "Inputs are clipped to the range and scaled by it.",
     ["inputs", "histories"], "every option of the input-range parameters, every sequence of batches in train and test mode",
     "The running mean, the switch from data-driven to learned ranges and the decay need specific sequences of batches.",
     [PER, T + "inference_torch.py"], [("input range", PER + " apply_input_range / post_backward"), ("torch input range", T + "inference_torch.py InputRangeForward")], EQ, EQNOTE)

prop("C14", "Inference tiles program, drift and compensate from the right weights",
     "Programming an inference tile applies the programming noise to the weights of the tile once and stores the noisy weights, the drift parameters and the drift base line; drifting at an inference time always starts from the programmed weights (programming them first if there are none) and "
     "applies noise for that time, and the drift compensation measured at that time relative to the base line scales the output of later forward passes until it is replaced; setting new weights discards "
     "the programmed state, training steps do not drift and remap and clip as configured, and all of this state is saved with the tile.",
     ["histories", "configurations"], "every sequence of set / program / drift / forward / train, every noise model and compensation",
     "The order matters: drifting twice, drifting after setting weights, or saving between programming and drifting are sequences tests rarely sample.",
     [T + "inference.py", T + "inference_torch.py"], [("inference tile", T + "inference.py InferenceTileWithPeriphery")], EQ, EQNOTE)

prop("C16", "The torch analog product applies each non-ideality as configured",
     "The torch implementation of the analog matrix-vector product applies, in this order and only when configured: noise management of the input scale, input quantisation, clipping, noise and asymmetry, the (transposed) product, "
     "output asymmetry, output noise, quantisation and bound, and the inverse of the input scaling times the output scale; iterative bound management repeats with a scale reduced each time until no output is clipped or the "
     "limit is reached; a perfect product has none of it, and unsupported options are rejected.",
     ["inputs", "configurations"], "every option of the IO parameters, every input",
     "The options multiply to thousands of combinations, most of which no test instantiates, and noise hides small errors.",
     [T + "analog_mvm.py"], [("AnalogMVM", T + "analog_mvm.py")], EQ, EQNOTE)

prop("C17", "The torch simulator tile modifies, clips and remaps weights as configured",
     "In training the torch tile computes with a copy of the weights modified as configured (multiplicative or additive noise relative to the assumed or actual maximum, or discretisation, per call or per sample of the batch) while the stored weights stay as they are; in test mode with the "
     "stored weights. Clipping limits the stored weights in place to the fixed value or the configured multiple of their standard deviation; remapping divides them by the new layer or channel scale and returns that scale so that the product is unchanged; "
     "options that are not implemented are rejected when the tile is built.",
     ["inputs", "configurations"], "every modifier, clip and remap option, every weight matrix including all-zero channels",
     "Noise hides wrong scales, and zero channels or per-sample noise are not sampled by tests.",
     [T + "torch_tile.py", T + "torch_tile_irdrop_t.py", T + "utils.py", T + "inference_torch.py"], [("TorchSimulatorTile", T + "torch_tile.py")], EQ, EQNOTE)

prop("C20", "A tile array is the same as one large tile",
     "A logical array of tiles covers the weight matrix without gap or overlap by blocks no larger than configured; setting weights gives each tile its own block and getting them puts the blocks back in the same place; the forward pass gives each row of "
     "tiles its slice of the input, concatenates along the output and adds up over the input, and adds the bias exactly once, at the end. Quantised arrays quantise bias and accumulated output as configured.",
     ["inputs", "configurations"], "every layer size and maximum tile size, every weight and input",
     "Tests use sizes that split evenly or not at all; an off-by-one block shows for uneven splits only.",
     [T + "array.py"], [("TileModuleArray", T + "array.py")], EQ, EQNOTE)

prop("C21", "The Python transfer tile follows the transfer schedule",
     "The Python implementation of the chopped / dynamic transfer algorithm updates the fast tile with the chopped input and the configured or auto-scaled learning rate, and after every configured number of updates reads one column (or row), in cyclic order, adds it to the hidden "
     "buffer with the sign of its chopper and the configured granularity, writes the whole units of the buffer to the slow tile and keeps the rest (or forgets it), and switches choppers by the configured probability or period. Forward and backward passes, weights, learning rate "
     "and hidden parameters are those of its sub-tiles, and the tensors given by the caller are not changed.",
     ["histories", "configurations"], "every option of the transfer compounds, every sequence of updates",
     "The schedule (counter, index, chopper period) shows only over many updates and for particular option combinations.",
     [T + "transfer.py"], [("TransferSimulatorTile.update", T + "transfer.py")], EQ, EQNOTE)

NNM = "src/aihwkit/nn/modules/"

prop("C11", "An optimizer step applies each recorded pair to its tile once",
     "A step of the analog optimizer first runs the step of its digital base class and then, for every analog tile in its parameter groups that has recorded input and gradient pairs, sets the learning rate of the tile to that of the group and runs the pulsed update on all recorded "
     "pairs in their order - concatenated along the batch (the last dimension for transposed tiles), or pair by pair for indexed tiles - and clears them, so that no pair is applied twice or lost; with a learning rate of zero the pairs are dropped without an update, tiles that torch updates are left alone. "
     "Afterwards every analog tile of every group gets its post-update call exactly once per step. Regrouping gives each analog tile a group of its own with the options of the group it came from and removes it from the others.",
     ["histories", "configurations"], "every model, every grouping of parameters, every sequence of forward / backward / step, every learning rate",
     "A pair that is applied twice, kept over a zero-rate step, or a post-update that runs once per pair shows only in particular sequences of calls and param groups.",
     ["src/aihwkit/optim/analog_optimizer.py", "src/aihwkit/optim/context.py"], [("AnalogOptimizerMixin", "src/aihwkit/optim/analog_optimizer.py"), ("recorded pairs", "src/aihwkit/optim/context.py AnalogContext")], EQ, EQNOTE)

prop("C18", "Analog recurrent layers compute the standard recurrences",
     "The analog RNN, LSTM and GRU cells compute the equations of the torch cells with their gate order, with analog linear layers of matching size in place of the matrix products; a layer feeds the items of the sequence to its cell in order with the state carried along, the reverse direction processes the sequence "
     "backwards and returns its outputs in the original order, a bidirectional layer concatenates both directions, a stacked network feeds each layer the output of the one below with dropout between layers (not after the last), and returns the final state of every layer and direction in order. Missing initial states are "
     "zeros of the right batch size.",
     ["inputs", "configurations"], "every cell, number of layers, direction, dropout, sequence length",
     "Tests compare few configurations with torch; gate order, state order of stacked bidirectional layers and reversal errors hide in symmetric initial states.",
     [NNM + "rnn/cells.py", NNM + "rnn/layers.py", NNM + "rnn/rnn.py"], [("cells", NNM + "rnn/cells.py"), ("layers", NNM + "rnn/layers.py"), ("network", NNM + "rnn/rnn.py")], EQ, EQNOTE)

prop("C19", "Conversion between digital and analog models keeps the model",
     "Converting a model to analog replaces exactly the layers whose class is in the conversion map and that are not excluded (by their full dotted name), each by the mapped analog layer with the geometry, weights and bias of the digital one and a copy of the configuration specialised for that layer name, "
     "on the device of the original; all other modules and the names under which modules are registered (also several names of a shared module) stay, and the original model is left alone unless in-place conversion is asked for. Converting to digital replaces the analog layers by digital ones with the same geometry, "
     "weights and bias, and unwraps the root.",
     ["inputs", "configurations"], "every module tree, conversion map, exclusion list, layer geometry",
     "Module trees nest arbitrarily; tests convert a handful of small models and rarely compare stride, dilation, groups, padding or shared modules.",
     ["src/aihwkit/nn/conversion.py", NNM + "linear.py", NNM + "conv.py", NNM + "conv_mapped.py", NNM + "container.py"],
     [("conversion", "src/aihwkit/nn/conversion.py"), ("from_digital / to_digital", NNM)], EQ, EQNOTE)

prop("C22", "Analog convolutions compute the convolution of their geometry",
     "An analog convolution maps its kernel to a tile of in-channels times kernel elements (plus analog bias), and computes the convolution of its stride, padding and dilation either by explicit unfolding or by an index table into the flattened image that lists, for every "
     "kernel element and channel, its position at every output pixel (zero for padding, one for the bias); the table and image sizes are recomputed whenever the size of the input changes or the tile lost them. The mapped versions split channels and outputs into tiles within the configured maximal sizes, add up the partial results over the "
     "channel splits and concatenate over the output splits, add the digital bias once, and set and get weights in the layout of the digital layer. Geometries that are not supported (groups, padding modes, dilation of indexed layers) are rejected.",
     ["inputs", "configurations", "histories"], "every channel count, kernel, stride, padding, dilation, image size, maximal tile size; every sequence of image sizes",
     "Tests use square kernels and images and one image size per layer; a wrong axis or a stale index table is invisible there.",
     [NNM + "conv.py", NNM + "conv_mapped.py"], [("convolution", NNM + "conv.py"), ("mapped convolution", NNM + "conv_mapped.py")], EQ, EQNOTE)

prop("C23", "Layer operations reach every analog tile once, under its own name",
     "The operations of analog layers and containers (get and set weights, drift, program, remap, replace configuration, load state, apply a function, prepare for distributed training) visit every analog layer or tile below them exactly once, containers themselves excluded, and hand over the arguments given; names of layers and tiles are "
     "their dotted module names. Loading a state dictionary restores analog states and reports missing and unexpected keys as requested. The analog linear layer applies its tile (or the mapped array of tiles) and adds the digital bias once, and resetting parameters writes the newly drawn weights and bias to the tile.",
     ["inputs", "configurations"], "every module tree, every layer configuration",
     "Tests use flat models; a skipped nested layer, a layer visited twice or a lost argument shows only in nested trees.",
     [NNM + "base.py", NNM + "container.py", NNM + "linear.py", NNM + "linear_mapped.py"], [("AnalogLayerBase", NNM + "base.py"), ("AnalogLinear", NNM + "linear.py")], EQ, EQNOTE)

INFD = "src/aihwkit/inference/"

prop("C15", "Inference noise and conductance conversion follow the documented models",
     "Applying noise converts the weights to conductances with the converter of the noise model, applies programming noise to each conductance and, for a positive time of inference, drift and read noise with freshly drawn coefficients, and converts back with the parameters of that same conversion. "
     "The noise models compute the documented formulas: programming noise with the polynomial standard deviation in the target relative to g_max (rescaled to the reference g_max), power-law drift relative to t_0 with coefficients from the documented conductance dependent distributions, accumulated 1/f read noise, and no negative conductances; "
     "the scales for programming noise, drift and read noise enter linearly. The tensors given are not changed. Each converter maps the largest absolute weight to the end of its conductance range, spreads weights over its pairs in order of significance, and its back conversion is the inverse of the conversion; invalid ranges and factor lists are rejected. "
     "The drift compensation is the ratio of reference and current read-out (mean absolute output, global or per column). Programming or drifting a model reaches each of its analog layers with the given arguments and only in evaluation mode.",
     ["inputs", "configurations"], "every weight matrix, converter, noise model option and time of inference",
     "The results are random; tests check shapes, ranges or statistics at the default options, where a wrong exponent, scale or reference is within the noise.",
     [INFD + "noise", INFD + "converter", INFD + "compensation", INFD + "utils.py"],
     [("noise models", INFD + "noise/"), ("converters", INFD + "converter/"), ("compensation", INFD + "compensation/")], EQ, EQNOTE)

prop("C24", "Digital quantisation uses the configured scheme and calibrated ranges",
     "The uniform quantisers map a tensor to the integer grid of their bit width, clamp it to the grid and map it back with the scale (and the zero point of asymmetric quantisers) computed from their range; gradients pass straight through inside the range. Range estimators keep the current, the running or the overall minimum and maximum (or the "
     "range of least mean squared error), per tensor or per channel of their axis. A quantisation manager quantises with ranges estimated from each batch, fixed, or learned, according to its state, and the state switches of layers, models and of the state functions reach every quantised module and "
     "the quantisers they name (weights, activations, or both). Quantised layers compute the digital layer on the quantised weights and quantise activations where configured; cached quantised parameters are used only for evaluation of fixed ranges and are dropped when training, when the weights are loaded or the module moves. Converting a model replaces the modules that the "
     "quantisation map names (by instance, then by type), with their parameters, geometry and bit widths, skips excluded modules, wraps inputs where configured, and leaves the model given unchanged.",
     ["inputs", "histories", "configurations"], "every tensor, bit width, estimator, axis, sequence of state changes, module tree",
     "Off-by-one grid limits, a wrong axis or a stale cache are invisible for the few symmetric cases of the tests.",
     ["src/aihwkit/simulator/digital_low_precision", "src/aihwkit/nn/low_precision_modules", "src/aihwkit/nn/low_precision_conversion.py"],
     [("quantisers", "src/aihwkit/simulator/digital_low_precision/quantizers.py"), ("ranges", "src/aihwkit/simulator/digital_low_precision/range_estimators.py"),
      ("layers", "src/aihwkit/simulator/digital_low_precision/hijacker.py"), ("conversion", "src/aihwkit/nn/low_precision_conversion.py")], EQ, EQNOTE)

prop("C25", "Input range calibration measures each tile and restores the model",
     "Calibrating input ranges passes all given data through the model in evaluation mode, measures the inputs of every analog tile that takes part (all tiles with pre- and post-processing, or only those with an enabled input range) and sets the input range of that tile from its own inputs as the calibration type says: the quantile of the cached samples "
     "(at most the given number), the overall absolute maximum, or the moving average of quantile or scaled standard deviation. All-zero input vectors are ignored. Afterwards the measuring hooks are gone, the analog product of every tile is as perfect as before, the range and the calibration type are noted in the configuration, and a model that was training trains again. "
     "Calibrating quantisation ranges estimates with at most the given number of batches and fixes the ranges.",
     ["inputs", "configurations", "histories"], "every model, data iterator, calibration type and option",
     "Tests calibrate one or two layers with one setting; restoring the state of every tile and per-tile caches need mixed configurations.",
     [INFD + "calibration/calibration.py"], [("calibration", INFD + "calibration/calibration.py")], EQ, EQNOTE)

prop("C27", "Weight programming optimisation evaluates and returns valid strategies",
     "The optimizer evaluates a strategy by programming and drifting a test layer with the down-sampled weight distribution at every given time and averaging the squared error relative to the largest weight; the baseline is that same loss for the given baseline converter. Points of the search cube map to conductance pairs within [g_min, g_max] and factors within [f_min, f_max] "
     "whose weighted differences realise the discretised weights (mirrored for symmetric strategies); given factors are kept. The number of search dimensions fits that mapping. The result is a custom pair converter of the best point and a flag that tells whether the loss beat the baseline by the margin or the search converged; the mapping options of the configuration are restored "
     "and the caller's configuration is not changed.",
     ["inputs", "configurations"], "every weight distribution, factor list, converter, noise model",
     "The only test of the optimizer is skipped (it takes too long), and its result is random.",
     [INFD + "converter/wpo.py"], [("optimizer", INFD + "converter/wpo.py")], EQ, EQNOTE)

prop("C28", "Configurations, presets and algorithm builders give the documented parameters",
     "Every configuration class, device, compound and preset has the documented default for each of its parameters, and mutable defaults are made anew for every instance. "
     "Building a configuration for a training algorithm returns the compound device of that algorithm with the number of devices, the periphery and update parameters of the algorithm and the construction seed, "
     "every part being an own copy of the device and parameter objects given. A layer larger than the maximal tile size in one direction is mapped to a tile array, a layer within both (or with both unlimited) to a single tile; "
     "two mappings are compatible if they differ in nothing but the weight scaling settings; a device (and a cell with any such device) reports decay and diffusion if they are configured; output clipping management is supported only for an imperfect forward without noise and bound management.",
     ["configurations", "inputs"], "every field of every configuration class and preset, every algorithm name",
     "Tests build configurations with explicit values; a default or a preset parameter that changed, or an object shared between two devices, passes them.",
     ["src/aihwkit/simulator/configs/helpers.py", "src/aihwkit/simulator/configs/devices.py", "src/aihwkit/simulator/configs/compounds.py", "src/aihwkit/simulator/presets/configs.py", "src/aihwkit/simulator/parameters/mapping.py"],
     [("build_config", "src/aihwkit/simulator/configs/helpers.py"), ("presets", "src/aihwkit/simulator/presets/configs.py")], EQ, EQNOTE)

prop("C29", "The time-sliced IR drop product follows the circuit model",
     "The torch IR drop tile computes its forward product with the time-sliced model: inputs are converted to pulse durations (one pass, split into upper and lower bits, or bit by bit, with the parts weighted by their significance and their bound tests combined), every pair of conductances is padded symmetrically to the physical size, even columns are "
     "read from one side and odd columns from the other, the Thevenin equivalent of the segmented line is integrated over the time steps, currents are optionally quantised, scaled back to weights and interleaved in the order of the outputs, for inputs of any number of dimensions and any number of outputs. IR drop is applied in evaluation only (read noise "
     "that depends on the integration time if configured, also for zero inputs), and unsupported settings are refused.",
     ["inputs", "configurations"], "every input, weight, number of outputs, analog product type, converter and parameter",
     "Tests run one or two even shapes with a tolerance; bit weights, sides and segments cancel for symmetric inputs.",
     ["src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py", "src/aihwkit/simulator/tiles/torch_tile_irdrop_t.py"],
     [("time-sliced product", "src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py")], EQ, EQNOTE)

prop("C30", "Experiments train, measure and report exactly what they were given",
     "A training experiment runs the given number of epochs, each with one pass over the training data in train mode (gradients cleared, loss propagated, one optimizer step per batch) and one over the validation data in eval mode, and reports per epoch the accuracy and losses averaged over the images seen. "
     "An inference experiment works on a copy of the model with the given weight template (a path, an address or a known name) and remapping, and for every repeat programs the weights and evaluates at the given number of logarithmically spaced times after drifting to each; results are mean and spread over the repeats so far. "
     "The element limit, batch size, normalisation, split, device, hooks and signals are the given ones; partial results are marked as such.",
     ["inputs", "configurations", "histories"], "every dataset, model, number of epochs, repeats and inference times, every order of hooks",
     "Training experiments in tests run one epoch on a few images and check that something is returned.",
     ["src/aihwkit/experiments/experiments/training.py", "src/aihwkit/experiments/experiments/inferencing.py", "src/aihwkit/experiments/runners"],
     [("experiments", "src/aihwkit/experiments/experiments"), ("runners and metrics", "src/aihwkit/experiments/runners")], EQ, EQNOTE)

prop("C31", "Cloud experiments survive their stored form, and failed requests are errors",
     "An experiment converted to its stored form and back has the same dataset, batch size, epochs, learning rate, loss, layers (with sizes, bias, and weight scaling of the mapping) and, for inference, template, repeats, time, noise and analog settings; the inference configuration built from those settings uses them for the parameters of the same meaning. "
     "Unknown layers, datasets, losses or versions are refused. A client request that fails, by its status code or its reported error, raises an error that does not contain the query of the address; an expired token is renewed once; experiment states, categories, dates and results are those of the reply; "
     "address and token come from the arguments, the environment or the configuration file in that order.",
     ["inputs", "configurations", "faults"], "every supported layer, dataset, loss, noise setting; every reply of the service",
     "Tests that need the service are skipped; the round trips in the tests cover few layers with default arguments.",
     ["src/aihwkit/cloud/converter/v1", "src/aihwkit/cloud/client"],
     [("converters", "src/aihwkit/cloud/converter/v1/training.py"), ("mappings", "src/aihwkit/cloud/converter/v1/mappings.py"), ("client", "src/aihwkit/cloud/client/v1/api_client.py"),
      ("sessions", "src/aihwkit/cloud/client/session.py")], EQ, EQNOTE)

prop("C32", "Export, fitting, checkpoint conversion and matrix tools give what they say",
     "Exporting a model gives, per analog layer and tile, the target conductances of its weights and the conversion parameters, and writes one row per layer, in order, under a header that describes the layers; importing checks that header and sets each tile to the weights that its conductances represent. "
     "Fitting minimises the (weighted) difference between the measured responses and the mean simulated traces for the same pulses and writes the fitted parameters into the given configuration. Converting an old checkpoint keeps layer parameters, scales and states under their new names; a checkpoint in the current form comes back unchanged and leaves the model as it is. "
     "An analog matrix multiplies with its tile (from the left with the transpose) and adds the given multiple of an outer product. Casting to a float format "
     "uses the given exponent and mantissa and passes gradients unchanged. Pulse responses read the weights (or the forward product) after each single pulse of the given direction; the tile plotted has single-pulse updates without management, and none of the noise to be excluded, without changing the given configuration; "
     "the number of steps is the weight range over the granularity.",
     ["inputs", "configurations"], "every model, tile array, conductance data, measurement, matrix, float format and pulse sequence",
     "Tests call these tools once with default arguments on single-tile layers.",
     ["src/aihwkit/utils/export.py", "src/aihwkit/utils/fitting.py", "src/aihwkit/utils/legacy.py", "src/aihwkit/linalg/matrix.py", "src/aihwkit/extension/functions.py", "src/aihwkit/utils/visualization.py"],
     [("export", "src/aihwkit/utils/export.py"), ("fitting", "src/aihwkit/utils/fitting.py"), ("matrix", "src/aihwkit/linalg/matrix.py")], EQ, EQNOTE)

prop("C33", "The analog summary describes every layer and leaves the model as it was",
     "The summary of a model lists every layer without children and every analog layer once, in the order they run, with its input and output sizes, kernel size, analog tiles (logical and physical shape, and the utilization of mapped tiles), and the number of vector-matrix products per input; totals are the sums over these. "
     "Making it leaves no hooks in the model and changes neither its parameters, its buffers nor its train mode.",
     ["inputs", "histories"], "every model, every use of the model before and after",
     "Tests look at the numbers of one summary of fresh models and do not use the model afterwards.",
     ["src/aihwkit/utils/analog_info.py"], [("AnalogInfo", "src/aihwkit/utils/analog_info.py")], EQ, EQNOTE)

prop("C26", "The analog context never lets code bypass the tile's update",
     "The weight parameter that represents an analog tile to torch gives access to its weight values only in the mode that allows it: in placeholder mode every operation other than the listed metadata queries raises; in data-view mode values can be read (the logical weights, without the analog bias column) but in-place methods, item "
     "assignment and out= targets on the parameter or its view raise; in buffer mode an independent tensor is used, and writes never reach the tile. Shape, device and dtype queries, copying, moving between devices and re-assigning the data keep the tile, its recorded pairs and the mode consistent.",
     ["histories", "inputs"], "every tensor operation, every mode and sequence of mode changes",
     "There are hundreds of tensor operations; tests call a few.",
     ["src/aihwkit/optim/context.py", "src/aihwkit/optim/weight_view.py"], [("AnalogContext", "src/aihwkit/optim/context.py"), ("views", "src/aihwkit/optim/weight_view.py")], EQ, EQNOTE)

EQX = ("agreement with reference definitions for C++ by path-sensitive value numbering over the clang AST (translated to a small imperative form): for each function every pair of "
       "compatible paths of the current source and of the reference must compute, store and call the same values; where canonical forms differ, a random interpretation of the "
       "uninterpreted values decides whether they are the same function of them")
EQXNOTE = ("The reference definitions in specs_cxx/ were confirmed by reading (and repaired together with the code); helpers are inlined, loops compared for a general round or two rounds. The CPU build is "
           "analysed; CUDA sources cannot be parsed here. Forms the comparison cannot align (a different nesting of loops, other containers) are left undecided and listed.")

prop("C34", "The simulator's analog product applies each non-ideality as its parameter says",
     "For every input vector and every IO parameter, the compiled simulator's forward and backward products (RPU tiles, not the torch ones) pass through exactly these steps: the noise-management scale is computed from the input as its type says (absolute maximum, maximum, a constant, the running average, at "
     "least what the larger of the positive and negative sums asks for; thresholds and caps included); the input is scaled by it, clipped to the input bound, made asymmetric, discretised (with or without stochastic rounding) and noised as set; the product uses the weights (with weight noise of the set type, IR drop, series resistance and voltage offsets where set; in positive and "
     "negative passes where the mode asks for them); the output is noised, passed through the nonlinearity, clipped, discretised and scaled back by the output scale and the noise-management scale. Bound management repeats the product with the input halved (or the noise management changed) up to its limit as long as a bound is exceeded, and the "
     "result is scaled back by the same factor. A perfect IO is the exact product. Values of the parameters that are drawn per tile (nonlinearities, voltage offsets, asymmetry, noise per output) are drawn once when the tile is made, from the distribution given by their mean and variation, and are given and set unchanged.",
     ["inputs", "configurations"], "every input vector, every combination of IO parameters, forward and backward",
     "The combinations of management types, noise types, passes and limits are far more than the tests use, and most of them compare with loose tolerances.",
     [RC + "rpu_forward_backward_pass.cpp", RC + "rpu_forward_backward_pass.h", RC + "math_util.cpp", RC + "utility_functions.h"],
     [("IO pipeline", RC + "rpu_forward_backward_pass.cpp"), ("vector and matrix kernels", RC + "math_util.cpp")], EQX, EQXNOTE)

prop("C35", "Pulse trains carry the product of input and error in the expected pulse count",
     "For a pulsed update with learning rate lr, the simulator's pulse parameters follow the update management: the pulse train length and the amplifications of input and error are those that make the expected number of coincidences times the device's weight granularity equal lr * x * d, up to the maximal desired length, with the update management and update bound "
     "management choices applied (and without them, with the fixed length and scale). The bit line makers then draw, for every input and error line, pulses with the probability (or the deterministic or mean number) that corresponds to the amplified, discretised and, where set, noise-free value, its sign, and no pulse for a zero; the coincidence counts "
     "handed to the device are those of the two trains (up and down counted with the sign of the product, in the requested order), each weight receiving each coincidence once. Devices that need no pulses get the exact rank-one update. Sparsities and pulse counters reported are those of the trains. The random number source gives uniform and Gaussian numbers with the "
     "parameters asked for, and the same numbers for the same nonzero seed.",
     ["inputs", "configurations", "histories"], "every input and error vector, pulse type, learning rate and update parameter",
     "Tests look at mean updates of a few vectors; the special cases (zero lines, probabilities beyond one, longer trains, update management with extreme scales) are not sampled.",
     [RC + "sparse_bit_line_maker.cpp", RC + "dense_bit_line_maker.cpp", RC + "rpu_weight_updater.cpp", RC + "rpu_pulsed_meta_parameter.cpp", RC + "rng.cpp"],
     [("bit line makers", RC + "sparse_bit_line_maker.cpp"), ("weight updater", RC + "rpu_weight_updater.cpp"), ("update management", RC + "rpu_pulsed_meta_parameter.cpp")], EQX, EQXNOTE)

prop("C36", "Transfer devices move the gathered update to the weight on their schedule",
     "In a transfer compound device of the simulator (plain, buffered, chopped, dynamic) a transfer from a fast device to the next happens exactly when its counter of updates (in matrix-vector units or mini-batches, as configured; scaled per device or set automatically where asked) completes the period, reads the configured number of columns or rows starting "
     "at the current one (advancing cyclically, or randomly with the set selection probability), with the transfer read-out parameters, and writes the read values to the next device with the transfer update parameters and the transfer learning rate (scaled as configured), in the direction that adds the gathered value. "
     "Buffers keep what was not yet transferred: only whole multiples of the threshold (granularity) are written, momentum and limits on pulses as set. Choppers flip with their probabilities at the set times, and the sign they give to an update is taken away again on read-out. The dynamic device's reference means, feedback and learning-rate scales follow the chopper period. "
     "Resets during transfer touch only the columns read. The visible weight is the sum of the devices' weights with their factors, and setting the weight sets only the devices that the configuration names. Decay, diffusion, drift, clip and reset of the compound act on every device that is not excluded.",
     ["histories", "configurations", "inputs"], "every number and order of updates, every schedule, sizes, devices and update parameters",
     "Schedules show after many updates in combinations of period, column count, choppers and buffers; tests do a few updates and look at the mean.",
     [RC + "rpu_transfer_device.cpp", RC + "rpu_buffered_transfer_device.cpp", RC + "rpu_chopped_transfer_device.cpp", RC + "rpu_dynamic_transfer_device.cpp"],
     [("transfer", RC + "rpu_transfer_device.cpp"), ("buffered", RC + "rpu_buffered_transfer_device.cpp"), ("chopped", RC + "rpu_chopped_transfer_device.cpp"),
      ("dynamic", RC + "rpu_dynamic_transfer_device.cpp")], EQX, EQXNOTE)

prop("C37", "Vector, one-sided and mixed-precision devices split and gather updates correctly",
     "In the simulator's compound devices: a vector device gives each update to the devices that its update policy names (all, the fixed one, one in turn, one at random), with the learning rate of the compound or scaled to the granularity of the device, and the weight is the sum of the device weights with the configured (or equal) factors. "
     "A one-sided device gives positive changes to one device and negative ones to the other as positive pulses, the weight is their difference, setting the weight puts its parts on the two sides, and on its schedule the refresh resets the pairs that meet the refresh criterion, and only those, and writes their difference back; when the pair is inverted the two devices exchange roles. "
     "A mixed-precision device accumulates x*d products (with each factor rounded to the set number of bins over its absolute maximum where set) in a digital matrix, and after every set number of updates transfers, for the set number of rows (in turn or from a random one), whole multiples of the granularity to the device, keeping the remainder. "
     "Decay, diffusion, drift, clip and reset of a compound act on each of its devices and then give the weight anew.",
     ["histories", "configurations", "inputs"], "every number and order of updates, every policy, every device list",
     "These follow from long sequences of updates and combinations of policies that tests do not run.",
     [RC + "rpu_vector_device.cpp", RC + "rpu_onesided_device.cpp", RC + "rpu_mixedprec_device_base.cpp", RC + "rpu_mixedprec_device.cpp"],
     [("vector", RC + "rpu_vector_device.cpp"), ("one-sided", RC + "rpu_onesided_device.cpp"), ("mixed precision", RC + "rpu_mixedprec_device_base.cpp")], EQX, EQXNOTE)

prop("C38", "Weight modifiers, clipping, remapping and drift of simulator tiles act as set",
     "On a simulator tile the weight modifier writes into its output, and never into the stored weights, what its type names: the weights unchanged; with additive, multiplicative, polynomial or programming noise of the given standard deviation relative to the assumed maximum (or the actual one where set), programming noise keeping the sign; discretised or DoReFa-quantised at the given resolution, "
     "with stochastic rounding and noise where combined; with connections dropped with the given probability; and the last column as it was where set. The clipper bounds the weights at the fixed value, at sigma standard deviations, or at the average over rows of the largest absolute weight, never beyond the fixed value where one is given. The (layer- or channel-wise symmetric) remapper divides each layer or row by its largest absolute weight over the target "
     "and multiplies the scales by the same, leaving their product unchanged, within the maximal scale range where set, and leaves zero rows as they are. Drift moves each weight from the value it had when it was last changed by the power law with its own exponent (drawn once from mean and device-to-device variation; with the variation per call and the dependence on the log conductance "
     "as set) over the time since then in units of t0, about the weight offset, plus the read noise, and restarts for each weight changed by more than the tolerance.",
     ["inputs", "configurations", "histories"], "every weight matrix and parameter combination",
     "Each type has its own formula; tests use a few types with one parameter set and check rough statistics.",
     [RC + "weight_modifier.cpp", RC + "weight_clipper.cpp", RC + "weight_remapper.cpp", RC + "weight_drifter.cpp"],
     [("modifier", RC + "weight_modifier.cpp"), ("clipper", RC + "weight_clipper.cpp"), ("remapper", RC + "weight_remapper.cpp"), ("drifter", RC + "weight_drifter.cpp")], EQX, EQXNOTE)

prop("C39", "Simulator tiles route products, updates and weight operations consistently",
     "A simulator tile computes forward, backward and update for a vector, a batch, with or without bias column, transposed or not, tensors with permuted dimensions and indexed (convolution) inputs as the same product or outer product over the same elements: each of these is the vector operation applied to each element of the batch, in its place. Weights are stored and given in the same orientation, with "
     "shared, delta or buffered weights as set (with a delta store set, it receives the update divided by the negative learning rate and the weights stay); the modified weights are used in the forward and backward pass as the options say and never in the update; delayed updates apply what was gathered before. Learning rates and scales set are those used. Decay, diffusion (also pink, with its flicker states), "
     "drift, reset, clip and remap act on the elements, with the scales and the bias column treated as the arguments say, with the rate corrected for the power of the scale given; pulsed tiles hand them to their device and keep device and weights together; reading or setting the real weights restores everything that was not to be changed.",
     ["inputs", "configurations", "histories"], "every batch, dimension order, bias, transposition, index list, sequence of calls",
     "The same operation has many entry points; tests use the usual one with full batches.",
     [RC + "rpu.cpp", RC + "rpu_pulsed.cpp"], [("RPUAbstract, RPUSimple", RC + "rpu.cpp"), ("RPUPulsed", RC + "rpu_pulsed.cpp")], EQX, EQXNOTE)

prop("C40", "Every simulated device is drawn and updated by the formula of its documentation",
     "When a simulator tile with a pulsed device is made, each crosspoint gets its bounds, up and down steps, decay, diffusion and reset values from the configured mean with the configured device-to-device variation (imbalance between up and down, correlations, sign limits and enforced consistency as set), as do the extra parameters of the linear-step, exponential-step, power-step (with or without reference), "
     "piecewise-step and soft-bounds-reference devices. Each up or down pulse then changes the (persistent, where separate) weight by the step that the device model gives at its present value: constant, linear in the weight, exponential, power of the distance to the bounds, interpolated between the given points, or referenced; with the cycle-to-cycle noise additive or multiplicative as set, bounded by the crosspoint's bounds; "
     "the visible weight has the write noise where set. Decay moves towards the reset value, diffusion adds noise of the drawn rate, reset and clip act on the crosspoints asked for; granularity and number of states reported are those that follow from the parameters; the defaults of the parameters are those of the configuration.",
     ["configurations", "inputs", "histories"], "every device type, parameter combination, crosspoint and pulse sequence",
     "Tests construct each device with default variations and check that weights move; wrong formulas move them as well.",
     [RC + "rpu_pulsed_device.cpp", RC + "rpu_simple_device.cpp", RC + "rpu_constantstep_device.cpp", RC + "rpu_linearstep_device.cpp", RC + "rpu_expstep_device.cpp", RC + "rpu_powstep_device.cpp",
      RC + "rpu_powstep_reference_device.cpp", RC + "rpu_piecewisestep_device.cpp", RC + "rpu_softbounds_reference_device.cpp"],
     [("pulsed device", RC + "rpu_pulsed_device.cpp"), ("linear step", RC + "rpu_linearstep_device.cpp"), ("soft bounds reference", RC + "rpu_softbounds_reference_device.cpp")], EQX, EQXNOTE)
