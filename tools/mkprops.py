#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
NOASSERT = "The existing tests contain no assertion: they run random data once and print error statistics, so no numerical behaviour is settled by them. "

p("C01", "Random number sequences are in range and complete for every generator kind",
  "For every width w (w >= 2 for lfsr) and every supported generator name (case-insensitive), the generated sequence has length 2^w and consists of integers in [0, 2^w-1] in the requested data type. "
  "'sobol'/'rc' (for the requested Sobol dimension), 'race'/'tc', 'race10'/'tc10' and 'sys' produce each value exactly once, ascending for race/tc and descending for race10/tc10, while 'lfsr' lists the successive states of a maximal-length LFSR, the first 2^w-1 entries being each nonzero value exactly once. "
  "Any other generator name is rejected.",
  ["inputs", "configurations"], "all widths, generator kinds, Sobol dimensions, result types",
  NOASSERT + "test_rng prints one 4-bit sequence per kind.", ["stream/gen.py"],
  [("RNG.__init__", "stream/gen.py"), ("get_lfsr_seq", "stream/gen.py"), ("get_sysrand_seq", "stream/gen.py")],
  observe=["RNG(hwcfg, swcfg)()"])

p("C02", "Source values are quantised to the nearest binary integer in range",
  "For every source tensor with values in the legal range of its mode (unipolar [0,1], bipolar [-1,1]) and every width w, the converted integer is the correctly rounded (half to even) value of source*2^w in unipolar mode and of (source+1)/2*2^w in bipolar mode, so it lies in [0, 2^w] and the decoded value differs from the source by at most half a quantisation step. "
  "The result has the source's shape and the requested data type, and the caller's source tensor is left unmodified.",
  ["inputs", "configurations"], "all source values, shapes, widths, modes, result types",
  NOASSERT + "test_bingen prints two values at width 4.", ["stream/gen.py"],
  [("BinGen.__init__", "stream/gen.py"), ("BinGen.forward", "stream/gen.py")], observe=["BinGen(source, hwcfg, swcfg)()"])

p("C03", "Generated bitstreams are comparator-exact, periodic and value-preserving",
  "The bit produced for a value at cycle c is 1 exactly when the value is greater than entry (c mod sequence length) of the random sequence, for any cycle number and for per-element cycle numbers, and it is delivered in the configured stream type. "
  "Consequently, when the sequence lists 0..L-1 once each, every window of L consecutive cycles contains exactly 'value' ones, and with an ascending sequence these are the leading cycles of the period. "
  "A random sequence whose length is not a power of two is rejected.",
  ["inputs", "histories", "configurations"], "all integer values in [0,L], all cycle numbers, all power-of-two lengths, shapes and stream types",
  NOASSERT + "Only one width with random data is sampled, two periods long.", ["stream/gen.py"],
  [("BSGen.forward", "stream/gen.py")], observe=["BSGen(binary, rng, swcfg)(cycle)"])

p("C04", "Raw data scaling lands in [-1,1], clips at the quantile, keeps order and sign",
  "For every raw tensor and quantile q in (0,1], the scaled output is clip(raw, Q(0.5-q/2), Q(0.5+q/2)) divided by the larger magnitude of those two quantile bounds. "
  "Whenever that magnitude is nonzero, every output is within [-1,1], a bound of largest magnitude maps to exactly +1 or -1, the ordering of the raw values is preserved, and clipping aside the zero point and sign are preserved. "
  "A quantile outside (0,1] is rejected and the raw tensor is not modified.",
  ["inputs", "configurations"], "all raw tensors with a nonzero bound, all quantiles in (0,1]",
  NOASSERT + "One normal sample with q=0.95 is printed.", ["stream/gen.py"], [("RawScale.forward", "stream/gen.py")], observe=["RawScale(hwcfg)(raw)"])

p("C05", "Skewed synchronisation conserves ones and is correct at every cycle",
  "For any pair of input bitstreams, the second output equals the second input, the first output is a bit, and at every cycle the ones received on input 1 minus the ones emitted on output 1 equals the number of ones held back, which always lies in [0, 2^depth-1]. "
  "A one on input 1 without a one on input 2 is held back unless the buffer is full, and a one on input 2 without a one on input 1 releases a held one whenever the buffer is not empty; otherwise input 1 passes unchanged.",
  ["inputs", "histories", "configurations"], "all pairs of bit sequences of any length, all depths >= 1, all shapes",
  NOASSERT + "test_skewedsync prints five cycles at depth 3.", ["stream/shuffle.py"],
  [("SkewedSync.forward", "stream/shuffle.py")], [("cnt", "number of held ones", "stream/shuffle.py SkewedSync")], ["SkewedSync(...)(in_1, in_2)"])

p("C06", "Bipolar/unipolar stream conversion accounts for every input bit",
  "The bipolar-to-unipolar converter emits a one exactly when its saturating running total of (2*bit-1) minus already emitted ones reaches one, so after every cycle the total is in [-2^(depth-2), 0] and ones emitted never fall below the signed input sum. "
  "The unipolar-to-bipolar converter, for depth >= 4, has emitted exactly floor((cycles + input ones)/2) ones after any number of cycles. "
  "Both hold lane by lane for every input history, depth and data type.",
  ["inputs", "histories", "configurations"], "all bit sequences of any length, depth >= 2 (>= 4 for the exact count), all shapes",
  NOASSERT + "256 cycles of one random batch per converter are printed.", ["stream/shuffle.py"],
  [("Bi2Uni.forward", "stream/shuffle.py"), ("Uni2Bi.forward", "stream/shuffle.py")], [("accumulator", "pending signed total", "stream/shuffle.py")], ["Bi2Uni(...)(bit)", "Uni2Bi(...)(bit)"])

p("C07", "Streaming addition conserves value: output ones times scale track the inputs",
  "Each cycle the adder adds the number of input ones along the chosen dimension (minus (entries-scale)/2 in bipolar mode, nothing in unipolar mode) to an accumulator saturating at +-2^(depth-2), and emits a one and subtracts the scale exactly when the accumulator has reached the scale. "
  "So while no saturation occurs, scale*(ones emitted) + accumulator equals the sum of everything added, and in scaled mode (scale = entries, entries*2-1 <= 2^(depth-2)) exactly floor(total input ones / entries) ones have been emitted after any number of cycles. "
  "The scale and entry count are those configured, or those passed with the first call, or else the size of the summed dimension, and stay fixed afterwards.",
  ["inputs", "histories", "configurations"], "all input bit histories, entry counts, scales > 0, depths >= 2, modes, dimensions",
  NOASSERT + "The adder's own test is not run at all (too slow); FSULinear reaches one configuration.", ["kernel/add.py"],
  [("FSUAdd.forward", "kernel/add.py")], [("accumulator", "pending weighted total", "kernel/add.py"), ("scale_carry", "value of one output one", "kernel/add.py"), ("offset", "bipolar correction", "kernel/add.py")], ["FSUAdd(...)(bits)"])

p("C08", "Static multiplication uses each generator bit exactly when its input enables it",
  "With a static multiplier, the output at each cycle is the next unused bit of the multiplier's generated stream if the input bit is 1; if it is 0 the output is 0 in unipolar mode and the complement of the next unused bit of a second, independently advancing copy in bipolar mode. "
  "Hence after k ones and m zeros in any order the number of ones emitted is the number of ones in the first k generator bits, plus in bipolar mode the number of zeros in the first m generator bits, and is independent of how the input ones are distributed in time.",
  ["inputs", "histories", "configurations"], "all input bit histories, multiplier values, widths, generator kinds, modes, shapes",
  NOASSERT + "One width-8 Sobol configuration on random data.", ["kernel/mul.py"],
  [("FSUMul.FSUMul_forward", "kernel/mul.py")], [("rng_idx", "ones consumed", "kernel/mul.py"), ("rng_idx_inv", "zeros consumed", "kernel/mul.py")], ["FSUMul(prob, hwcfg, swcfg)(bit)"])

p("C09", "In-stream multiplication tracks the second stream over a sliding window",
  "With two streams, the multiplier's current probability is the number of ones among the last 2^width bits of the second stream before the current one (the window initially holding alternating 0,1), compared with the random sequence at an index counting, modulo 2^width, the ones received so far on the first stream. "
  "The output is that comparison when the first bit is 1; when it is 0 the output is 0 in unipolar mode and, in bipolar mode, the complement of the comparison at an index counting the zeros received so far.",
  ["inputs", "histories", "configurations"], "all pairs of bit histories, widths, generators, modes, shapes",
  NOASSERT + "One configuration on random data.", ["kernel/mul.py", "kernel/shiftreg.py"],
  [("FSUMul.FSUMul_forward", "kernel/mul.py"), ("ShiftReg.ShiftReg_forward", "kernel/shiftreg.py")], observe=["FSUMul(None, hwcfg, swcfg)(bit0, bit1)"])

p("C10", "Shift register is a per-lane FIFO with exact population count",
  "A shift register of N entries starts with alternating 0,1 contents; each call returns the stored value at the requested index (0 is the oldest) and the sum of all stored values, both as they were before the call, and then drops the oldest value and appends the input. "
  "With an enable mask, exactly the lanes whose mask is 1 shift and all other lanes keep their contents unchanged. Previously returned values never change afterwards.",
  ["inputs", "histories", "configurations"], "all N >= 1, indices, masks, input histories and shapes",
  NOASSERT + "test_shiftreg makes one masked call.", ["kernel/shiftreg.py"], [("ShiftReg.ShiftReg_forward", "kernel/shiftreg.py")],
  [("sr", "register contents, oldest first", "kernel/shiftreg.py")], ["ShiftReg(...)(bit, mask, index)"])

p("C11", "JK flip-flop obeys its truth table for every input history",
  "Starting from 0, on every call the output equals the new state: hold for J=K=0, 1 for J=1,K=0, 0 for J=0,K=1 and the complement of the previous state for J=K=1, independently in each lane. "
  "The output has the configured stream type, and outputs returned by earlier calls are not changed by later calls, whatever the stream type.",
  ["inputs", "histories", "configurations"], "all J/K bit histories, shapes and stream types",
  NOASSERT + "Two calls are printed.", ["kernel/jkff.py"], [("JKFF.forward", "kernel/jkff.py")], [("jkff", "current state", "kernel/jkff.py")], ["JKFF(swcfg)(J, K)"])

p("C12", "Sign/absolute-value unit follows its saturating up-down counter",
  "A counter starting at 2^(depth-1) counts up for each input 1 and down for each input 0, saturating at 0 and 2^depth-1. "
  "At every cycle the reported sign is 1 exactly when the counter, including the current bit, is below 2^(depth-1), and the magnitude output is the input bit XOR that sign, both as bits in the stream type, for every input history, lane by lane.",
  ["inputs", "histories", "configurations"], "all bit histories, depths >= 1 (representable in the buffer type), shapes and types",
  NOASSERT + "One depth on random data.", ["kernel/signabs.py"], [("FSUSignAbs.forward", "kernel/signabs.py")], [("acc", "saturating counter", "kernel/signabs.py")], ["FSUSignAbs(...)(bit)"])

p("C13", "Streaming ReLU forces ones only while its output history is below zero",
  "A counter of the output stream starts at 2^(depth-1), counts +1 for an output 1 and -1 for an output 0, and saturates at 0 and 2^depth-1; the output is 1 whenever the counter before the cycle is below 2^(depth-1) and equals the input bit otherwise. "
  "Hence the counter never falls below 2^(depth-1)-1: after any number of cycles the zeros emitted exceed the ones by at most one (counting from any point at which the counter is at its start value). "
  "The output is a bit in the stream type and the counter is kept in the buffer type.",
  ["inputs", "histories", "configurations"], "all bit histories, depths >= 1, shapes and stream/buffer types",
  NOASSERT + "One depth, with equal stream and buffer types.", ["kernel/relu.py"], [("FSUReLU.forward", "kernel/relu.py")], [("acc", "saturating output counter", "kernel/relu.py")], ["FSUReLU(...)(bit)"])

p("C14", "Hard activations compute their clipped linear functions exactly",
  "The streaming hard sigmoid emits floor((cycles + input ones)/2) ones after any number of cycles, for both polarities and any depth >= 4, i.e. it computes (x+1)/2. "
  "The binary hard sigmoid with its default scale equals (clip(x,-1,1)+1)/2 and in general clip((scale*x+3)/6, 0, 1), the binary hard tanh equals clip(x,-1,1), the binary ReLU equals clip(x,0,scale), and the streaming hard tanh passes its stream unchanged; none of them modifies its input.",
  ["inputs", "histories", "configurations"], "all inputs, bit histories, depths >= 4, scales > 0",
  "The hard sigmoid/tanh and the binary ReLU have no test of their own at all.", ["kernel/sigmoid.py", "kernel/tanh.py", "kernel/relu.py"],
  [("FSUHardsigmoid.forward", "kernel/sigmoid.py"), ("HUBHardsigmoid.forward", "kernel/sigmoid.py"), ("HUBHardtanh", "kernel/tanh.py"), ("HUBReLU", "kernel/relu.py")], observe=["FSUHardsigmoid(...)(bit)", "HUBHardsigmoid()(x)", "HUBHardtanh()(x)", "HUBReLU(s)(x)"])

p("C15", "Correlated division: quotient bits follow the divisor-valid rule",
  "At every cycle the division kernel outputs the dividend bit when the divisor bit is 1, and otherwise replays, at the position given by the next number of its random sequence, one of the last 'entry' quotient bits produced at divisor-valid cycles (initially alternating 0,1), each lane separately. "
  "Unipolar division is that kernel applied to the skew-synchronised streams. Bipolar division takes signs and magnitudes of both operands, converts both magnitudes to unipolar, divides, converts back to bipolar, and inverts the result exactly when the two reported signs differ.",
  ["inputs", "histories", "configurations"], "all pairs of bit histories, kernel entry counts (powers of two), depths, generators, modes, shapes",
  NOASSERT + "Random data for a few configurations; outputs are only summarised.", ["kernel/div.py"],
  [("CORDIV_kernel.forward", "kernel/div.py"), ("FSUDiv.forward", "kernel/div.py")], [("sr", "last valid quotient bits", "kernel/div.py"), ("idx", "cycle count", "kernel/div.py")], ["FSUDiv(...)(dividend, divisor)", "CORDIV_kernel(...)(dividend, divisor)"])

p("C16", "Square root stream obeys its feedback recurrence in every configuration",
  "With tracing, the output bit is the trace bit OR the input bit, and the next trace bit is produced from the output stream by a toggling JK flip-flop (J = output, K = 1) or by the correlated divider applied to the output gated on alternate cycles; in bipolar mode the output first passes the bipolar-to-unipolar converter. "
  "With bit insertion, the output is the non-scaled sum of the input and the previously inserted bit, and the next inserted bit is (output, converted to unipolar in bipolar mode) AND the complement of the output bit that is 'entry' cycles old. "
  "All outputs are bits in the stream type, for every input history.",
  ["inputs", "histories", "configurations"], "all bit histories, modes, trace/emit variants, register sizes, shapes and types",
  NOASSERT + "Two emit configurations on a ramp of inputs.", ["kernel/sqrt.py"],
  [("FSUSqrt.forward", "kernel/sqrt.py")], [("trace", "feedback bit", "kernel/sqrt.py"), ("emit_out", "inserted bit", "kernel/sqrt.py")], ["FSUSqrt(...)(bit)"])

p("C17", "Streaming fully connected layer counts exactly the enabled weight bits",
  "With weights and bias supplied, each cycle and for each output the parallel count equals the sum over inputs of the weight's next generator bit where the input bit is 1, plus (bipolar) the complement of that weight's next 0-path generator bit where the input bit is 0, plus the bias bit of that cycle; with rate-coded weights each (batch, output, input) generator advances only on its own enabling bits, with temporally coded weights all advance every cycle, and the bias generator advances every cycle. "
  "The layer output is the streaming adder applied to this count with entries = inputs (+1 with bias) and the configured scale (default: entries), so scale*ones emitted tracks the summed counts.",
  ["inputs", "histories", "configurations"], "all input bit histories, batch and layer sizes, weights, biases, widths, generators, modes, scales",
  NOASSERT + "One 256x1000 shape with batch 1.", ["kernel/linear.py"],
  [("FSULinearPC.FSULinear_PC_wrc", "kernel/linear.py"), ("FSULinearPC.FSULinear_PC_wtc", "kernel/linear.py"), ("FSULinear.forward", "kernel/linear.py")],
  [("wrdx_i1", "per-weight 1-path index", "kernel/linear.py"), ("wrdx_i0", "per-weight 0-path index", "kernel/linear.py"), ("brdx", "bias index", "kernel/linear.py")], ["FSULinear(...)(bits)"])

p("C18", "Streaming convolution equals the fully connected rule on every padded window",
  "With weights and bias supplied, for every batch, kernel size, stride, dilation and padding (integer or pair), the convolution's parallel count at each output position equals the streaming fully connected count applied to the receptive-field bits of that position in row-major (channel, row, column) order, with an independent set of weight generators per output position. "
  "Positions outside the image read 0 in unipolar mode and alternate 0,1,0,1,... over cycles in bipolar mode; the output has the standard convolution output size and is the streaming adder of that count with entries = channels*kernel area (+1 with bias).",
  ["inputs", "histories", "configurations"], "all bit histories and weights; convolution geometries with at least one kernel position",
  "test_kernel_fsuconv2d is not run (too slow), so the streaming convolution has no test.", ["kernel/conv.py"],
  [("FSUConv2dPC.FSUConv2d_PC_wrc", "kernel/conv.py"), ("FSUConv2dPC.FSUConv2d_PC_wtc", "kernel/conv.py"), ("FSUConv2d.forward", "kernel/conv.py")],
  [("even_cycle_flag", "which padding bit is due", "kernel/conv.py")], ["FSUConv2d(...)(bits)"])

p("C19", "Hybrid unary layers multiply by exact generator counts",
  "With equal operand widths, a hybrid unary fully connected layer computes, for every batch row and output, the bias plus 2^-(output shift) times the sum over inputs of sign(input)*sign(weight)*P(|i|,|w|), where |i|,|w| are the operands divided by their power-of-two scale, rounded, and clipped to [0, cycles-1]. "
  "P(a,b) is the number of ones among the first A bits of the stream of b over the controlled generator, A being the number of ones in a full stream of a over the controlling generator (so A = a for generators listing each value once). "
  "The hybrid convolution equals this layer applied to every zero-padded receptive field, plus bias, for any geometry with at least one kernel position.",
  ["inputs", "configurations"], "all inputs, weights, biases, sizes, generator kinds, cycle limits, quantiles",
  "test_hublinear and test_hubconv2d fail before reaching the layer on the installed PyTorch.", ["kernel/linear.py", "kernel/conv.py"],
  [("HUBLinear.__init__", "kernel/linear.py"), ("HUBLinearFunction.forward", "kernel/linear.py"), ("HUBConv2d.forward", "kernel/conv.py")], [("mapctlee", "product table", "kernel/linear.py")], ["HUBLinear(...)(x)", "HUBConv2d(...)(x)"])

p("C20", "Fixed-point layers quantise both operands and compute the exact product sum",
  "For operands whose larger quantile bound magnitude is nonzero, a fixed-point fully connected layer rounds (half to even) input/2^ri and weight/2^rw to integers, clips their magnitude to 2^width-1, and returns the exact matrix product of these integers times 2^(ri+rw) plus the unquantised bias. "
  "ri and rw are the (rounded, floored or ceiled) log2 of the larger magnitude of the chosen quantile bounds, minus (width-1). The fixed-point convolution equals this layer on every zero-padded receptive field, plus bias.",
  ["inputs", "configurations"], "all inputs, weights, biases, sizes, widths, rounding modes, quantiles",
  "test_fxplinear and test_fxpconv2d fail before reaching the layer on the installed PyTorch.", ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"],
  [("FXPLinear.forward", "kernel/linear.py"), ("FXPLinearFunction.forward", "kernel/linear.py"), ("FXPConv2d.forward", "kernel/conv.py"), ("rshift_offset", "kernel/utils.py")], observe=["FXPLinear(...)(x)", "FXPConv2d(...)(x)"])

p("C21", "Temporal look-up layers are exact at full cycles and clip per digit otherwise",
  "The operand chosen for temporal coding is split into base-2^t digits, each digit's magnitude is limited to cycles-1, and the operand is rebuilt from the limited digits with its sign and scale. "
  "When either operand format is fixed point, the temporal operand is first quantised as trunc(clip(x/2^r, -(2^W-1), 2^W-1)) with r its power-of-two shift and W the magnitude width of its own format (width-1 for fixed point, the mantissa width for a floating format); when both are floating, the digits are those of its mantissa. "
  "With the full 2^t cycles the rebuilt operand equals the quantised operand exactly (for two floating formats: the original operand, whenever it is representable in its format), so the layer output equals the matrix product of the operands plus bias; the other operand is quantised (in the same way) only when both are fixed point. "
  "The temporal convolution equals this layer on every zero-padded receptive field, plus bias, its shifts being taken over the unfolded patches.",
  ["inputs", "configurations"], "all inputs and weights, digit widths, operand widths and formats, cycle limits, either operand temporal",
  "test_tlutlinear and test_tlutconv2d fail before reaching the layer on the installed PyTorch.", ["kernel/linear.py", "kernel/conv.py"],
  [("TLUTLinear.__init__", "kernel/linear.py"), ("TLUTLinearFXPFXPFunction.forward", "kernel/linear.py"), ("TLUTLinearFXPFPFunction.forward", "kernel/linear.py"), ("TLUTLinearFPFPFunction.forward", "kernel/linear.py"), ("TLUTConv2d.forward", "kernel/conv.py")], observe=["TLUTLinear(...)(x)", "TLUTConv2d(...)(x)"])

p("C22", "Training gradients of quantised layers are the straight-through linear gradients",
  "For the hybrid unary, fixed-point and temporal look-up fully connected layers, the gradients delivered for any upstream gradient are those of the plain linear layer on the unquantised saved operands: upstream*weight for the input, upstream^T*input for the weight, the batch sum of upstream for the bias, each only when requested, and none for configuration arguments. "
  "The fixed-point rounding operation passes the upstream gradient through unchanged.",
  ["inputs", "configurations"], "all operands, upstream gradients, sizes and subsets of required gradients",
  "The tests that call backward stop before the layer on the installed PyTorch.", ["kernel/linear.py", "kernel/utils.py"],
  [("HUBLinearFunction.backward", "kernel/linear.py"), ("FXPLinearFunction.backward", "kernel/linear.py"), ("TLUTLinear*Function.backward", "kernel/linear.py"), ("RoundSTE.backward", "kernel/utils.py")], observe=["tensor.backward()"])

p("C23", "Fixed-point rounding returns the nearest representable value",
  "For every input and every integer/fraction width, fixed-point rounding returns a multiple of 2^-frac with magnitude at most 2^int - 2^-frac: the nearest multiple (ties to even) when that is within range, and the range limit of the same sign otherwise. "
  "It is idempotent and order-preserving, keeps the input's shape and data type, leaves the input unmodified and maps a missing input to a missing output.",
  ["inputs", "configurations"], "all input values, shapes, widths",
  "test_round stops with NotImplementedError on the installed PyTorch.", ["kernel/utils.py"], [("RoundSTE.forward", "kernel/utils.py"), ("Round.forward", "kernel/utils.py")], observe=["Round(i, f)(x)"])

p("C24", "Convolution shape and padding arithmetic is exact and mutually inverse",
  "For all integer or per-axis sizes, kernels, strides, dilations and paddings (symmetric or per side), the computed 2d convolution output size is floor((size + total padding - dilation*(kernel-1) - 1)/stride) + 1 and the transposed size is (size-1)*stride - total padding + dilation*(kernel-1) + output padding + 1, per axis. "
  "The padding helpers return a per-side split (floor half, ceil half) which, fed back into the corresponding size function, yields exactly the requested output size.",
  ["inputs"], "all integer sizes >= 1, strides and dilations >= 1, kernels >= 1, paddings",
  "These functions have no test.", ["kernel/utils.py"],
  [("conv2d_output_shape", "kernel/utils.py"), ("convtransp2d_output_shape", "kernel/utils.py"), ("conv2d_get_padding", "kernel/utils.py"), ("convtransp2d_get_padding", "kernel/utils.py"), ("num2tuple", "kernel/utils.py")], observe=["return values"])

p("C25", "Weight clipping leaves every parameter on the representable grid",
  "After the clipper is applied to a module, every weight and bias element is a multiple of 2^-bitwidth in [0,1] (unipolar) or of 2^(1-bitwidth) in [-1,1] (bipolar); the first application maps the tensor's minimum and maximum linearly to the ends of the range and later ones clip (the first needs a tensor with two distinct values), and in both cases each element is the nearest grid value (ties to even) of the mapped or clipped value. "
  "Modules without a weight or bias are left alone, and an unknown mode is rejected.",
  ["inputs", "histories", "configurations"], "all weights (not constant for the first application), bit widths, modes, numbers of applications",
  "The clipper has no test.", ["kernel/utils.py"], [("NN_SC_Weight_Clipper.__call__", "kernel/utils.py"), ("NN_SC_Weight_Clipper.clipping", "kernel/utils.py")], [("frequency", "number of applications", "kernel/utils.py")], ["module.apply(clipper)"])

p("C26", "Truncated normal initialisation never returns an outlier",
  "Whatever values the random generator produces, a tensor returned by truncated-normal initialisation has every element within two standard deviations of the mean, and has the requested shape. "
  "Consequently freshly initialised gated recurrent cells have every weight and bias within 2/sqrt(hidden size).",
  ["inputs", "schedules"], "all random draws, means, standard deviations, shapes, numbers of redraws",
  "It is only called with random draws and never checked.", ["kernel/utils.py", "kernel/rnn.py"], [("truncated_normal", "kernel/utils.py"), ("HardMGUCell.reset_parameters", "kernel/rnn.py"), ("HardMGUCellFXP.reset_parameters", "kernel/rnn.py")], observe=["truncated_normal(t, mean, std)"])

p("C27", "Binary gated recurrent cells compute the gate equations and stay in [-1,1]",
  "For every input, hidden state and weights, the hard cell returns clip(n - f*n + f*h, -1, 1) with f = sigma(clip(Wf[h,x]+bf, -1, 1)) and n = tau(Wn[f*h,x]+bn), sigma and tau being the hard (or, if so configured, the smooth) sigmoid and tanh; a missing hidden state means zeros. "
  "The fixed-point cell evaluates the same equations with fixed-point rounding applied to the inputs, the weights, the biases and every intermediate value. The new hidden state is always within [-1,1], and inputs and hidden state are not modified.",
  ["inputs", "configurations"], "all inputs, hidden states, weights, biases, sizes, rounding widths, hard and smooth variants",
  "test_fsumgu stops with NotImplementedError on the installed PyTorch.", ["kernel/rnn.py"], [("HardMGUCell.forward", "kernel/rnn.py"), ("HardMGUCellFXP.forward", "kernel/rnn.py")], observe=["HardMGUCell(...)(x, h)", "HardMGUCellFXP(...)(x, h)"])

p("C28", "Streaming gated recurrent cells wire the streaming units as the gate equations",
  "Each cycle the streaming cell forms its forget bit as the streaming (x+1)/2 of the non-scaled streaming linear layer over the concatenated hidden and input bits, gates the stored hidden state with it by static multiplication, forms the new-gate bit from the gated hidden and input bits, and outputs the non-scaled three-entry streaming sum of new-gate bit, complemented in-stream product of the forget and new-gate bits, and gated hidden bit. "
  "The hybrid cell runs 2^width such cycles on freshly generated input and hidden streams and returns the decoded bipolar mean of the output bits, which lies in [-1,1]; inputs of the wrong size are rejected.",
  ["inputs", "histories", "configurations"], "all input/hidden bit histories and values, weights, sizes, widths, depths, non-temporal generators",
  "test_fsumgu stops with NotImplementedError on the installed PyTorch before the cells are compared.", ["kernel/rnn.py"], [("FSUMGUCell.forward", "kernel/rnn.py"), ("HUBMGUCell.forward", "kernel/rnn.py")], observe=["FSUMGUCell(...)(bits, bits)", "HUBMGUCell(...)(x, h)"])

p("C29", "Progressive error reports the exact running value and its error",
  "After any n >= 1 monitored cycles the reported progressive value is (ones so far)/n in unipolar mode and 2*(ones so far)/n - 1 in bipolar mode, and the reported error is that value minus the source divided by the scale and clipped to [-1,1]. "
  "Reading the metric does not change it, monitoring does not modify the monitored bits, and every lane is independent.",
  ["inputs", "histories", "configurations"], "all bit histories, sources, scales, modes, shapes",
  NOASSERT, ["metric/metric.py"], [("ProgError.Monitor", "metric/metric.py"), ("ProgError.forward", "metric/metric.py")], [("one_cnt", "ones so far", "metric/metric.py"), ("cycle", "cycles so far", "metric/metric.py")], ["ProgError(...)()"])

p("C30", "Stochastic cross-correlation is counted exactly and lies in [-1,1]",
  "After any history of monitored pairs of bits the metric has counted exactly the occurrences of each of the four bit pairs and the cycles, per lane and for any shape, the second stream being the previous first stream (initially 0) when only one is given. "
  "The reported correlation is the SCC formula of these counts, lies in [-1,1], is +1 for identical and -1 for complementary streams that contain both bit values, and is symmetric in its two streams.",
  ["inputs", "histories"], "all pairs of bit histories, shapes",
  NOASSERT + "Four cycles of one lane.", ["metric/metric.py"], [("Correlation.Monitor", "metric/metric.py"), ("Correlation.forward", "metric/metric.py")], [("paired_*", "pair counts", "metric/metric.py")], ["Correlation()()"])

p("C31", "Stability reports the last cycle outside the error threshold",
  "After any history of n >= 1 monitored cycles, the recorded cycle-to-stable of each lane is the last cycle at which the absolute progressive error exceeded the threshold (0 if none), and the reported stability is 1 - max(1, that cycle)/n. "
  "So stability is within [0, 1-1/n], and a lane that is outside the threshold at the last cycle reports 0.",
  ["inputs", "histories", "configurations"], "all bit histories, sources, thresholds, scales, modes, shapes",
  NOASSERT + "One ten-cycle history is printed.", ["metric/metric.py"], [("Stability.Monitor", "metric/metric.py"), ("Stability.forward", "metric/metric.py")], [("cycle_to_stable", "last unstable cycle", "metric/metric.py")], ["Stability(...)()"])

p("C32", "Components are isolated: no hidden sharing, no change to inputs or configuration",
  "Constructing or stepping any stream, kernel or metric component modifies neither the tensors nor the configuration dictionaries passed to it, nor state shared with other instances: two instances built from the same configuration objects, stepped in any interleaving, produce exactly the outputs each would produce alone. "
  "A bit returned by a component is never changed by a later step.",
  ["inputs", "histories", "schedules", "configurations"], "all components, input histories and interleavings of instances",
  "The tests use one instance at a time and never look at inputs or earlier outputs again.", ["stream/gen.py", "stream/shuffle.py", "kernel/add.py", "kernel/mul.py", "kernel/shiftreg.py", "kernel/jkff.py", "kernel/signabs.py", "kernel/relu.py", "kernel/div.py", "kernel/sqrt.py", "kernel/linear.py", "kernel/conv.py", "kernel/sigmoid.py", "metric/metric.py"],
  [("copied hwcfg/swcfg", "every __init__"), ("clone().detach()", "kernel/shiftreg.py, metric/metric.py")], observe=["constructor arguments, returned tensors"])

p("C33", "Power-of-two scaling offsets cover the data and respect the operand widths",
  "For every input and weight tensor whose larger quantile bound magnitude is nonzero, width pair, rounding mode and quantile in (0,1], the computed shifts are ri = R(log2 of the larger magnitude of the input's two quantile bounds) - input width, likewise rw for the weight, and ro = max(widths) - R(.) - R(.), where R rounds to nearest, down or up as configured. "
  "With rounding up, no value between the quantile bounds exceeds 2^width after dividing by 2^shift; neither tensor is modified.",
  ["inputs", "configurations"], "all tensors with a nonzero larger bound, widths, rounding modes, quantiles",
  "Only reached by tests that fail earlier on the installed PyTorch.", ["kernel/utils.py"], [("rshift_offset", "kernel/utils.py")], observe=["rshift_offset(...)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
