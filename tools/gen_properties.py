"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


C = "continual/"

prop("C01", "Streaming a convolution equals the regular convolution",
     "For every continual 1D/2D/3D convolution (temporal kernel size k, stride s, padding p < k; any spatial kernel, stride, padding and dilation, groups, bias, "
     "padding mode and temporal fill), the outputs of any sequence of single-step and multi-step calls are exactly the outputs of the regular "
     "convolution over the frames seen so far with p fill frames (zeros, or copies of the edge frame) in front: output j is returned by the call that delivers frame j*s+k-1-p, and no other call returns one. "
     "A multi-step call that asks for end padding additionally returns precisely the outputs that p fill frames after the last frame would give, without making these fill frames part of the stream, so a whole clip with end padding gives what `forward` gives. "
     "`forward` itself equals the corresponding torch.nn convolution.",
     ["inputs", "configurations", "histories"],
     "all layer configurations x all interleavings of step / multi-step / end-padded / full-clip calls",
     "The tests run a few fixed kernel/stride/padding combinations with one call pattern each (all steps, or one multi-step call); stride phase, ring-buffer index and lazily created state depend on the whole call history and configuration.",
     [C + "conv.py", C + "module.py"],
     [("partial-sum ring buffer, stride phase", "continual/conv.py:_ConvCoNd._forward_step_py"), ("multi-step loop and end padding", "continual/module.py:CoModule._forward_steps_impl")],
     [("state_buffer,state_index,stride_index", "partial sums of earlier frames, ring position, phase until next output", "continual/conv.py:_ConvCoNd")],
     ["forward", "forward_step", "forward_steps"])

prop("C02", "Streaming a pooling layer equals the regular pooling",
     "For every continual average, max and adaptive pooling layer (1D/2D/3D; temporal kernel, stride, padding, dilation and fill; spatial kernel, stride and padding), the outputs of any sequence of single-step and multi-step calls "
     "are exactly the regular pooling over the frames seen so far with the fill frames in front, each returned by the call that completes its window, and no other call returns one. "
     "End padding adds precisely the windows that reach past the last frame without becoming part of the stream. "
     "With torch.nn's fill (zeros for average, minus infinity for max, also the default) a whole clip with end padding gives what `forward` gives, and `forward` equals the torch.nn layer.",
     ["inputs", "configurations", "histories"],
     "all layer configurations x all interleavings of step / multi-step / end-padded / full-clip calls; average pooling with its default divisor (padding counted), adaptive pooling to one temporal output",
     "Tests use a few configurations, mostly positive random input and windows starting at the ring buffer's origin; wrap-around with dilation, negative inputs with padding and mixed call patterns are not reached.",
     [C + "pooling.py", C + "module.py"],
     [("frame ring buffer, dilated frame selection", "continual/pooling.py:_PoolNd._forward_step"), ("multi-step loop and end padding", "continual/module.py:CoModule._forward_steps_impl")],
     [("state_buffer,state_index,stride_index", "pooled frames, ring position, phase", "continual/pooling.py:_PoolNd")],
     ["forward", "forward_step", "forward_steps"])

prop("C03", "How a stream is cut into calls does not matter",
     "For every continual module and network, feeding a stream one frame at a time, in multi-step chunks of any sizes, or in any mixture of the two returns the same outputs in the same order, "
     "and leaves the module so that everything it returns later is the same. "
     "A chunk that completes no output returns the same kind of placeholder (None) as the steps it stands for.",
     ["histories", "configurations"],
     "all ways to cut a stream into steps and chunks, for every module kind and network shape of the zoo",
     "Tests cut a clip in one or two fixed ways; there are 2^(n-1) ways to cut n frames, and carry-over state differs in each.",
     [C + "module.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "container.py", C + "rnn.py", C + "multihead_attention/mha_base.py", C + "positional_encoding.py", C + "closure.py"],
     [("state read before and written after each call", "continual/module.py:CoModule.forward_step, _forward_steps_impl"), ("children called in the container's mode", "continual/container.py:child_call_mode")],
     observe=["forward_step", "forward_steps"])

prop("C04", "Calls that must not update the state leave no trace",
     "A single-step or multi-step call with update_state=False (with or without end padding, on initialised or fresh modules and networks) returns exactly what the same call would have returned with update_state=True at that point, "
     "and never changes anything that any later call returns. "
     "The same holds for `forward`, except for the documented position shift of the recycling positional encoding.",
     ["histories", "inputs", "configurations"],
     "all positions of look-ahead calls in all call histories, with frames unrelated to the stream, for every module kind and network shape of the zoo",
     "No test interleaves look-ahead calls with different frames into a running stream for more than a single module; aliasing of ring buffers or skipped first-call initialisation only show in later outputs.",
     [C + "module.py", C + "container.py", C + "delay.py", C + "rnn.py", C + "multihead_attention/mha_base.py", C + "positional_encoding.py"],
     [("state cloned when update_state is False", "continual/module.py:_clone_first"), ("flag passed on to children", "continual/container.py")],
     observe=["forward", "forward_step", "forward_steps"])

prop("C05", "Cleaning the state makes a module as good as new",
     "After clean_state, at any point of any call history, a module or network returns for every later call sequence exactly what a freshly built one with the same weights returns; nothing of the earlier stream, of its phase or of its batch size is left. "
     "Cleaning touches no parameter and no persistent buffer, and cleaning twice or cleaning a fresh module changes nothing.",
     ["histories", "configurations"],
     "all points of cleaning in all call histories for every module kind and network shape of the zoo, including a change of batch size afterwards",
     "Tests clean (if at all) once after a full clip; indices, stride phase and nested children are only exposed by cleaning in mid-stream and continuing.",
     [C + "module.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "skip.py", C + "container.py", C + "rnn.py", C + "multihead_attention/", C + "positional_encoding.py"],
     [("clean_state", "every module; containers pass it on to their children")],
     observe=["clean_state", "forward_step", "forward_steps"])

prop("C06", "State can be saved, restored, moved and swapped",
     "Setting a state that was obtained from get_state (and copied) at any point of any history makes the module or network, or another instance with the same weights, continue exactly as from that point, however often and whatever it processed in between. "
     "Therefore several streams can be interleaved over one network by exchanging states in any order (None standing for a clean state), each stream receiving the outputs it would receive alone.",
     ["histories", "schedules", "configurations"],
     "all save / restore points in all call histories and all interleavings of two streams over one instance, for every module kind and network shape of the zoo",
     "The tests contain no save/restore in mid-stream for containers and never interleave streams.",
     [C + "module.py", C + "container.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "skip.py", C + "rnn.py", C + "multihead_attention/", C + "positional_encoding.py"],
     [("get_state/set_state", "every module"), ("containers collect the states of their children", "continual/container.py:ChildStates")],
     observe=["get_state", "set_state", "forward_step", "forward_steps"])

prop("C07", "delay, receptive_field, stride and padding describe what happens",
     "For every convolution, pooling, delay and stateless module and every network built from them: the first output appears after exactly `delay` frames, then one appears every `stride[0]` frames; "
     "changing a frame changes no output outside the `receptive_field` frames ending `padding[0]`-corrected at that output, and, unless delays were inserted explicitly or by consecutive Parallel modules, both the oldest and the newest frame of the window do matter; a full clip of T frames gives floor((T + 2*padding[0] - receptive_field) / stride[0]) + 1 outputs from `forward` (explicit Delay modules, which forward ignores, apart). "
     "warm_up makes a module return an output at the very first frame and from then on continues like a module that has seen `delay` fill frames.",
     ["configurations", "inputs"],
     "all layer configurations and nested compositions up to depth 3; every frame position perturbed; all clip lengths up to twice the receptive field",
     "Tests assert a handful of hand-computed constants; nothing compares them with observed behaviour for strided, padded or dilated compositions.",
     [C + "module.py", C + "conv.py", C + "pooling.py", C + "container.py", C + "delay.py"],
     [("composition rules", "continual/container.py:Sequential.receptive_field/padding/stride, BroadcastReduce, Parallel, Conditional"), ("delay = receptive_field - 1 - padding", "continual/module.py:CoModule.delay"), ("warm_up", "continual/module.py:CoModule.warm_up")],
     observe=["delay", "receptive_field", "stride", "padding", "warm_up", "forward", "forward_step"])

prop("C08", "Composed networks stay aligned in time",
     "For networks nested from Sequential, Residual (all shrink modes), BroadcastReduce and Broadcast/Parallel/Reduce over convolutions, pooling, delays and time-local modules, with branches of different delays and temporal strides, any mixture of step and multi-step calls "
     "returns exactly the outputs of the equivalent regular network, in order, each as soon as all branches have what they need: the i-th output always combines the i-th output of every branch. "
     "`forward` equals the equivalent regular network, and a clip with end padding (zero fill) gives the same result as `forward`.",
     ["programs", "histories", "inputs"],
     "all network trees of the grammar up to depth 3 x interleavings of step / multi-step / end-padded / full-clip calls",
     "Tests hold a few hand-written networks; alignment depends on the combination of delays, strides, shrink modes and nesting, and wrong alignment can hide if branches have equal delays or symmetric kernels.",
     [C + "container.py", C + "delay.py", C + "skip.py"],
     [("automatic delays", "continual/container.py:Parallel, BroadcastReduce, Residual, add_delay"), ("None ends a step early", "continual/container.py:Sequential.forward_step")],
     [("Delay.state_buffer,state_index", "delayed frames", "continual/delay.py:Delay")],
     ["forward", "forward_step", "forward_steps"])

prop("C09", "Streams are routed and reduced as declared",
     "Broadcast gives every branch the same frame; Parallel applies module i to stream i only; ParallelDispatch outputs, for every (nested) mapping of reorderings, copies and groupings, exactly the named input streams; "
     "Reduce and the reducing containers combine exactly their inputs in order by sum, product, maximum, channel concatenation or the given function, and give nothing while a stream has nothing. "
     "This holds equally for forward, forward_step and forward_steps, and no branch sees or changes another branch's data.",
     ["programs", "inputs", "histories"],
     "all dispatch mappings up to 3 streams and nesting depth 2, all reductions, up to 3 branches, all call modes and call sequences",
     "Tests cover the three mappings of the documentation with scalar data.",
     [C + "container.py"],
     [("dispatch", "continual/container.py:ParallelDispatch.forward"), ("reduction functions", "continual/container.py:reduce_sum, reduce_concat, reduce_mul, reduce_max, nonempty")],
     observe=["forward", "forward_step", "forward_steps"])

prop("C10", "Conditional runs exactly the selected module",
     "At every call a Conditional evaluates its predicate once on itself and the call's input and returns what the selected module alone would return at that point of the stream of inputs routed to it (the input itself if there is no such module); the module that was not selected neither runs nor changes. "
     "This holds for all histories of predicate outcomes, in all call modes, with update_state and pad_end honoured; modules of different delay are brought to the same delay.",
     ["histories", "programs"],
     "all sequences of predicate outcomes up to the bound x step / multi-step / look-ahead calls x pairs of stateless and stateful modules",
     "Tests use predicates that stay constant during a stream.",
     [C + "container.py"],
     [("predicate and selection", "continual/container.py:Conditional"), ("delay equalisation", "continual/container.py:Conditional.__init__")],
     observe=["forward", "forward_step", "forward_steps", "clean_state", "get_state"])

prop("C11", "Continual attention equals attention over the sliding window",
     "For sequence length n, from the n-th token on each step of the single-output attention returns the regular multi-head attention output of the configured query position over exactly the last n tokens, and of the retroactive attention the outputs of all n positions; before that they return nothing. "
     "This holds for any number of heads, layouts (batch_first, embed_dim_second), separate key/value inputs and dimensions, with and without bias, for any mixture of steps and chunks and arbitrarily long streams; `forward` equals torch.nn.MultiheadAttention. (Logits of a magnitude at which exponentials neither overflow nor vanish.)",
     ["inputs", "configurations", "histories"],
     "all configurations up to 3 heads and sequence length 5, streams of several window lengths, all mixtures of step and multi-step calls",
     "Tests run one configuration each just past the first window; errors of the incremental normaliser or of the memory roll show up only after the window wraps several times or with particular query positions.",
     [C + "multihead_attention/mha_base.py", C + "multihead_attention/retroactive_mha.py", C + "multihead_attention/single_output_mha.py"],
     [("incremental attention", "continual/multihead_attention/*:_scaled_dot_product_attention_step"), ("stride index until first window", "continual/multihead_attention/mha_base.py:_forward_step")],
     [("d_mem, AV_mem, Q_mem, K_T_mem, V_mem, stride_index", "memories of the last tokens", "continual/multihead_attention/")],
     ["forward", "forward_step", "forward_steps"])

prop("C12", "A continual transformer encoder equals the regular encoder per window",
     "From the n-th token on (n = sequence length), each step of a one- or two-layer continual transformer encoder, built directly or converted from torch.nn.TransformerEncoder (relu or gelu, with or without final norm, any number of heads), returns what the regular encoder computes for the newest token of the last n tokens; before that it returns nothing. Single layers do so for the query position they are configured with, or, if retroactive, for all positions. "
     "This holds for any mixture of step and multi-step calls and after any number of wraps; `forward` equals the regular encoder's result for the tokens it returns.",
     ["inputs", "configurations", "histories"],
     "encoder configurations with 1-2 layers, up to 3 heads, sequence length 2-5; all mixtures of calls over several window lengths",
     "Tests check one configuration right after the first window.",
     [C + "transformer.py", C + "multihead_attention/", C + "container.py", C + "delay.py"],
     [("layer composition", "continual/transformer.py:SingleOutputTransformerEncoderLayer, RetroactiveTransformerEncoderLayer, TransformerEncoder"), ("window of past tokens", "continual/transformer.py:RetroactiveUnity")],
     observe=["forward", "forward_step", "forward_steps"])

prop("C13", "Streaming a recurrent network equals running it over the clip",
     "For RNN, GRU and LSTM with any number of layers, nonlinearity and bias setting, any mixture of step and multi-step calls returns exactly the recurrence's outputs for the frames seen since the state was cleaned or set, one output per frame without delay; an initial hidden state that is set is honoured. "
     "`forward` starts from zeros or the given hidden state, returns what torch.nn returns (transposed), and neither reads nor changes the streaming state.",
     ["inputs", "configurations", "histories"],
     "all cell types x layers 1-3 x bias x nonlinearity x batch sizes; all mixtures of calls, state settings and forward calls",
     "Tests compare one clip cut once.",
     [C + "rnn.py"],
     [("hidden state carried between calls", "continual/rnn.py:RNN/GRU/LSTM._forward_step, forward_steps")],
     [("_hidden_state/_cell_state", "recurrent state", "continual/rnn.py")],
     ["forward", "forward_step", "forward_steps", "get_state", "set_state"])

prop("C14", "The recycling positional encoding cycles in step with the stream",
     "The t-th frame since the state was cleaned (counting from 0) receives embedding t modulo num_embeds, whether it arrives in a step or in a chunk and for any length of stream; look-ahead calls do not advance the position; each `forward` call encodes consecutive positions from the current one and then advances it by forward_update_index_steps. "
     "The static encoding uses the same fixed table in every mode, and the learned one its current weights.",
     ["histories", "configurations"],
     "all num_embeds up to 7, update steps 0-3, learned and static; all call sequences until the position has wrapped several times",
     "The test covers fewer frames than embeddings.",
     [C + "positional_encoding.py"],
     [("position index modulo num_embeds", "continual/positional_encoding.py:RecyclingPositionalEncoding")],
     [("state_index", "position of the next frame", "continual/positional_encoding.py")],
     ["forward", "forward_step", "forward_steps"])

prop("C15", "Calling a module runs the selected mode, and only while selected",
     "Calling a module or network runs forward, forward_step or forward_steps as selected by the innermost co.call_mode context, or outside of any context by the module's own call_mode attribute (forward by default; setting it on a container sets its members), for every way of naming the mode. "
     "Leaving a context, normally or by an exception, restores what was selected before, at any nesting; an explicitly called method always runs its own mode throughout the whole network, whatever context or attribute is active. (Not judged: members of a Conditional called directly, and the method `forward` of naively converted modules, which their call itself uses.) Forward and full backward (pre-)hooks run exactly once per executed module, in order, and see and may replace its inputs, results and gradients.",
     ["programs", "histories", "fault_sequences"],
     "all nestings of contexts up to depth 3, all points at which an exception leaves them, all call-mode attributes and all explicit methods inside them, for leaf modules, containers and naively converted modules",
     "Tests enter a single context and call one module; nesting, exceptions and explicit calls within contexts are not covered.",
     [C + "module.py", C + "container.py", C + "convert.py"],
     [("call_mode context", "continual/module.py:_CallModeContext"), ("dispatch", "continual/module.py:CoModule._call_impl, continual/convert.py:forward_stepping"), ("children follow the executed method", "continual/container.py:child_call_mode")],
     [("call_mode.cur/prev", "mode selected by contexts", "continual/module.py")],
     ["__call__", "co.call_mode", "call_mode"])

prop("C16", "Conversion keeps a module's meaning",
     "co.continual and build_from turn every supported torch.nn module, and nestings of them, into a module whose `forward` returns exactly what the original returned, with equal weights, dtype and training mode, for every combination of the original's constructor arguments that is accepted; unsupported ones are refused rather than converted wrongly. "
     "Converted weights are copies or the very parameters of the original, never reinitialised; converting something already continual returns it unchanged; time-local modules also give the same per frame in forward_step and forward_steps.",
     ["configurations", "programs", "inputs"],
     "all registered module types x their constructor options, nested in Sequential up to depth 2, both training modes, two dtypes",
     "Tests convert one instance of some types with default arguments.",
     [C + "convert.py", C + "conv.py", C + "pooling.py", C + "linear.py", C + "rnn.py", C + "transformer.py", C + "multihead_attention/mha_base.py"],
     [("registry and naive conversion", "continual/convert.py:continual, forward_stepping"), ("build_from", "every module")],
     observe=["co.continual", "build_from", "co.forward_stepping"])

prop("C17", "State dicts hold the weights, all of them and nothing else",
     "The state dict of a continual convolution, pooling, linear, attention or recurrent module has exactly the keys, shapes and values of its torch.nn counterpart, so weights can be exchanged in both directions, and the state dict of no module or network depends on what was streamed. "
     "For containers, saving and loading flattened (by argument or inside co.flat_state_dict, at any nesting of these) is lossless whenever the flattened names are unique, and otherwise falls back to the full names; loading restores the weights exactly and, as the contexts end, also after exceptions, the normal naming applies again.",
     ["programs", "histories", "configurations"],
     "all module kinds, all network trees up to depth 3 with named and unnamed members, all save/load flag combinations, saved and loaded at every point of a stream",
     "Tests flatten two networks once.",
     [C + "utils.py", C + "container.py", C + "conv.py", C + "pooling.py"],
     [("flattening", "continual/utils.py:state_dict, load_state_dict, flat_state_dict"), ("state buffers are not persistent", "register_buffer(..., persistent=False)")],
     observe=["state_dict", "load_state_dict", "co.flat_state_dict"])

prop("C18", "No interference through shared memory",
     "A call never changes its input tensors, and an output once returned never changes afterwards whatever is called later; overwriting the caller's input or output tensors in place after a call does not influence later outputs of a module that keeps state. "
     "Samples of a batch do not influence each other, and two instances never influence each other, whatever the interleaving of their calls.",
     ["histories", "schedules", "inputs"],
     "all interleavings of two instances and all points of overwriting inputs/outputs in call histories of the stateful modules and networks of the zoo; batch entries computed jointly and alone",
     "Tests use a fresh module and fresh tensors and never look at a tensor again after a later call.",
     [C + "conv.py", C + "pooling.py", C + "delay.py", C + "transformer.py", C + "multihead_attention/", C + "module.py"],
     [("frames copied into ring buffers; outputs cloned", "continual/delay.py, continual/conv.py, continual/pooling.py"), ("per-instance buffers", "register_buffer in every module")],
     observe=["forward_step", "forward_steps", "forward"])

prop("C19", "An exported ONNX model streams like the module",
     "A module or network of temporal stride 1 exported with co.onnx.export (in any initialised state, at any batch size, with or without given names) and run step by step with its state outputs fed back as state inputs returns at every step of every stream and for every batch size the same output as forward_step of the original. "
     "The batch dimension is declared dynamic in inputs and outputs. The exported state inputs and outputs correspond one to one, in the order of the module's state, so that the module's _forward_step and the graph can take turns; exporting changes nothing about the module.",
     ["configurations", "histories"],
     "convolutions, pooling, delays, recurrent and attention modules and small networks; exports at and runs from every phase of the state buffers; three batch sizes; all ways of taking turns",
     "Tests compare a step or two per module at the batch size of the export.",
     [C + "onnx.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "container.py", C + "multihead_attention/"],
     [("state flattening", "continual/onnx.py:OnnxWrapper, _shape_list"), ("functional step", "_forward_step of every module")],
     observe=["co.onnx.export"])

prop("C20", "Gradients through forward and through streaming are those of the regular network",
     "Backpropagating through what a module returned gives, for every input frame and every parameter, the derivative of the corresponding regular network's outputs: "
     "for forward over a clip (freshly built, repeatedly, or after streaming), and in training mode for the outputs of a stream fed by forward_step and forward_steps, however the stream is cut into calls, also after clean_state, "
     "and with calls in between that do not update the state. Streaming through max pooling is excepted (torch refuses it, the buffer being updated in place).",
     ["histories", "inputs"],
     "modules and networks of the zoo; all cuts of a stream into calls; every frame and parameter",
     "The existing tests compare output values only; a detached, re-created or shared tensor leaves the values as they are.",
     [C + "conv.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "container.py", C + "linear.py", C + "transformer.py", C + "multihead_attention/", C + "module.py"],
     [("buffers are cloned while training", "continual/conv.py:_forward_step"), ("state kept between calls", "_forward_step, _forward_steps of every module")],
     observe=["forward", "forward_step", "forward_steps", "torch.Tensor.backward"])

prop("C21", "Modules without memory apply one function to every frame",
     "Lambda, Add, Multiply, Constant, Zero, One, Identity, Linear, Reshape and modules converted naively or wrapped with forward_stepping return for every frame the same result "
     "whether it is passed to forward_step or is part of a clip of any length passed to forward_steps or forward, and whatever was called before: alone, in Sequential and in BroadcastReduce; "
     "they keep no memory, have delay 0 and receptive_field 1 and do not change their input. "
     "Functions given to Lambda for one call mode are used in that mode only; takes_time decides whether the function sees the time dimension; constants broadcast against the clip; all sizes may be 1.",
     ["configurations", "histories", "inputs"],
     "all admissible constructor forms; frames of ranks 2-4 with sizes from 1; every operation in every reachable state of the module",
     "Tests run a few constructors on one shape; sizes of one, tensor constants and mode-specific functions are not combined.",
     [C + "closure.py", C + "linear.py", C + "shape.py", C + "convert.py", C + "container.py"],
     [("per-mode functions", "continual/closure.py:Lambda"), ("naive stepping", "continual/convert.py:forward_stepping"), ("frame-wise reshape", "continual/shape.py:Reshape"), ("channel dimension", "continual/linear.py:Linear")],
     observe=["forward", "forward_step", "forward_steps"])

prop("C22", "Only the values of the input matter, not its layout, class or gradient mode",
     "Results of forward_step, forward_steps and forward, now and later in the stream, depend only on the values of the inputs: "
     "an input that is not contiguous, a view at an offset into a larger tensor, expanded over the batch, an nn.Parameter or an instance of a Tensor subclass, "
     "a leaf that requires gradients, or passed with gradients enabled or in inference mode gives what a plain tensor of the same values gives. "
     "The same holds for every mixture within a stream that PyTorch itself admits "
     "(inference tensors are not mixed with others, subclasses not with recorded gradients).",
     ["configurations", "histories", "inputs"],
     "all modules and networks of the zoo; every operation at every point of a stream with every layout",
     "Tests pass freshly created contiguous tensors without gradients.",
     [C + "module.py", C + "container.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "linear.py", C + "shape.py", C + "closure.py", C + "multihead_attention/"],
     [("buffers written from inputs", "_forward_step of conv, pooling, delay"), ("dispatch on the type of the input", "continual/container.py:Sequential.forward_steps"), ("reshaping", "continual/shape.py:Reshape")],
     observe=["forward", "forward_step", "forward_steps"])

prop("C23", "Copies, casts, new weights and mode switches keep a module's meaning",
     "At any point of a stream, a deep copy of a module or network continues exactly as the original would, and whatever is done to one of the two "
     "(calls, cleaning, other weights, casts) has no influence on the other. Casting a module to another dtype gives, from the next stream on, what a module of that dtype gives, "
     "and a running stream continues in the new dtype (recurrent layers, whose state is not a buffer, excepted). "
     "Replacing the weights between streams (in place, by .data, load_state_dict or an optimizer) gives what a freshly built module with the new weights gives. "
     "Switching between train() and eval() (without dropout and batch normalisation), reading attributes, parameters, state dicts or repr, zero_grad, requires_grad_ and apply change nothing.",
     ["configurations", "histories"],
     "all modules and networks of the zoo; every transformation at every point of a stream",
     "Tests build a module and use it; hardly any is copied, cast or given new weights after use.",
     [C + "convert.py", C + "module.py", C + "container.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "linear.py", C + "closure.py", C + "positional_encoding.py", C + "transformer.py", C + "multihead_attention/"],
     [("functions bound to a module", "continual/convert.py:forward_stepping"), ("state buffers", "register_buffer in conv, pooling, delay, attention"), ("state renewed", "clean_state, init_state of every module")],
     observe=["copy.deepcopy", "torch.nn.Module.to", "load_state_dict", "forward", "forward_step", "forward_steps"])

prop("C24", "A module compiled to TorchScript computes what the module computes",
     "A continual convolution (with its call_mode set) compiled with torch.jit.script gives in forward and in the state-in-state-out step function, in training and evaluation mode, "
     "saved and loaded or not, the same outputs and the same states as the module itself: any step of a stream may be taken by the compiled function or by the module, each continuing from the state "
     "the other has returned. It follows weights that are overwritten in place. The forward of any module or network traced by torch.jit.trace after any history gives the module's forward for other values of the "
     "same shape; tracing changes no state, and later calls of the module do not change the trace.",
     ["configurations", "histories"],
     "all geometries and options of convolutions for scripting; all modules and networks of the zoo except those with a recycling positional encoding for tracing; hand-over of the state at every step",
     "Tests script one convolution and compare one step.",
     [C + "conv.py", C + "module.py", C + "container.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "linear.py", C + "closure.py", C + "transformer.py", C + "multihead_attention/"],
     [("state-in-state-out step, compiled", "continual/conv.py:_ConvCoNd._forward_step"), ("initial state", "continual/conv.py:_ConvCoNd.init_state"), ("call while tracing", "continual/module.py:CoModule._call_impl")],
     observe=["torch.jit.script", "torch.jit.trace", "_forward_step", "forward"])

prop("C25", "An edited Sequential is the network of its members",
     "A co.Sequential that has been edited with append, extend, add_module, +=, insert, item assignment, deletion of items or slices, pop or slicing (also a Sequential within it), before or while streaming, "
     "is the network of its current members in their order: every step and chunk passes through them, a new member beginning its own stream and the others continuing theirs; forward, delay, receptive_field, stride, padding, "
     "the names and the state dict are those of a network built directly from these members, and the state can be taken over by such a network. torch.nn modules and Python functions are converted by append, extend and add_module. "
     "The methods return what those of torch.nn.Sequential return; the names are those torch.nn.Sequential gives.",
     ["configurations", "histories"],
     "Sequential networks that are empty, flat, named or nested; members: convolutions, pooling, delays, functions, residuals, inner Sequentials, torch.nn modules and functions",
     "Tests build networks by the constructor; hardly any network is edited, and none after streaming.",
     [C + "container.py", C + "module.py", C + "convert.py"],
     [("editing", "continual/container.py:Sequential.add_module, append, co_add_module"), ("derived attributes", "continual/container.py:Sequential.receptive_field, stride, padding"), ("state per member", "continual/container.py:ChildStates")],
     observe=["torch.nn.Sequential methods", "forward", "forward_step", "forward_steps", "get_state", "set_state"])

prop("C26", "Modules written against the CoModule interface stream like the library's own",
     "A user module that derives from CoModule and torch.nn.Module, declares receptive_field, stride and padding (as class attributes, instance attributes or properties) and implements forward, _forward_step and get_state, set_state, clean_state "
     "(or overrides forward_step and forward_steps) gets from the base class steps, chunks, end padding with zero frames, calls that do not update the state, and delay; in Sequential, BroadcastReduce, Parallel, Residual and Conditional "
     "it is aligned in time with the other members, and its state is saved, restored and cleaned with the network's. The state is a tuple whose first element may be written in place; the other elements may be of any type. "
     "Modules without a state need only forward and _forward_step.",
     ["configurations", "histories"],
     "user modules with every form of state and of attributes, alone and as members of all containers",
     "Tests use the library's own modules only.",
     [C + "module.py", C + "container.py"],
     [("calls from one step function", "continual/module.py:CoModule.forward_step, _forward_steps_impl"), ("defaults and validation", "continual/module.py:CoModule"), ("alignment from declared attributes", "continual/container.py:BroadcastReduce, Parallel, Residual, Sequential")],
     observe=["forward", "forward_step", "forward_steps", "get_state", "set_state", "clean_state", "delay"])

prop("C27", "A stream of any length takes bounded memory and bounded work per frame",
     "Without recorded gradients, what a module holds on to between calls (the storages of all its tensors and the entries of its containers) after any history of steps, chunks, end padding, look-aheads, forward calls and clean_state is never more than after the steps "
     "of its first two windows: it grows neither with the length of the stream nor with that of a chunk (a state that is a small view of a whole chunk's outputs holds the chunk). The process as a whole gains no tensors and no objects from frame to frame. "
     "The work of a call (elements read and written by all operations executed) is that of the same call in the first windows: it does not depend on the position in the stream, is affine in the length of a chunk, "
     "and for steps of continual attention affine in the length of the window and in its product with the dimension (never quadratic in the window).",
     ["histories", "inputs", "configurations"],
     "endless streams, long chunks",
     "Tests stream a few windows and look at outputs only; values do not show what is held or recomputed.",
     [C + "module.py", C + "conv.py", C + "pooling.py", C + "delay.py", C + "rnn.py", C + "container.py", C + "positional_encoding.py", C + "multihead_attention/*.py", C + "transformer.py"],
     [("chunks step by step", "continual/module.py:CoModule._forward_steps_impl"), ("ring buffers", "continual/conv.py, pooling.py, delay.py"), ("rolled memories", "continual/multihead_attention/*.py:_scaled_dot_product_attention_step")],
     observe=["forward_step", "forward_steps", "tensor storages", "executed operations"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
