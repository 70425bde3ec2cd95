#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["continual/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="continual/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="continual/" + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
CONVST = [("state_buffer", "ring of partial results of the last kernel-1 frames", "conv.py _ConvCoNd.init_state"),
          ("state_index", "position in the ring", "conv.py _ConvCoNd._forward_step_py"),
          ("stride_index", "phase within start-up and temporal stride", "conv.py _ConvCoNd._forward_step_py")]
p("C01", "Streaming a convolution gives exactly the convolution of the clip",
  "For every continual convolution (1d, 2d, 3d; any temporal kernel size, stride and padding, spatial parameters, groups, bias, padding mode and temporal fill, train or eval), feeding a stream frame by frame from a clean state yields, as its non-empty outputs in order, the beginning of what the regular torch.nn convolution gives for the frames fed so far, and the continual module's own whole-clip forward equals the regular convolution. "
  "This holds for streams of any length.",
  ["inputs", "histories", "configurations"], "all inputs, all stream lengths, all supported convolution configurations",
  "Tests compare a handful of 3-to-10-frame clips for a few configurations; ring wrap-around, strides with padding, kernel 1 and long streams are reached for almost none of them.",
  ["conv.py", "module.py"], [("ring of partial sums", "conv.py _ConvCoNd._forward_step_py"), ("start-up phase", "conv.py _ConvCoNd.init_state"), ("whole-clip forward", "conv.py _ConvCoNd.forward")], CONVST,
  ["forward_step / forward_steps / forward return values"])
p("C02", "Streaming a pooling layer gives exactly the pooling of the clip",
  "For every continual average and max pooling (1d, 2d, 3d; any temporal kernel size, stride, padding and, for max pooling, dilation, with any spatial parameters), frame-by-frame outputs are in order the beginning of what the regular torch.nn pooling gives for the frames fed so far; an adaptive pooling yields from its full window onwards the regular adaptive pooling of the latest window of frames. "
  "The continual module's own whole-clip forward equals the regular pooling.",
  ["inputs", "histories", "configurations"], "all inputs, stream lengths and pooling configurations in which torch.nn defines the same operation",
  "Tests use few kernel/stride/padding/dilation combinations on positive short clips, so a wrong fill value, ring length or window selection goes unseen.",
  ["pooling.py", "module.py"], [("ring of spatially pooled frames", "pooling.py _PoolNd._forward_step"), ("fill and start-up phase", "pooling.py _PoolNd.init_state"), ("per-class spatial pooling", "pooling.py AvgPool1d ... AdaptiveMaxPool3d")],
  [("state_buffer/state_index/stride_index", "ring of frames, position, phase", "pooling.py _PoolNd")], ["forward_step / forward_steps / forward return values"])
p("C03", "How a stream is cut into calls does not matter",
  "For every module and every composition of modules, the concatenated outputs of a stream are the same however the stream is cut into consecutive single-step calls and multi-step calls of any lengths, and the stream continues identically afterwards. "
  "A call for which no output is due returns nothing rather than a placeholder of another shape.",
  ["schedules", "inputs", "configurations"], "all ways of cutting every stream into single-step and multi-step calls, for all networks",
  "Tests use one or two fixed cuts (all but the last frame, then one step); interleavings of single and multi-step calls across ring and stride boundaries are not sampled.",
  ["module.py", "container.py", "conv.py", "pooling.py", "delay.py", "rnn.py", "multihead_attention/mha_base.py"],
  [("multi-step loop threads state", "module.py CoModule._forward_steps_impl"), ("container loops", "container.py Sequential.forward_steps, BroadcastReduce.forward_steps"), ("attention loop", "multihead_attention/mha_base.py MultiheadAttentionBase.forward_steps")])
p("C04", "End padding completes the clip and leaves no trace",
  "A multi-step call that asks for end padding from a clean state returns exactly what the whole-clip forward returns, and in the middle of a stream it returns what forward over the whole history plus the chunk would add at the end. "
  "The frames made up for the padding never influence later outputs: after such a call the stream continues exactly as if end padding had not been requested, whether or not the call itself updates the state.",
  ["histories", "inputs", "configurations"], "all histories before and after the padded call, chunk lengths, and networks with matching end padding across parallel branches",
  "Tests check padded whole clips for a few layers and hardly ever continue a stream after a padded call, mid-stream or inside compositions.",
  ["module.py", "container.py", "delay.py"], [("padding after the state was stored, on a copy", "module.py CoModule._forward_steps_impl"), ("containers", "container.py Sequential.forward_steps"), ("delay end padding", "delay.py Delay.forward_steps")])
p("C05", "A call that must not update the state is a pure peek",
  "A single-step or multi-step call made with state updates turned off returns exactly what the same call would have returned with updates on, and nothing that happens later in the stream depends on whether, how often or with which inputs such peeks were made. "
  "A whole-clip forward likewise neither reads nor disturbs a stream in progress (except that recycling positional encoding advances its position by the configured amount).",
  ["schedules", "inputs", "configurations"], "all positions in a stream, including before the first frame; all peeked inputs and chunk lengths; all modules and compositions",
  "State tensors are updated in place on several paths; tests peek once at one position in a few modules.",
  ["module.py", "container.py", "multihead_attention/mha_base.py", "rnn.py", "positional_encoding.py"],
  [("state copied before a peek", "module.py _clone_first, CoModule.forward_step, _forward_steps_impl"), ("backup and restore", "multihead_attention/mha_base.py MultiheadAttentionBase.forward_step(s)")])
p("C06", "Declared delay, stride, padding and receptive field tell the truth",
  "For modules and compositions made of convolutions, pooling, delays, recurrent and time-local layers: the first output appears after exactly as many further inputs as the declared delay says and then every stride-th input, and an output depends on no input older than the declared receptive field. "
  "The declared padding is the number of frames that end padding adds, so that receptive field, padding and delay agree with each other and with the length of the whole-clip forward.",
  ["configurations", "histories"], "all module configurations and nestings; streams of any length",
  "Tests assert the attribute values of some hand-built networks, not that emission and dependence actually follow them for all nestings and strides.",
  ["module.py", "container.py", "conv.py", "pooling.py", "delay.py", "skip.py"],
  [("composition of receptive field, stride, padding", "container.py Sequential.receptive_field/stride/padding"), ("parallel maxima", "container.py Parallel, BroadcastReduce, Conditional"), ("delay from receptive field", "module.py CoModule.delay")])
p("C07", "Cleaning the state makes a module as good as new",
  "After cleaning its state, a module or composition behaves for every later sequence of calls exactly like a freshly built one with the same weights, whatever was fed before and at whatever point of a stride or start-up phase the cleaning happened. "
  "Cleaning reaches every stateful part of every container and changes no weights.",
  ["histories", "configurations"], "all histories before cleaning and all call sequences after, for all modules and compositions",
  "Tests clean after one full stream in a few modules; phases, peeks, partial fills and deep nestings are not covered.",
  ["conv.py", "pooling.py", "delay.py", "skip.py", "rnn.py", "container.py", "positional_encoding.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py"],
  [("clean_state of every module", "container.py Sequential/Parallel/BroadcastReduce/Conditional.clean_state"), ("leaf resets", "conv.py, pooling.py, delay.py, rnn.py clean_state")])
p("C08", "A sequential network streams like its composition",
  "Feeding a stream into a sequential container, however deeply nested and with whatever strides, delays and paddings inside, yields in order the beginning of what the container's whole-clip forward gives, which itself equals the corresponding torch.nn composition. "
  "Modules downstream of one that produced nothing are neither called nor advanced.",
  ["inputs", "histories", "configurations"], "all sequential compositions and nestings of streaming modules, all stream lengths",
  "The composition space is unbounded; tests hold a dozen fixed networks.",
  ["container.py"], [("chaining and stopping on no output", "container.py Sequential.forward_step/forward_steps/_forward_step")])
p("C09", "Parallel branches stay aligned in time and routed correctly",
  "When one stream is broadcast to parallel branches and reduced, every emitted output combines branch outputs that belong to the same output position, also when the branches differ in delay, temporal stride phase or depth, and equals the same combination computed by whole-clip forward; residual connections add the frame forward would add. "
  "Dispatching reorders, copies and groups streams by exactly the given mapping, and the chosen reduction is applied to all streams in order.",
  ["inputs", "histories", "configurations"], "all sets of branches, reductions, dispatch mappings, residual kinds and stream lengths",
  "Tests check a few two- and three-branch networks; mixtures of delay, stride and padding, None streams and residual shrink kinds are mostly untested.",
  ["container.py", "delay.py", "skip.py"], [("automatic delay", "container.py add_delay, Parallel.__init__, BroadcastReduce.__init__"), ("residual", "container.py Residual"), ("reductions and dispatch", "container.py reduce_*, nonempty, ParallelDispatch, Reduce")])
p("C10", "Conditional execution runs exactly the chosen branch",
  "At every call a conditional container evaluates its predicate on that call's input and runs only the selected branch, handing it the call's options; with no alternative branch the input passes through unchanged. "
  "The branch that was not selected keeps its state untouched, so each branch behaves as if it alone had been fed the frames routed to it.",
  ["schedules", "inputs", "configurations"], "all sequences of predicate outcomes, call kinds and options; branches of equal and different delay; nested in other containers",
  "Tests flip the predicate once or twice and mostly with stateless branches.",
  ["container.py"], [("selection", "container.py Conditional._select, forward, forward_step, forward_steps, _forward_step")])
p("C11", "A delay line hands back every frame, once, in order, on time",
  "A delay of n returns for every input the input of n steps earlier, and nothing for the first n; skipping drops exactly the first n frames and passes the rest. "
  "Shrinking delays leave out exactly the frames their whole-clip forward leaves out (both ends when centred, the last n when lagging), for streams of any length.",
  ["histories", "inputs", "configurations"], "all delays, shrink modes, stream lengths and call patterns",
  "Tests exercise few delays for little longer than the buffer.",
  ["delay.py", "skip.py"], [("ring and index", "delay.py Delay._forward_step, init_state"), ("skip counter", "skip.py Skip._forward_step")],
  [("state_buffer/state_index", "ring and (negative while filling) position", "delay.py")])
p("C12", "Recurrent layers stream like their torch.nn counterparts",
  "For continual RNN, GRU and LSTM (any number of layers, bias setting and nonlinearity), frame-by-frame and chunked outputs equal the torch.nn outputs over the whole stream with the same weights, starting from zeros or from a hidden state that was set, and the hidden state exposed afterwards equals the final hidden state of torch.nn. "
  "The whole-clip forward returns torch.nn's output and hidden state in the library's channel-second layout and ignores the stream's state.",
  ["inputs", "histories", "configurations"], "all recurrent configurations, inputs, initial hidden states, cuts of the stream",
  "Tests use one configuration per class and one cut.",
  ["rnn.py"], [("hidden state threading", "rnn.py RNN/GRU/LSTM._forward_step, forward_steps")], [("_hidden_state", "current hidden (and cell) state", "rnn.py")])
p("C13", "Single-output attention equals regular attention over the sliding window",
  "Once sequence-length tokens were seen, each step of continual single-output attention returns the regular multi-head attention output, for the configured query position, over exactly the last sequence-length tokens (and nothing before), in every supported layout, for self-attention as well as for separately given keys and values, with any number of heads. "
  "The whole-clip forward equals regular attention, restricted to that query if so configured.",
  ["inputs", "histories", "configurations"], "all sequence lengths, query positions, head counts, layouts, streams of any length",
  "Tests cover the default query position and one layout for one step beyond the window.",
  ["multihead_attention/single_output_mha.py", "multihead_attention/mha_base.py"],
  [("query, key and value memories", "multihead_attention/single_output_mha.py _scaled_dot_product_attention_step"), ("start-up count", "multihead_attention/mha_base.py MultiheadAttentionBase._forward_step")])
p("C14", "Retroactive attention stays equal to full attention for ever",
  "Once sequence-length tokens were seen, each step of continual retroactive attention returns the regular multi-head attention output of all queries over exactly the last sequence-length tokens, in every supported layout, no matter how long the stream has been running; tokens that left the window have no influence. ",
  ["inputs", "histories", "configurations"], "all sequence lengths, head counts, layouts; streams of unbounded length",
  "The update adds the newest and subtracts the oldest contributions; tests check the first full window and at most a step after it.",
  ["multihead_attention/retroactive_mha.py", "multihead_attention/mha_base.py"],
  [("incremental update", "multihead_attention/retroactive_mha.py _scaled_dot_product_attention_step")])
p("C15", "Transformer encoders stream like torch.nn encoders over the sliding window",
  "A continual encoder layer or encoder stack of any depth and activation, given as a function or by name (built directly or converted from torch.nn), once its sequence length is filled, returns at every step what the torch.nn encoder with the same weights and activation returns over the last sequence-length tokens: the selected token for single-output layers and stacks, all tokens for retroactive layers. "
  "The whole-clip forward of the stack equals the torch.nn encoder on the clip, restricted to the selected token where the stack says so.",
  ["inputs", "histories", "configurations"], "all depths, head counts, activations, norms, sequence lengths, query positions, stream lengths",
  "Tests cover one and two layers with relu for the first full window.",
  ["transformer.py", "convert.py"], [("layer composition", "transformer.py SingleOutputTransformerEncoderLayer, RetroactiveTransformerEncoderLayer"), ("stack and conversion", "transformer.py TransformerEncoder"), ("aligned residuals", "transformer.py RetroactiveUnity, SelectOrDelay")])
p("C16", "Positional encodings advance one position per frame and wrap around",
  "Recycling positional encoding adds to the t-th frame of a stream the encoding of position t modulo the number of encodings, whatever mix of single and multi-step calls delivered the frames; peeks do not advance it, cleaning restarts it at zero, and a whole-clip forward encodes consecutive positions from the current one and advances it by exactly the configured amount. ",
  ["schedules", "inputs", "configurations"], "all call sequences, numbers of encodings, chunk lengths up to that number, learned or static",
  "Tests make a few calls without wrapping through all entry points.",
  ["positional_encoding.py"], [("position index", "positional_encoding.py RecyclingPositionalEncoding")], [("state_index", "current position", "positional_encoding.py")])
p("C17", "The call mode in force decides what a call runs, and is always restored",
  "Calling a module runs whole-clip, multi-step or single-step processing according to the innermost active call-mode context, else the module's own mode, for containers and all modules inside them (including converted plain ones); a method called explicitly on a container uses its own mode throughout regardless of context. "
  "Hooks of a module that is called run exactly once around what it runs, in every mode, and what they return replaces the input or the output (also an absent one); hooks of gradients run once for every differentiation through the call, and what they return replaces the gradient. "
  "Contexts nest to any depth, may be left by exceptions, and afterwards every mode is exactly what it was before; an unknown mode is refused and changes nothing.",
  ["histories", "configurations", "fault_sequences"], "all nestings of contexts, module modes, explicit calls and exceptions, over all container structures",
  "Tests use one context level and no failures inside a context.",
  ["module.py", "container.py", "convert.py", "utils.py"], [("context stack", "module.py _CallModeContext"), ("dispatch", "module.py CoModule._call_impl"), ("child modes", "container.py child_call_mode; utils.py temporary_parameter"), ("plain modules", "convert.py forward_stepping")],
  [("cur/prev/outer", "modes of the active contexts", "module.py _CallModeContext"), ("_call_mode", "a module's own mode", "module.py CoModule.call_mode")])
p("C18", "Explicit-state stepping and ONNX export compute the same stream",
  "Stepping a network functionally, with its state passed in and returned explicitly, gives the same outputs as stepping it with internal state, never reads or writes the internal state of any part, and returns as many state tensors, nested in the same way, as the network declares. "
  "The exported ONNX model, fed its own returned states, reproduces the stream of the original network.",
  ["histories", "inputs", "configurations"], "all networks and stream lengths; for the export, networks with temporal stride 1 at full state",
  "Tests export a few networks and run one step of them.",
  ["module.py", "container.py", "onnx.py", "conv.py", "pooling.py", "rnn.py"], [("functional step", "container.py Sequential/BroadcastReduce/Parallel/Conditional._forward_step"), ("declared state structure", "module.py _state_shape; container.py _state_shape"), ("wrapper", "onnx.py OnnxWrapper, export")])
p("C19", "A saved state can be restored to resume the stream exactly",
  "For every module that exposes its stream state, a copy of the state taken at any point and set later, on the same module or on another one with the same weights, makes the stream continue exactly as from that point, whatever was fed in between. "
  "Before the first input no state is exposed that could be mistaken for a filled one.",
  ["histories", "inputs", "configurations"], "all save and restore points, all histories between, all modules exposing state",
  "Tests rarely call the state accessors at all.",
  ["conv.py", "pooling.py", "delay.py", "skip.py", "rnn.py", "positional_encoding.py", "multihead_attention/single_output_mha.py", "multihead_attention/retroactive_mha.py"],
  [("get_state/set_state", "module.py CoModule.get_state, set_state and overrides")])
p("C20", "Converting a torch.nn network preserves its function and settings",
  "Converting any supported torch.nn module or nesting of modules yields a network whose whole-clip forward equals the original on every input and whose streaming follows it, with weights copied (not shared with the original's for converted layers), settings such as stride, padding mode, ceil mode, dilation, bias, data type and training mode carried over, and child names kept. "
  "Converting an already continual module gives the module itself, and unsupported modules are refused instead of silently mistranslated.",
  ["inputs", "configurations"], "all supported layer types, settings and nestings",
  "Each layer has many settings and tests convert one or two instances of each.",
  ["convert.py", "conv.py", "pooling.py", "rnn.py", "linear.py", "container.py", "transformer.py", "multihead_attention/mha_base.py"],
  [("registry", "convert.py continual, register"), ("builders", "conv.py, pooling.py, rnn.py, linear.py, container.py build_from")])
p("C21", "State dicts round-trip and never contain stream state",
  "Flattened saving drops exactly the purely numeric name parts, for any nesting of flattening requests, keeps every weight exactly once (or keeps the unflattened names when flattening would merge two), and loading such a dict into an equally structured network restores exactly the same weights; the flattening request ends with its context even on errors. "
  "Stream state never appears in a state dict, and loading a state dict does not disturb a running stream.",
  ["configurations", "histories", "fault_sequences"], "all container structures, names (numeric and not), collisions, nestings of contexts",
  "Tests cover two small networks and no nested contexts or collisions.",
  ["utils.py", "container.py"], [("flattening", "utils.py state_dict, load_state_dict, _FlatStateDict"), ("container hooks", "container.py FlattenableStateDict")])
p("C22", "Streams do not leak between batch entries, instances or copies",
  "In evaluation mode every batch entry's output stream depends only on that entry's inputs and equals what it would be if streamed alone, for all modules and compositions. "
  "Two instances never share stream state, and a deep copy taken mid-stream continues exactly like the original while neither affects the other afterwards, including the weights they use.",
  ["inputs", "histories", "configurations"], "all networks, interleavings of two instances or copies, batch sizes",
  "Tests hardly vary the batch, run one instance at a time and do not copy modules mid-stream.",
  ["module.py", "conv.py", "pooling.py", "convert.py", "container.py", "multihead_attention/mha_base.py"],
  [("per-instance state", "conv.py register_buffer; convert.py forward_stepping bound methods"), ("batch in all state layouts", "pooling.py pooling_with_*_reshape; multihead_attention/*")])
p("C23", "Time-local modules act on each frame alone, the same in all modes",
  "Linear layers over any axis but time, function wrappers, arithmetic helpers, reshaping of the non-temporal dimensions, and plain activations, normalisations (in evaluation mode) and dropout (in evaluation mode), and pooling, convolution or resampling over space alone made streamable give for each frame in single-step and multi-step calls exactly the corresponding frame of the whole-clip forward, without delay and without state; mode-specific functions of a wrapper run in exactly their mode. "
  "Marking a module as streamable twice is harmless.",
  ["inputs", "configurations"], "all listed module types and channel dimensions, all inputs and chunk lengths",
  "Tests cover a few activations and shapes.",
  ["linear.py", "closure.py", "convert.py", "shape.py"], [("frame-wise application", "convert.py forward_stepping"), ("wrappers", "closure.py Lambda, Add, Multiply, ..."), ("channel handling", "linear.py Linear.forward")])
p("C24", "Warming up ends the start-up phase",
  "After warming up a clean network with a step shape, the very next step produces an output (as soon as its stride allows), and the network is in the state it would have after as many padding frames as its delay. ",
  ["configurations"], "networks of convolutions, pooling and delays with positive delay and stride 1 or more, single precision",
  "Tests warm up one network.",
  ["module.py"], [("warm up", "module.py CoModule.warm_up")])
p("C25", "Rounding errors do not accumulate over unbounded streams",
  "The numerical difference between streamed outputs and the whole-clip forward stays within a fixed multiple of machine precision for streams of any length, also for modules which update sums incrementally.",
  ["inputs", "histories"], "all inputs and unbounded streams",
  "No test runs long streams in single precision.",
  ["multihead_attention/retroactive_mha.py"], [("incremental sums", "multihead_attention/retroactive_mha.py _scaled_dot_product_attention_step")])
p("C26", "Reported operation counts are those of the mode that runs",
  "The reported numbers of floating point operations and parameters equal what the active call mode actually executes for the given input.",
  ["configurations"], "all networks and modes",
  "Tests pin a few totals.",
  ["ptflops.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py"], [("counting hooks", "ptflops.py"), ("attention counts", "multihead_attention/*.py flops")])
p("C27", "Calls do not interfere through memory",
  "A call changes neither the tensors it is given nor any result returned earlier, and its result depends only on the values it is given and was given before, not on what happens to their memory: the caller may afterwards overwrite or reuse the memory of inputs and of results, feed the same memory again with other values, feed views, slices of larger tensors or earlier results, in any mode, with and without gradients, without any effect on later outputs. "
  "Streaming, cleaning and peeking never change the weights.",
  ["inputs", "histories", "configurations"], "all modules and compositions, all orders of calls, overwriting and reuse of memory",
  "Tests make fresh inputs for every call and compare results at once.",
  ["module.py", "conv.py", "pooling.py", "delay.py", "closure.py", "container.py", "rnn.py", "positional_encoding.py", "transformer.py", "multihead_attention/mha_base.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py"],
  [("state buffers", "conv.py, pooling.py, delay.py, transformer.py _forward_step; multihead_attention/* state updates"), ("results", "closure.py, positional_encoding.py, rnn.py forward_step(s)")])
p("C28", "Networks train on clips and on streams, and stream with the weights they have",
  "The whole-clip forward is differentiable with respect to its input and every weight, with the derivatives of the function it computes, also while a stream is in progress, in training and in evaluation mode; in training mode the outputs of a stream, taken in steps or chunks, are likewise differentiable with respect to all its frames and weights. "
  "Every weight is trainable, and weights that were changed in place, replaced, optimised or loaded take effect in all modes for the streams that start afterwards.",
  ["inputs", "histories", "configurations"], "all modules and compositions whose whole-clip forward is that of torch.nn, all inputs, weights and moments of a stream",
  "No test computes a gradient, and none changes weights between streams.",
  ["conv.py", "pooling.py", "rnn.py", "linear.py", "closure.py", "container.py", "positional_encoding.py", "transformer.py", "convert.py", "multihead_attention/mha_base.py"],
  [("whole-clip forward", "*.forward"), ("streams in training mode", "conv.py, pooling.py, delay.py, rnn.py _forward_step"), ("weights used in steps", "conv.py _forward_step; rnn.py; multihead_attention/* _forward_step")])
p("C29", "A call that is refused leaves the stream as it was",
  "When a step, multi-step or whole-clip call to a module fails because the module cannot process its input (another number of channels, frame size, batch size, rank or data type than the stream's, or mismatched keys and values), the state of the stream, its position, and the weights stay exactly as they were: every later call returns what it would have returned had the failed call never been made. "
  "The same holds for a sequence, or a chosen branch, whose first module refuses the input.",
  ["inputs", "histories", "configurations"], "all modules, all moments of a stream, all kinds of refused input and ways of calling",
  "The tests that provoke errors never go on with the stream afterwards.",
  ["conv.py", "pooling.py", "delay.py", "rnn.py", "linear.py", "positional_encoding.py", "container.py", "shape.py", "multihead_attention/mha_base.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py"],
  [("steps", "*.forward_step, *._forward_step"), ("chunks", "*.forward_steps"), ("whole clips", "*.forward")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        if not x["anchors"]["state"]: del x["anchors"]["state"]
        if not x["anchors"]["observe_at"]: del x["anchors"]["observe_at"]
        f.write(json.dumps(x) + "\n")
