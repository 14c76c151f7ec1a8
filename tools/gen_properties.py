#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

Q = "include/cler_spsc-queue.hpp"
prop("C01", "A channel is a bounded lossless FIFO for every mix of access styles",
     "Whatever mix of single, bulk, peek/commit and contiguous (doubly mapped) operations is used, items come out of a channel exactly once, unmodified and in the order they went in. Bulk operations transfer exactly min(requested, available or free) items, non-blocking ones succeed exactly when a slot or item is there, and size, free space and emptiness always agree with the history. A channel never holds fewer than the capacity it was asked for and never more than the capacity it reports.",
     ["histories", "inputs", "configurations"],
     "every sequence of channel operations, on every element type, capacity and storage kind (fixed, heap, doubly mapped)",
     "The unit tests run a few fixed sequences with one or two element sizes and capacities; they cannot cover the mixes of styles, wrap positions, capacities and element sizes.",
     [Q, "include/cler.hpp"],
     [("ring arithmetic on read/write indices", Q), ("Channel forwarding", "include/cler.hpp")],
     ["return values and out-parameters of the channel operations"],
     [("write/read index", "positions in the ring; one slot is kept free", Q)])
prop("C02", "Zero-copy windows show exactly the readable or writable items",
     "A peek or contiguous read window shows exactly the unread items in order, a write window exactly the free slots, and windows never overlap unread data or leave the channel's storage. Committing k items consumes or publishes exactly the first k of the window, at every wrap position. A contiguous window, where the channel offers one, always covers all available items or space in one piece.",
     ["histories", "inputs", "configurations"],
     "every operation history, element size (also sizes not dividing the memory page), and buffer size (below, at and above the huge page size)",
     "Tests look at windows of a few buffers whose element size divides the page; a wrong window at one wrap position or element size is invisible to them.",
     [Q, "include/virtual_memory/cler_vmem_posix.hpp"],
     [("peek_write/peek_read/read_dbf/write_dbf and commits", Q), ("mirrored mapping", "include/virtual_memory/cler_vmem_posix.hpp")],
     ["window pointers, sizes and contents"])
prop("C03", "A channel is safe for one writer and one reader running concurrently",
     "With one thread writing and another reading, in any interleaving and with any mix of access styles, the reader sees exactly the writer's items, once each, in order and fully written. No slot is overwritten before it was read, and there is no data race. Sizes seen by the writer or the reader never promise more space or items than there are.",
     ["schedules", "histories"],
     "every interleaving of a producer script and a consumer script over any operations, element types and capacities",
     "A test runs the few interleavings the scheduler happens to pick; the ones where a publication is early or an index stale are rarely among them.",
     [Q],
     [("release/acquire publication of indices; data is moved before the index is published", Q)],
     ["items received by the reader", "race reports"],
     [("index caches", "stale-but-safe copies of the other side's index", Q)])
prop("C04", "Channels of owning element types leak nothing and duplicate nothing",
     "For element types that own resources, every object a channel constructs is destroyed exactly once when the channel dies, whatever is still inside. Taking an item hands its resource to the caller and pushing keeps the value given. Pushing from a const item leaves the caller's item intact.",
     ["histories", "configurations"],
     "every operation history and capacity, in fixed, heap and doubly mapped storage, with items left behind at destruction",
     "Existing tests use plain numbers; nothing counts constructions and destructions or observes leftovers.",
     [Q],
     [("construct/destroy loops over storage and padding; moves on read", Q)],
     ["live object counts", "values popped"])
prop("C05", "Mirrored buffers alias fully; any allocation failure is handled cleanly",
     "A mirrored allocation that reports success shows the same bytes through both of its halves over its whole reported size, which is at least the size asked for, and a channel offering contiguous windows is backed by one. If the operating system refuses any step, the allocation reports failure, leaks no descriptor or mapping, and a channel built on it still works as a FIFO. Releasing, moving or re-creating an allocation returns every descriptor and mapping.",
     ["fault_sequences", "inputs", "histories"],
     "every requested size, every create/move/destroy history, and every combination of injected failures of the system calls involved",
     "Tests never make the operating system refuse a step and never count descriptors or mappings.",
     ["include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp", Q],
     [("memfd + two fixed mappings, verified by a probe; cleanup on each error path", "include/virtual_memory/cler_vmem_posix.hpp"), ("fallback to plain heap", Q)],
     ["bytes through both halves", "/proc/self/fd and /proc/self/maps of the process under test", "recorded system calls"])
prop("C06", "A running flowgraph computes what its blocks compute, under any scheduling",
     "Whatever scheduler, worker count, batching, pinning, sleep and statistics settings and however its tasks interleave, each stream delivered by a flowgraph is exactly what the composed blocks produce sequentially. A block's procedure is never entered by two tasks at once, and every block keeps being called for as long as the flowgraph runs. Each block is given the outputs it was wired to, in the order they were wired.",
     ["schedules", "programs", "configurations"],
     "every graph shape, every configuration and every interleaving of the tasks at the points where blocks run or the runtime yields or sleeps",
     "No existing test runs a flowgraph at all.",
     ["include/cler.hpp", "include/task_policies/cler_desktop_tpolicy.hpp", "include/cler_utils.hpp"],
     [("one task per block or disjoint contiguous groups of blocks per worker", "include/cler.hpp"), ("index dispatch to the block's procedure", "include/cler.hpp")],
     ["samples reaching the sinks", "entries into procedures, per block"],
     [("worker queues", "disjoint partition of blocks over workers", "include/cler.hpp")])
prop("C07", "A flowgraph stops when it must, only then, completely, and can run again",
     "A fatal result from any block stops the whole flowgraph, marks it stopped and invokes the termination callback with its context, while no non-fatal result ever stops it. Once a stop request (explicit, timed, or by destruction) returns, every task has ended and no block is called again, also when the system refused some task; stopping twice or before running is harmless. A timed run lasts at least the time asked for, and a stopped flowgraph can be run again under any configuration.",
     ["schedules", "histories", "configurations"],
     "every run/stop/rerun history, every block failing at any point with any result, every scheduler configuration and interleaving",
     "No existing test starts, stops or fails a flowgraph; the properties concern every interleaving of failure, stop and the other tasks.",
     ["include/cler.hpp"],
     [("shared stop flag checked before each call; join of exactly the created tasks", "include/cler.hpp"), ("fatal classification of results", "include/cler.hpp")],
     ["task creation and joining", "procedure calls after stop", "callback invocations", "is_stopped()"])
prop("C08", "Run statistics are exact and adaptive sleeping stays within its limits",
     "With detailed statistics on, after a run each block's name, successful and failed call counts equal the calls really made in that run, idle time never exceeds run time, and with statistics off no counts appear. Adaptive sleeping happens only when enabled, only after more consecutive idle calls than the threshold, never longer than the maximum, grows by about the configured multiplier while idle and shrinks on progress, and it never changes results. The printed report shows the configuration and these figures.",
     ["histories", "configurations", "schedules"],
     "every sequence of block results, every statistics and sleep configuration, every scheduler",
     "No existing test looks at statistics or sleeping; both depend on whole histories of results.",
     ["include/cler.hpp", "include/cler_desktop_utils.hpp"],
     [("per-block counters", "include/cler.hpp"), ("back-off state per block", "include/cler.hpp")],
     ["statistics array after stop", "sleep requests made to the platform layer"])
prop("C09", "Small core utilities are exact on their whole domain",
     "Rounding to powers of two gives the largest power not above and the smallest not below the argument, and power-of-two detection agrees with both. Fixed-size strings hold the longest fitting prefix of the text given or concatenated, always terminated, with the right length. Results hand back exactly the value or error stored and refuse the other; every error is fatal exactly when it is a termination error and has its own readable text.",
     ["inputs"],
     "every integer, text, concatenation and error value",
     "No existing test touches these helpers; they are defined over whole ranges with edge cases at the ends.",
     ["include/cler_utils.hpp", "include/cler_embeddable_string.hpp", "include/cler_result.hpp", "include/cler.hpp"],
     [("bit tricks", "include/cler_utils.hpp"), ("bounded append", "include/cler_embeddable_string.hpp"), ("variant wrapper", "include/cler_result.hpp")],
     ["return values"])
prop("C10", "Every embedded task layer runs its task once and joins it cleanly",
     "On each supported RTOS layer a created task runs its function exactly once with its captured state, and joining returns only after it finished. Creating and joining releases all memory, stacks and synchronisation objects, and touches none of them after release; joining twice is harmless, and a sleep gives the processor away for at least a tick, on ThreadX and Zephyr for no less than asked. A flowgraph built on the layer delivers its streams and stops like on the desktop.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of task, creator and joiner at kernel calls, any number of tasks, and refused kernel object creation where the layer handles it",
     "The repository only compiles these layers against mock kernels; nothing runs or joins a task.",
     ["include/task_policies/cler_freertos_tpolicy.hpp", "include/task_policies/cler_threadx_tpolicy.hpp", "include/task_policies/cler_zephyr_tpolicy.hpp", "include/task_policies/cler_task_policy_base.hpp", "include/task_policies/cler_desktop_tpolicy.hpp"],
     [("completion semaphore plus heap-allocated callable", "include/task_policies")],
     ["invocation counts", "kernel objects alive", "memory errors"])
prop("C11", "Sample-wise math blocks compute their formula however data is chunked",
     "Gain multiplies, add sums all its inputs, frequency shift rotates by a continuously advancing phase, and complex split yields real/imaginary or magnitude/phase, each per sample. The output stream depends only on the input stream: not on how input arrives, how often the block is called, or how much output space there is at a time. Every call consumes exactly what it produces, never loses or repeats a sample, and always makes progress when data and space are there.",
     ["inputs", "histories"],
     "every input stream, parameter, and history of feeding, draining and calling",
     "Tests push one short batch through with ample space; chunk- and backpressure-dependence needs many histories.",
     ["desktop_blocks/math/gain.hpp", "desktop_blocks/math/add.hpp", "desktop_blocks/math/frequency_shift.hpp", "desktop_blocks/math/complex_demux.hpp"],
     [("transfer of min(inputs, space) per call with doubly mapped windows", "desktop_blocks/math")],
     ["output streams", "channel sizes after each call"],
     [("phase accumulator", "carried across calls", "desktop_blocks/math/frequency_shift.hpp")])
prop("C12", "Fan-out, throughput, throttle and null-sink blocks lose and invent nothing",
     "Fan-out delivers every input item, in order, to each output, and the pass-through blocks deliver their input unchanged, under any feeding, draining and calling history. The null sink consumes everything it is offered, handing each item once and in order to its observer if one is set. The throughput meter's count equals the items passed, and the throttle never passes items ahead of its configured rate.",
     ["inputs", "histories"],
     "every stream, number of outputs, space pattern, and calling history (and time history for the throttle)",
     "Tests cover a handful of batches with ample space and two outputs.",
     ["desktop_blocks/utils/fanout.hpp", "desktop_blocks/utils/throughput.hpp", "desktop_blocks/utils/throttle.hpp", "desktop_blocks/sinks/sink_null.hpp"],
     [("min over input size and every output's space", "desktop_blocks/utils"), ("deadline per sample", "desktop_blocks/utils/throttle.hpp")],
     ["output streams and counts"])
prop("C13", "Signal generators emit one continuous waveform however they are called",
     "The tone source emits amplitude times the sampled cosine (or complex exponential) of its frequency, and the chirp source a constant-amplitude sweep whose instantaneous frequency moves linearly from start to end over its duration and then starts over. The stream does not depend on how the calls split it or on output space, and is phase-continuous within the waveform. No call writes more than the space it is offered, every call with space makes progress, and impossible parameters are rejected at construction.",
     ["inputs", "histories"],
     "every parameter set, output space and call pattern",
     "There is no test of the generators; drift and seams only show over long streams and particular splits.",
     ["desktop_blocks/sources/source_cw.hpp", "desktop_blocks/sources/source_chirp.hpp"],
     [("recursive phasor / phase accumulator carried across calls", "desktop_blocks/sources")],
     ["generated streams"])
prop("C14", "The noise block adds independent noise of the stated power to every sample",
     "Each input sample comes out once and in order with noise added whose mean is zero and whose standard deviation is the configured one (per real or complex component as documented), uncorrelated between samples and with the signal. A zero level passes the stream unchanged. No sample is lost, repeated or left waiting when data and space are there, and reported consumption matches production.",
     ["inputs", "histories"],
     "every stream, level, sample type and feeding/draining history",
     "Tests look at one batch each with loose statistics.",
     ["desktop_blocks/noise/awgn.hpp"],
     [("per-sample normal generator", "desktop_blocks/noise/awgn.hpp")],
     ["difference of output and input streams"])
prop("C15", "FM demodulator and low-pass filter are chunk-independent and exact",
     "Demodulating a frequency-modulated signal returns the modulating waveform scaled by the documented gain, and the low-pass block returns the causal convolution of its input with the symmetric Kaiser-window taps designed from its parameters. Output streams do not depend on how input arrives, calls are split, or output space is limited. One sample out per sample in, none lost or repeated.",
     ["inputs", "histories"],
     "every input stream, parameter set and feeding/draining history",
     "No test exists for either block.",
     ["desktop_blocks/fm/fm_demod.hpp", "desktop_blocks/filters/kaiser_lpf.hpp"],
     [("filter and discriminator state carried across calls", "desktop_blocks/fm/fm_demod.hpp")],
     ["output streams"])
prop("C16", "The channelizer splits whole frames and keeps all outputs aligned",
     "For any input stream, channel k of the channelizer is the k-th sub-band of an analysis filter bank applied frame by frame, regardless of how input arrives and how much space each output has. All outputs receive the same number of samples, one per whole input frame, and partial frames wait. A full output stops consumption instead of losing samples.",
     ["inputs", "histories", "configurations"],
     "every number of channels, filter setting, input stream and pattern of feeding and of output space",
     "Tests use a few fixed frames with ample space.",
     ["desktop_blocks/channelizers/polyphase_channelizer.hpp"],
     [("frames limited by input and by every output's space", "desktop_blocks/channelizers/polyphase_channelizer.hpp")],
     ["output streams"])
prop("C17", "The resampler's output depends on the input stream only",
     "For any rate, the resampler's output stream is what resampling the whole input at once gives, however input arrives, calls are split and output space is limited. It consumes no input whose output it could not deliver: the number of samples out follows the rate to within the filter's fixed bookkeeping. Given data and enough space it always makes progress.",
     ["inputs", "histories", "configurations"],
     "every rate, attenuation, stream, and feeding/draining history",
     "Tests check approximate lengths of single batches with ample space.",
     ["desktop_blocks/resamplers/multistage_resampler.hpp"],
     [("input limited by output space over rate", "desktop_blocks/resamplers/multistage_resampler.hpp")],
     ["output stream"])
prop("C18", "What the file sink writes is what the file source reads back",
     "After the file sink is fed any stream and closed, the file holds exactly its bytes in order, and a file source delivers exactly the whole items of a file in order. With repeat the content cycles without gap or seam; without it, the end is reported through the callback after everything was delivered. A file that cannot be opened is reported by an exception at construction and data that cannot be written by an input/output error, never by a crash or silently.",
     ["inputs", "histories", "fault_sequences"],
     "every stream, item type, file length (also with a trailing partial item), and feeding/draining history",
     "The sink test writes single short batches; the source has none.",
     ["desktop_blocks/sinks/sink_file.hpp", "desktop_blocks/sources/source_file.hpp"],
     [("buffered fwrite/fread of channel windows", "desktop_blocks/sinks/sink_file.hpp")],
     ["file bytes", "stream delivered", "callback calls"])
prop("C19", "Pooled buffers are never handed out twice and always come back",
     "A buffer pool hands out at most its number of slots, each to one holder at a time, with the full slot size and disjoint memory. Released slots can be taken again, without limit to the number of take/release rounds, and taking from an empty pool fails with an error. Data written through one slot is never visible through or damaged by another.",
     ["histories", "configurations"],
     "every take/release history and pool shape",
     "Nothing tests the pool; leaks and double hand-outs need long histories.",
     ["desktop_blocks/blob.hpp", "desktop_blocks/blob.cpp"],
     [("free-slot queue", "desktop_blocks/blob.cpp")],
     ["slots handed out"])
prop("C20", "UDP blocks deliver every datagram intact, once, in order",
     "Each item offered to the UDP sink is sent as one datagram with exactly its bytes, and each non-empty datagram that fits and that the validator accepts yields one item of the UDP source with exactly its bytes and length (a fixed-size item is zero beyond a shorter datagram), in order, passed once to the callback and delivered without waiting for further datagrams. Rejected datagrams and socket errors never invent, repeat, corrupt or lose other items, errors are reported, pooled buffers all return after use or drop, and waiting for datagrams never keeps the flowgraph from stopping. Addresses are accepted exactly when they are an IP address of the socket's family (or nothing, to receive on any), a colon and a decimal port up to 65535, or a UNIX path that fits, and that address is the one used.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of datagrams and sizes, validator decisions, channel space, socket results (also empty, interrupted and failing), and address text",
     "Nothing tests the network blocks.",
     ["desktop_blocks/udp/shared.hpp", "desktop_blocks/udp/shared.cpp", "desktop_blocks/udp/sink_udp.hpp", "desktop_blocks/udp/source_udp.hpp", "desktop_blocks/blob.cpp"],
     [("address parsing", "desktop_blocks/udp/shared.cpp"), ("receive/validate/publish loop", "desktop_blocks/udp/source_udp.hpp"), ("send/release loop", "desktop_blocks/udp/sink_udp.hpp")],
     ["datagrams at the socket boundary", "items and callbacks", "free pool slots"])
prop("C21", "Mode S messages decode to the fields they were encoded with",
     "A valid message decodes with its checksum accepted and with the address, type, callsign, altitude (in the 25-foot code), raw position, ground speed and heading (within their resolution) and identity it was encoded with. A message damaged beyond the permitted correction is never reported as good, a permitted single-bit repair restores the original message, and messages whose address overlays the checksum count as good only for recently seen aircraft. Any 14 bytes decode without touching memory out of bounds or reporting leftovers of earlier data in fields the message lacks.",
     ["inputs", "histories"],
     "every message, field combination, bit damage, and decoding history",
     "Nothing tests the decoder; the message space is 2^112.",
     ["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/modes.h"],
     [("CRC tables, field extraction, address cache", "desktop_blocks/adsb/modes.c")],
     ["decoded message structure"])
prop("C22", "Transmitted Mode S pulses are found and decoded from the samples",
     "A cleanly transmitted message anywhere in the sample stream (with room after it) is detected and reported with its exact content, several messages each once and in order. Noise or silence yields no accepted message, samples handed in are returned unmodified, and no buffer length or content makes the search leave the buffer. The decoder block forwards exactly the good messages of the selected types, whatever way samples arrive and however strong they are.",
     ["inputs", "histories"],
     "every message, position, amplitude, sub-sample phase, gap, noise and chunking",
     "Nothing tests the detector.",
     ["desktop_blocks/adsb/modes.c", "desktop_blocks/adsb/modes_2400.c", "desktop_blocks/adsb/adsb_decoder.hpp"],
     [("preamble correlation and bit slicing", "desktop_blocks/adsb/modes_2400.c"), ("magnitude conversion and type filter", "desktop_blocks/adsb/adsb_decoder.hpp")],
     ["messages reported"])
prop("C23", "Compact position reports decode to the position encoded",
     "For any position, decoding its even and odd encodings yields that position to within the format's resolution, as does decoding either encoding against any reference within range, airborne and surface alike. A pair from different latitude zones is refused rather than decoded wrongly, and a position decoded against a reference is never further from it than half a zone in either direction. Results always lie within valid latitude and longitude.",
     ["inputs"],
     "every latitude/longitude, even/odd order, and reference offset",
     "Nothing tests position decoding; errors hide at zone boundaries, poles and the date line.",
     ["desktop_blocks/adsb/cpr.c", "desktop_blocks/adsb/cpr.h"],
     [("zone tables and modular arithmetic", "desktop_blocks/adsb/cpr.c")],
     ["decoded latitude and longitude"])
prop("C24", "The aircraft table reflects exactly the messages received",
     "After any message history the table holds exactly the aircraft heard, each with the latest callsign, altitude, speed, heading, vertical rate and position its own messages conveyed. A message changes only its own aircraft and only the fields it conveys, and a position appears only from a consistent, recent even/odd pair. The update callback fires with the aircraft's current state for each message that changed it or gave a position.",
     ["histories", "inputs"],
     "every interleaving of messages of many aircraft, with time passing",
     "Nothing tests the aggregator.",
     ["desktop_blocks/adsb/adsb_aggregate.hpp", "desktop_blocks/adsb/adsb_types.hpp"],
     [("per-address state update", "desktop_blocks/adsb/adsb_aggregate.hpp")],
     ["state passed to the callback"])
prop("C25", "The coastline loader reads valid map files and refuses broken ones",
     "Every well-formed polyline map file loads with exactly the parts and points written in it. A truncated, corrupted or hostile file is refused or partly read, without crashing, reading outside the file, or taking memory or time out of proportion to the file. A failed load leaves no partial content reported as success.",
     ["inputs", "fault_sequences"],
     "every polyline file, and every truncation or corruption of one",
     "Nothing tests the loader.",
     ["desktop_blocks/adsb/adsb_coastline_loader.hpp"],
     [("record parser", "desktop_blocks/adsb/adsb_coastline_loader.hpp")],
     ["loaded lines"])
prop("C26", "Frames sent by the GMSK modem come back intact",
     "Any header and payload modulated and demodulated over a clean or mildly impaired channel (delay, gain, phase, small frequency offset, light noise), at settings the receiver is made for, is reported once, stage by stage, with exactly its header and payload bytes, and a header answered with zero, a negative or too large a length ends its frame only. Neither the waveform nor the stages reported depend on how samples are split over calls or on output space. Samples without a frame, whatever they are, report none and damage nothing.",
     ["inputs", "histories"],
     "every frame content and length, modem setting, delay, and chunking",
     "Nothing tests the modem.",
     ["desktop_blocks/ezgmsk/_ezgmsk_mod.c", "desktop_blocks/ezgmsk/_ezgmsk_demod.c", "desktop_blocks/ezgmsk/ezgmsk_mod.hpp", "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"],
     [("frame assembly state machine", "desktop_blocks/ezgmsk/_ezgmsk_mod.c"), ("synchroniser and payload state machine", "desktop_blocks/ezgmsk/_ezgmsk_demod.c")],
     ["frames reported by the demodulator callback"])
prop("C27", "The file logger keeps every line it should and respects its limits",
     "Every message at or above the level is written once, whole (cut only beyond the logger's line buffer) and in order of logging, to the terminal and the current log file, also from concurrent threads, and none below the level is. When the size limit is reached files are rotated: the newest content is in the newest file, at most the configured number of old files are kept, and no retained file exceeds the limit by more than one message. Nothing is lost across a rotation, a restart or the sudden end of the process other than the oldest files dropped.",
     ["histories", "schedules", "configurations"],
     "every sequence of messages, levels, sizes and restarts, rotation setting, and thread interleaving",
     "Nothing tests the logger.",
     ["desktop_logger/desktop_logger.cpp", "desktop_logger/desktop_logger.hpp", "desktop_logger/zf_log/zf_log.c", "desktop_logger/zf_log/zf_log.h"],
     [("output callback with size check and rotation", "desktop_logger/desktop_logger.cpp"), ("level filter and bounded formatting", "desktop_logger/zf_log/zf_log.c")],
     ["log files in a scratch directory"])
prop("C28", "The diagram tool draws every block and connection of a flowgraph",
     "For any flowgraph description, the rendered diagram contains each block that is run once, with a shape for source, sink or processing, and each connection once, with the right ends and direction and no others, as well-formed Mermaid text even for awkward names. A connection to something unknown makes it invalid and is named; otherwise the report warns of exactly the blocks without connection and those declared but not run. Rendering does not change the description and is repeatable.",
     ["inputs", "configurations"],
     "every graph, naming and rendering option",
     "Nothing tests the tool.",
     ["tools/mermaid/src/flowgraph.cpp", "tools/mermaid/src/flowgraph.h", "tools/mermaid/src/mermaid_renderer.cpp", "tools/mermaid/src/mermaid_renderer.h"],
     [("graph model and node/edge emission", "tools/mermaid/src/mermaid_renderer.cpp")],
     ["rendered text parsed back"])
prop("C29", "Spectral windows have their defined shape for every length and sample",
     "For each window type and length, every coefficient equals the textbook definition, the sequence is symmetric about its centre, stays between its defined bounds and peaks in the middle (at one; the flat top at its defined 4.64). Each type is distinct and selected by its own name. No length from two up yields a value that is not finite.",
     ["inputs"],
     "every window type, length and index",
     "Nothing tests the windows.",
     ["desktop_blocks/plots/spectral_windows.hpp"],
     [("closed-form coefficient functions", "desktop_blocks/plots/spectral_windows.hpp")],
     ["coefficients"])
prop("C30", "Plots draw exactly the newest samples they received",
     "A time series plot draws, for every input, at least the configured time's worth of the newest samples it took, each at its own time and all inputs aligned; a spectrum plot draws the windowed transform of the newest samples in dB at the right frequencies, averaged as set; a spectrogram has one row per transform, newest first. Inputs are taken from evenly, whatever their fill and however the samples arrive, and a paused plot takes nothing. This holds for pictures drawn from another thread at any time.",
     ["inputs", "histories", "schedules"],
     "every sequence of pieces, draws and pauses, every transform length, window, number of inputs, and interleaving of drawing and receiving",
     "Nothing tests the plots, which need a display.",
     ["desktop_blocks/plots/plot_timeseries.cpp", "desktop_blocks/plots/plot_cspectrum.cpp", "desktop_blocks/plots/plot_cspectrogram.cpp", "desktop_blocks/plots/plot_timeseries.hpp", "desktop_blocks/plots/plot_cspectrum.hpp", "desktop_blocks/plots/plot_cspectrogram.hpp"],
     [("history buffers and snapshots", "desktop_blocks/plots/plot_timeseries.cpp"), ("windowed transform and averaging", "desktop_blocks/plots/plot_cspectrum.cpp"), ("rows of the picture", "desktop_blocks/plots/plot_cspectrogram.cpp")],
     ["arguments of the drawing calls, recorded by stand-ins"])

prop("C31", "Audio files are played whole and in order, and every sample reaches the device",
     "A file source delivers all of its file's samples from first to last, mixed to mono at the asked rate, as decoding and resampling it in one go would give them, for any format, number of channels and output space; repeating, it starts over without a gap, otherwise it reports the end once. A sink plays every sample once in order, underflow or not, and says when the device fails. Missing or damaged files and devices that fail end in an error, never in a hang or in something left open.",
     ["inputs", "histories", "faults", "configurations"],
     "every audio file, intact or damaged, output space, calling pattern, device and failure of the device",
     "Nothing tests the audio blocks; the example needs a sound card.",
     ["desktop_blocks/sources/source_audio_file.hpp", "desktop_blocks/sinks/sink_audio.hpp"],
     [("decoding, resampling and end of file", "desktop_blocks/sources/source_audio_file.hpp"), ("writes to the device, opening and closing", "desktop_blocks/sinks/sink_audio.hpp")],
     ["samples delivered and written to a stand-in PortAudio"])

prop("C32", "Radio sources deliver every received sample in order and release the device",
     "What a HackRF, SoapySDR, UHD or CaribouLite source puts out is exactly what the driver handed over: every sample once, in order, unchanged or scaled as documented, on the channel it was received on, for any sizes of transfers and output space; what a full buffer costs is counted. Time-outs, empty reads and overflows do not end the reception, failures of the device are reported. Settings reach the device or are refused, and whatever step of the set-up fails nothing stays open.",
     ["inputs", "histories", "faults", "configurations"],
     "every sequence of driver transfers, time-outs, overflows and failures, number of channels, output space and calling pattern",
     "Nothing tests the radio blocks; the examples need the hardware.",
     ["desktop_blocks/sources/source_hackrf.hpp", "desktop_blocks/sources/source_soapysdr.hpp", "desktop_blocks/sources/source_uhd.hpp", "desktop_blocks/sources/source_cariboulite.hpp", "desktop_blocks/misc/soapysdr_common.hpp", "desktop_blocks/misc/uhd_common.hpp"],
     [("receive callback and buffer", "desktop_blocks/sources/source_hackrf.hpp"), ("reads and set-up", "desktop_blocks/sources/source_soapysdr.hpp"), ("multi-channel reads, errors", "desktop_blocks/sources/source_uhd.hpp")],
     ["samples out of the block", "overflow counters", "calls made on stand-in devices"])

prop("C33", "Radio sinks transmit every sample once in order and release the device",
     "What a HackRF, SoapySDR or UHD sink hands to the driver is exactly what it was fed: every sample once, in order, converted as documented, on its channel, and a sample is taken from the input only when the device accepted it. A starved transfer is filled with zeros and counted, underflows are counted, time-outs and short writes neither lose nor repeat samples nor keep the flowgraph from stopping, and failures of the device are reported. Settings reach the device or are refused, and whatever step of the set-up fails nothing stays open.",
     ["inputs", "histories", "faults", "configurations"],
     "every sequence of driver transfers, short writes, time-outs, underflows and failures, number of channels, buffer size and feeding pattern",
     "Nothing tests the radio blocks; the examples need the hardware.",
     ["desktop_blocks/sinks/sink_hackrf.hpp", "desktop_blocks/sinks/sink_soapysdr.hpp", "desktop_blocks/sinks/sink_uhd.hpp", "desktop_blocks/misc/soapysdr_common.hpp", "desktop_blocks/misc/uhd_common.hpp"],
     [("transmit callback", "desktop_blocks/sinks/sink_hackrf.hpp"), ("writes and set-up", "desktop_blocks/sinks/sink_soapysdr.hpp"), ("multi-channel sends, messages", "desktop_blocks/sinks/sink_uhd.hpp")],
     ["samples accepted by stand-in devices", "underrun and underflow counters", "calls made on stand-in devices"])

prop("C34", "Fixed-size channels and running flowgraphs allocate no memory",
     "A channel of compile-time size, and a block whose name and channels are all of fixed size, is made, used by every operation and destroyed without a single heap allocation or mapping. A channel sized at run time allocates only when it is made, and everything it took is given back when it is destroyed. Once a flowgraph's tasks run, whatever the scheduler, sleep, statistics and batching settings and whatever recoverable errors its blocks return, the framework allocates nothing.",
     ["inputs", "histories", "configurations"],
     "every item type, channel size and sequence of channel operations, and every flowgraph configuration and error pattern",
     "Tests look at values moved, never at memory; one allocation on a rarely taken path (a long name, a sleeping block, a full queue) breaks the use on embedded systems the library is meant for.",
     ["include/cler_spsc-queue.hpp", "include/cler.hpp", "include/cler_embeddable_string.hpp"],
     [("StackBuffer, AdaptiveHeapBuffer", "include/cler_spsc-queue.hpp"), ("block execution loops", "include/cler.hpp"), ("block names", "include/cler_embeddable_string.hpp")],
     ["number of calls of malloc, operator new and mmap", "blocks of memory left behind"])

prop("C35", "The map shows aircraft and coastlines where they are",
     "The map draws every aircraft whose position is known, and no other, as one arrow at its place under the current centre and zoom (on the border when that is outside), pointing along its track, redder the higher it flies, with its callsign beside it; grid lines lie at their round coordinates, and a coastline is drawn exactly where it crosses the map. While the pointer is over the map, and only then, each wheel step zooms by a tenth within the limits 0.01 and 50 around the centre, and dragging with either button moves the map along with the pointer. The text gives the number of aircraft known.",
     ["inputs", "histories", "configurations"],
     "every set of aircraft and coastlines, window size and position, initial centre, and sequence of wheel and drag actions",
     "Nothing tests the map; segments crossing the border, actions that leave the map and extreme zooms are rarely looked at.",
     ["desktop_blocks/adsb/adsb_aggregate.hpp"],
     [("render, projection, drawing and interaction", "desktop_blocks/adsb/adsb_aggregate.hpp")],
     ["arrows, lines and labels drawn", "text drawn"])

prop("C36", "The editor preview shows the diagram of the current source, and of no other",
     "Asking the VS Code extension for a preview of a C++ file runs the diagram tool found first (configured path, workspace, search path, home) on exactly that file, whatever characters its path has, and shows the diagram made of its present content, or an error when none is made. After every save and change of the previewed file with automatic update on, the preview comes to show the newest content once things are at rest, whatever else is saved, changed, opened or still being drawn; changes in a burst cause one run. Other files, files changed with automatic update off, and a deactivated extension cause none.",
     ["inputs", "histories", "schedules", "faults"],
     "every sequence of opening, saving, changing and failing, every file name, duration of the tool and place it may be in",
     "Nothing tests the extension; lost updates need a particular overlap, and odd file names and name clashes are not tried by hand.",
     ["tools/mermaid/vscode-extension/src/extension.ts", "tools/mermaid/vscode-extension/src/previewProvider.ts"],
     [("commands, save and change watchers", "tools/mermaid/vscode-extension/src/extension.ts"), ("running the tool, choice of the tool", "tools/mermaid/vscode-extension/src/previewProvider.ts")],
     ["diagrams shown", "runs of the tool and their arguments", "messages shown"])

prop("C37", "Everything taken is given back",
     "Creating, using and destroying any block, buffer pool or flowgraph leaves the process with no more memory, descriptors, mappings, threads or files than before, however often it is repeated and in whatever state it is destroyed, running flowgraphs and unread samples included. A constructor that refuses its arguments leaves nothing behind either.",
     ["inputs", "histories", "configurations", "faults"],
     "every block with every accepted or refused argument, every amount of work done and left over when it is destroyed, every number of runs",
     "Tests end with the process and never look at what is left; a leak in a refused constructor or a destructor shows only after days of restarts.",
     ["include/cler.hpp", "include/cler_embeddable_string.hpp", "include/virtual_memory/cler_vmem.hpp", "desktop_blocks"],
     [("destructors and constructors of the blocks", "desktop_blocks"), ("stop and destruction of flowgraphs", "include/cler.hpp")],
     ["allocated bytes, descriptors, mappings, threads and files after each life"])

prop("C38", "The window shows every frame once, in full, and gives everything back",
     "Opening a window of any size and title gives a window of that size and exactly that title, or an error after which nothing stays open. Every begin and end of a frame handles the waiting events once and shows one picture, drawn anew over the whole present area of the window; the window asks to close exactly when its user did. Destroying it, even within a frame, closes everything in an order its libraries allow, so that another can be opened.",
     ["inputs", "histories", "faults"],
     "every size, title and sequence of frames, resizes, closings and reopenings, and every refusal by the display",
     "Nothing tests the window: a test would need a display; refusals and reopening are not tried by hand.",
     ["desktop_blocks/gui/gui_manager.cpp", "desktop_blocks/gui/gui_manager.hpp"],
     [("construction, frames, destruction", "desktop_blocks/gui/gui_manager.cpp")],
     ["calls made to GLFW, OpenGL and Dear ImGui"])

prop("C39", "The diagram tool reads from a source exactly the flowgraph written in it",
     "For any C++ source with a flowgraph, whatever its layout, comments and other code, the tool finds every declared block once with its type, template parameters and place, every connection made by the runners with its channel, and nothing that is only mentioned in comments, strings, pointers or other code; the flowgraph gets its own name or that of the file. From the command line each readable file gets its diagram under the expected name, files without a flowgraph are skipped, and one bad file neither stops the others nor goes unreported. Any text at all is read without damage, and files read one after another do not influence each other.",
     ["inputs", "configurations"],
     "every source in the customary forms, its layout and comments, every list of files and options, and damaged text",
     "Nothing tests the tool.",
     ["tools/mermaid/src/cpp_parser.cpp", "tools/mermaid/src/cpp_parser.h", "tools/mermaid/src/main.cpp"],
     [("declarations, runners and connections", "tools/mermaid/src/cpp_parser.cpp"), ("files, options and summary", "tools/mermaid/src/main.cpp")],
     ["blocks and connections found", "files written", "exit status and summary"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
