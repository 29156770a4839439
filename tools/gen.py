#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/lib')
import checks

P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note, observe=(), hook=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)),
        technique, note))


SAMPLE = 'Case counts bound the assurance; nothing is proved. '

prop('P01', 'The span buffer neither loses, duplicates nor reorders spans',
     'Whatever the interleaving of concurrent producers and the one consumer, every element offered to the bounded lock-free buffer is either accepted and handed to the consumer exactly once, in each producer\'s order, or refused and left with its owner. '
     'An element is refused only while the buffer is full, the buffer never holds more than its capacity, and every element is destroyed exactly once. '
     'The produced and consumed counts always account for what is in the buffer.',
     'schedules histories', 'every schedule of any number of producers and one consumer, every capacity and every history of additions, peeks and partial consumptions including wrap-around',
     'The tests run one simulation per build under the scheduler of the day; they do not reach chosen interleavings, wrap-around with partial consumption, or the full/empty boundary under contention.',
     'src/common/circular_buffer.h src/common/atomic_unique_ptr.h src/common/circular_buffer_range.h',
     [('claim of a slot, publication of head, clearing of consumed slots', 'src/common/circular_buffer.h'), ('atomic ownership transfer', 'src/common/atomic_unique_ptr.h')],
     'model-based histories, generated schedules on a deterministic scheduler, real threads under ASan and TSan',
     SAMPLE + 'Generated schedules are sequentially consistent; weak orderings only through ThreadSanitizer.')

prop('P02', 'Serialization streams keep every byte in order',
     'Everything written to a growing block-chained output stream, through any sequence of buffer requests and returns, is read back from it exactly once and in order, and the reported number of fragments and bytes match what is iterated. '
     'Appending one finished stream to another yields the concatenation of their contents.',
     'inputs histories', 'every sequence of requests, partial returns and appends, every content and length',
     'Tests write a few short fixed strings; block boundaries, empty streams and chains of appends are not sampled.',
     'src/common/chained_stream.cpp src/common/chained_stream.h',
     [('block list with last-block trimming', 'src/common/chained_stream.cpp')],
     'model-based histories against a byte string', SAMPLE)

prop('P03', 'Partial consumption of chained fragments loses no byte',
     'After any number of bytes of a chain of fragment sources has been consumed, what remains is exactly the suffix that was not consumed, a fully consumed source reports empty, and repeated partial consumption delivers every byte exactly once and in order. '
     'This holds for single sources and for any composition of them.',
     'inputs histories', 'every list of fragments, every split of the consumption into steps, every way of composing the sources',
     'Tests consume a couple of hand-picked counts.',
     'src/common/fragment_input_stream.cpp src/common/fragment_array_input_stream.cpp src/common/composable_fragment_input_stream.cpp src/common/in_memory_stream.cpp',
     [('Seek/Clear of each source', 'src/common/fragment_array_input_stream.cpp'), ('composition', 'src/common/composable_fragment_input_stream.cpp'), ('consumption across sources', 'src/common/fragment_input_stream.cpp')],
     'model-based histories against a byte string', SAMPLE)

prop('P04', 'A gathered write resumes exactly where the socket stopped',
     'When data is sent to a non-blocking socket, the bytes the socket accepted are exactly a prefix of the data, what is left to send is exactly the rest, and repeating the write delivers everything once and in order. '
     'The write reports completion only when nothing is left, reports the socket\'s refusal as "would block" without losing data, and reports any other error, a connection closed by the peer included, as an error, without a signal to the process.',
     'inputs fault_sequences', 'every number and size of fragments, every short write, refusal and error at every system call',
     'Tests use a socket pair and one large string; short writes at fragment edges, more fragments than one call takes, and errors are not generated.',
     'src/network/vector_write.cpp src/common/platform/network_unix.cpp',
     [('batching and resumption', 'src/network/vector_write.cpp')],
     'fault injection at the system-call boundary plus real sockets, against a byte string', SAMPLE)

prop('P05', 'A report request serializes exactly its header, drops and spans',
     'A report built from a header, a number of dropped spans and any list of serialized spans parses as a single report message carrying exactly those, in order, with the dropped count present exactly when it is not zero. '
     'The announced byte, fragment and span counts match what iteration delivers, and stopping the iteration early is honoured.',
     'inputs', 'every header, dropped count and list of spans of any size',
     'Tests build one report with one or two small spans.',
     'src/recorder/serialization/report_request.cpp src/recorder/serialization/embedded_metrics_message.cpp src/common/buffer_chain.cpp',
     [('fragment list', 'src/recorder/serialization/report_request.cpp'), ('copy-out', 'src/common/buffer_chain.cpp')],
     'generated reports, round trip through the protobuf parser', SAMPLE)

prop('P06', 'Every dropped span is counted and reported exactly once',
     'Spans recorded as dropped are, at every moment, either still pending or have been taken for exactly one report; taking the count resets it atomically, and giving a count back after a failed report restores it. '
     'The metrics observer is told of every drop, send and flush, and the count put into a report is the count read back from it.',
     'schedules histories inputs', 'every history and interleaving of drops, takes and give-backs; every count',
     'Tests cover single-threaded examples with small numbers.',
     'src/recorder/metrics_tracker.cpp src/recorder/metrics_tracker.h src/recorder/serialization/embedded_metrics_message.cpp',
     [('atomic exchange and addition', 'src/recorder/metrics_tracker.cpp'), ('metrics message', 'src/recorder/serialization/embedded_metrics_message.cpp')],
     'model-based histories; real threads under ASan and TSan with a conservation law', SAMPLE)

prop('P07', 'Spans leave the buffer whole, framed, and with their remnant kept',
     'Draining buffered spans through partial writes delivers every span exactly once, unchanged and in order; a span cut by a short write is kept so that its remaining bytes can be sent first. '
     'Spans counted as sent are exactly those completely consumed.',
     'histories inputs', 'every list of spans, every split of consumption into steps, spans added between steps',
     'Tests drain two or three spans at fixed offsets.',
     'src/recorder/stream_recorder/span_stream.cpp src/common/circular_buffer.h',
     [('allotment, seek and remnant', 'src/recorder/stream_recorder/span_stream.cpp')],
     'model-based histories against a queue of byte strings', SAMPLE)

prop('P08', 'Clock and timestamp conversions are exact',
     'Converting between the steady and the system clock with a given offset is exact and invertible and preserves intervals, and the computed offset is the difference of readings of the two clocks. '
     'Timestamps convert to seconds and a nanosecond fraction in [0, 10^9) that add up to exactly the original time, also for times before 1970, and durations convert to exact second/microsecond pairs. '
     'The offset that the streaming recorder uses for the times of spans is never older than its refresh period, so that they follow the system clock when it is stepped, also across forks.',
     'inputs histories', 'every representable time, offset and duration; every history of clock steps',
     'The test compares one conversion of the current time with 100 microseconds of tolerance.',
     'src/common/timestamp.cpp src/common/utility.h src/common/utility.cpp src/recorder/stream_recorder/stream_recorder_impl.cpp src/recorder/stream_recorder/stream_recorder.h',
     [('offset arithmetic', 'src/common/timestamp.cpp'), ('timestamp split', 'src/common/utility.h'),
      ('periodic refresh of the offset', 'src/recorder/stream_recorder/stream_recorder_impl.cpp')],
     'algebraic laws over generated times; controlled clocks; simulated histories of clock steps', SAMPLE)

prop('P09', 'Ids do not repeat across threads and forks; random choices are fair',
     'Ids generated by any threads of any processes of a fork tree are all different, because every thread and every forked child seeds its own full generator state; the generator follows its documented algorithm from its seed. '
     'Random durations lie within the inclusive bounds asked for and reach all of them, and a random traversal visits every index exactly once, in any possible order, until told to stop.',
     'histories inputs', 'every fork/thread tree and point of first use, every seed, every interval, every number of indexes',
     'One test forks once and compares one pair of ids; ranges and traversals are sampled at one size.',
     'src/common/random.cpp src/common/random.h src/common/fast_random_number_generator.h src/common/random_traverser.cpp src/common/platform/fork_unix.cpp',
     [('thread-local generator with fork handler', 'src/common/random.cpp'), ('Fisher-Yates step', 'src/common/random_traverser.cpp')],
     'generated fork/thread trees; reference generator; reachability and permutation laws',
     SAMPLE + 'Probabilistic statements are checked with failure probability below 1e-12 per run.')

prop('P10', 'IP addresses round-trip and compare by value',
     'An address built from text, binary or system form keeps its family, bytes and port, prints in canonical form and reads back to an equal address; two addresses are equal exactly when family, address and port are (and, for IPv6 addresses from a system form, scope and flow). '
     'Text that is not an IPv4 or IPv6 address is rejected with an error.',
     'inputs', 'every IPv4 and IPv6 address and port, every way of building one, every string',
     'Tests use four literal addresses.',
     'src/network/ip_address.cpp src/network/ip_address.h',
     [('construction and comparison', 'src/network/ip_address.cpp')],
     'round trip and differential against inet_pton/inet_ntop', SAMPLE)

prop('P11', 'Every socket descriptor has one owner and is closed exactly once',
     'Through any sequence of creations, moves, assignments and destructions, a descriptor stays open while some socket object owns it and is closed exactly once afterwards; a moved-from object owns nothing, and failures leave no descriptor behind. '
     'Making a socket non-blocking or reusable changes just that, and connecting yields a non-blocking stream socket to the given address or an error.',
     'histories fault_sequences', 'every sequence of socket operations, every kind of target address',
     'Tests move a socket once.',
     'src/network/socket.cpp src/network/socket.h src/common/platform/network_unix.cpp',
     [('move operations and Free', 'src/network/socket.cpp')],
     'model-based histories with intercepted close', SAMPLE)

prop('P12', 'The flat map and the function reference behave like their models',
     'The sorted-vector map agrees with an ordered map on every sequence of insertions, replacements, lookups and iteration, for any ordering. '
     'A function reference calls exactly the callable it was bound to, passes arguments and results through unchanged, and is false exactly when bound to nothing.',
     'histories inputs', 'every sequence of operations, every key order, every kind of callable',
     'Tests insert two or three keys.',
     'src/common/flat_map.h src/common/function_ref.h',
     [('lower_bound insertion', 'src/common/flat_map.h'), ('type-erased invoker', 'src/common/function_ref.h')],
     'model-based histories against std::map and direct calls', SAMPLE)

prop('P34', 'Hand-written protobuf framing is valid and sized exactly',
     'Every field, embedded message, timestamp and span header written by the hand-written encoder parses with a standard protobuf parser to the field number, type and value given, whatever the output buffering. '
     'The size computed in advance is exactly the number of bytes written, and nothing is written outside the space provided.',
     'inputs', 'every field number, integer, byte string and message size, every output buffer size',
     'Tests encode a handful of integers and one message.',
     'src/common/direct_coded_output_stream.h src/common/serialization.h src/common/protobuf.cpp src/common/report_request_framing.cpp',
     [('varint writer', 'src/common/direct_coded_output_stream.h'), ('embedded messages', 'src/common/protobuf.cpp'), ('span header', 'src/common/report_request_framing.cpp')],
     'differential against the protobuf library on generated fields and buffers', SAMPLE)

prop('P35', 'A satellite connection streams valid requests through any fault',
     'Over any sequence of short writes, write errors, resets and shutdowns, each streaming session sends one well-formed HTTP/1.1 chunked request whose body is a valid report: header first, then whole spans, then the terminator. '
     'Every span is sent in full once, or is counted as dropped, and dropped counts reported in a session are taken back if the session dies before delivering them.',
     'histories fault_sequences', 'every list of spans, every split of the output into partial writes, failures and resets at every point',
     'Tests drive one or two scripted sessions.',
     'src/recorder/stream_recorder/connection_stream.cpp src/recorder/stream_recorder/span_stream.cpp src/recorder/stream_recorder/host_header.cpp',
     [('flush, remnant and shutdown', 'src/recorder/stream_recorder/connection_stream.cpp')],
     'model-based fault histories; the session output is parsed back', SAMPLE)

TR = 'src/tracer/'
PG = 'src/tracer/propagation/'

prop('P13', 'A finished span is reported exactly as it was recorded',
     'Every sampled span that is finished or destroyed appears exactly once, in order of finishing, in what the tracer reports, with its operation name, last values of tags, all logs, references, start time and duration exactly as recorded through the API. '
     'Unsampled spans are never reported, calls after the end of a span change nothing, and no call of the span API fails or crashes.',
     'inputs histories', 'every sequence of span API calls on several spans of both span implementations, every text, value and explicit or implicit timestamp, every sampling decision',
     'Tests set a tag or a log and look for it; sequences, late calls, sampling changes, odd values and timestamps are not generated.',
     TR + 'span.cpp ' + TR + 'legacy/legacy_span.cpp ' + TR + 'serialization.cpp ' + TR + 'tag.cpp src/recorder/serialization/report_request.cpp src/recorder/report_builder.cpp',
     [('streaming span serialization', TR + 'span.cpp'), ('span record', TR + 'legacy/legacy_span.cpp')],
     'stateful API histories against a model; the report is parsed back', SAMPLE)

prop('P14', 'Tag and log values are encoded without loss',
     'Every tag or log value is encoded with the protobuf value kind of its type and reads back equal; arrays and dictionaries become JSON that a standard JSON parser reads back to the same structure, whatever the locale or what was encoded before. '
     'The streaming encoder and the message encoder agree.',
     'inputs', 'every value: all types, nesting, special numbers, every string',
     'Tests encode a few scalar values and one array.',
     TR + 'serialization.cpp ' + TR + 'utility.cpp src/common/serialization.h',
     [('key-value writer', TR + 'serialization.cpp'), ('JSON writer', TR + 'utility.cpp')],
     'round trip through an independent JSON reader and the protobuf parser', SAMPLE + 'Strings are valid UTF-8, as protobuf requires.')

prop('P15', 'A span context survives injection and extraction',
     'A context injected into a carrier and extracted again by a tracer with the same propagation modes has the same trace id, span id, sampling decision, trace state and baggage, as far as the format can carry them, whatever the case or order of the headers and the locale of either process. '
     'An error of the carrier is returned by Inject or Extract, and no partial context is made up from what was read before it.',
     'inputs fault_sequences', 'every context, every list of propagation modes, every carrier kind, every failing carrier operation',
     'Tests round-trip a few fixed contexts per format.',
     PG + 'propagation.cpp ' + PG + 'lightstep_propagator.cpp ' + PG + 'b3_propagator.cpp ' + PG + 'envoy_propagator.cpp ' + PG + 'trace_context_propagator.cpp ' + PG + 'cloud_trace_propagator.cpp ' + PG + 'baggage_propagator.cpp ' + PG + 'multiheader_propagator.cpp',
     [('inject/extract over a list of propagators', PG + 'propagation.cpp'), ('header formats', PG + 'multiheader_propagator.cpp')],
     'round trip between tracers through generated carriers with injected failures', SAMPLE)

prop('P16', 'Extraction is total: any headers yield a context, nothing, or an error',
     'Whatever headers or bytes arrive, Extract neither crashes, reads outside them nor throws; absent headers yield no context, malformed ids or encodings yield an error or no context, and well-formed headers yield exactly the context they spell. '
     'A context is never returned with an id that was not in the headers.',
     'inputs', 'every set of headers: valid, mutated and arbitrary, every mode list, every carrier kind',
     'Tests feed a few malformed examples.',
     PG + 'propagation.cpp ' + PG + 'trace_context.cpp ' + PG + 'multiheader_propagator.cpp ' + PG + 'cloud_trace_propagator.cpp ' + PG + 'envoy_propagator.cpp src/common/hex_conversion.cpp 3rd_party/base64/src/base64.cpp',
     [('parsing of ids', 'src/common/hex_conversion.cpp'), ('traceparent', PG + 'trace_context.cpp'), ('base64', '3rd_party/base64/src/base64.cpp')],
     'structured fuzzing under sanitizers against an independent reading of the formats', SAMPLE + 'Where the formats leave the outcome open only safety is judged.')

prop('P17', 'Injected headers follow the published header formats',
     'For every configured propagation mode the injected headers are exactly those the format prescribes: names, zero padding, hexadecimal ids, flags, base64 and baggage prefixes. '
     'Headers written by another implementation of a format, in any permitted spelling, are understood.',
     'inputs', 'every context and every list of propagation modes; every permitted spelling; C and Turkish locales',
     'Tests compare a few headers of one context.',
     PG + 'lightstep_propagator.cpp ' + PG + 'b3_propagator.cpp ' + PG + 'envoy_propagator.cpp ' + PG + 'trace_context_propagator.cpp ' + PG + 'trace_context.cpp ' + PG + 'cloud_trace_propagator.cpp ' + PG + 'baggage_propagator.cpp',
     [('writers of each format', PG + 'trace_context.cpp')],
     'differential against an independent writer of the formats', SAMPLE)

prop('P18', 'Child spans inherit trace, sampling and baggage from their parents',
     'A span started with references joins the trace of its first valid reference, and has a new span id, the parent\'s sampling decision, trace state and baggage; a span without references starts a new trace. '
     'Baggage set on a span reaches every later descendant in any process but never its ancestors or siblings, and a sampling.priority tag changes the decision of that span and its later children only.',
     'histories inputs', 'every forest of spans, of either span implementation, with carrier hops between tracers, tags and baggage changes at any time',
     'Tests look at one parent and one child.',
     TR + 'span.cpp ' + TR + 'legacy/legacy_span.cpp ' + TR + 'immutable_span_context.cpp ' + TR + 'lightstep_span_context.cpp ' + TR + 'utility.cpp ' + TR + 'baggage_flat_map.h',
     [('reference selection and merging of baggage', TR + 'span.cpp')],
     'stateful span histories against a model of contexts', SAMPLE)

prop('P23', 'Chunk framing is exact and reads back',
     'The HTTP chunk header written for any size is hexadecimal of fixed width and line ending as specified, and reading it back yields the size with nothing else consumed; a body of chunks reads back to its data and ends exactly at the terminator. '
     'A malformed chunk header is rejected.',
     'inputs', 'every size and every division into chunks and reads',
     'Tests frame two sizes.',
     'src/common/chunked_http_framing.cpp src/common/chunked_http_framing.h src/common/hex_conversion.cpp',
     [('header stream', 'src/common/chunked_http_framing.cpp')],
     'round trip; reference chunked decoder', SAMPLE)

prop('P24', 'A status line is parsed the same however it is split',
     'A well-formed HTTP status line yields its status code and reason exactly when its line ending has arrived, whatever pieces it arrives in and whatever follows it; a malformed one is reported as an error, and any bytes are read safely. '
     'After a reset the parser is as new.',
     'inputs histories', 'every status line, every split into pieces, arbitrary bytes, several responses in turn',
     'Tests parse three literal lines.',
     'src/recorder/stream_recorder/status_line_parser.cpp',
     [('incremental line accumulation', 'src/recorder/stream_recorder/status_line_parser.cpp')],
     'metamorphic over splits; reference reading of the line', SAMPLE)

prop('P26', 'A JSON configuration means what its schema says',
     'A JSON document valid under the configuration schema yields options with exactly the values it gives and the documented default for everything it omits. '
     'An invalid document is rejected with a message and without crashing.',
     'inputs', 'every configuration: each field absent, default or set; invalid values and arbitrary text',
     'Tests use a few documents.',
     TR + 'json_options.cpp ' + TR + 'lightstep_tracer_factory.cpp lightstep-tracer-configuration/tracer_configuration.proto',
     [('field by field transfer', TR + 'json_options.cpp')],
     'generated documents against a model of the options', SAMPLE)

prop('P27', 'Hexadecimal conversion is exact and rejects what does not fit',
     'Every 64- and 128-bit number is written as the specified fixed-width or minimal hexadecimal text and reads back equal, and text is accepted exactly when it is an optionally padded hexadecimal number that fits. '
     'Any other text is rejected without reading outside it.',
     'inputs', 'every number and every string',
     'Tests convert a handful of numbers.',
     'src/common/hex_conversion.cpp src/common/hex_conversion.h',
     [('table-driven conversion', 'src/common/hex_conversion.cpp')],
     'differential against a reference reading; round trip', SAMPLE)

prop('P29', 'Log messages are delivered complete, once, and by level',
     'Every message at or above the configured level reaches the sink, or the standard error stream if there is none, exactly once, complete and in order with its level; messages below it never do. '
     'A throwing sink or failing formatter never reaches the caller, and the errors, warnings and infos of a collector response are all logged at their level.',
     'inputs histories', 'every level, text, kind of argument and failing sink or formatter; every response',
     'Tests log one message per level.',
     'src/common/logger.cpp src/common/logger.h src/recorder/transporter.cpp ' + TR + 'utility.cpp',
     [('level test and sink call', 'src/common/logger.h')],
     'generated logging histories against a model', SAMPLE)

prop('P28', 'Forking neither duplicates, loses nor mixes up spans',
     'When a process forks, every live recorder is told once before and once after the fork in each process, and destroyed ones never are. '
     'The child reports none of the spans and drops recorded before the fork and all it records afterwards, including spans started before the fork and finished in it; the parent loses none of its own. '
     'A connection to a satellite never carries the spans of two processes, and flushing works in both.',
     'histories fault_sequences', 'every tree of forks mixed with creating and destroying tracers, starting, finishing and flushing spans, with the satellite reachable or not',
     'The tests fork once with one span; nested forks, several recorders, drops, and connections that are not yet up at the fork are not sampled.',
     'src/recorder/fork_aware_recorder.cpp src/recorder/manual_recorder.cpp src/recorder/stream_recorder/stream_recorder.cpp src/common/platform/fork_unix.cpp',
     [('list of active recorders and handlers', 'src/recorder/fork_aware_recorder.cpp'), ('OnForkedChild', 'src/recorder/manual_recorder.cpp'), ('PrepareForFork, OnForkedParent, OnForkedChild', 'src/recorder/stream_recorder/stream_recorder.cpp')],
     'generated trees of real forks: a model in every process, and a satellite in a process of its own over loopback TCP',
     SAMPLE + 'The forking thread is the only user of the tracer, as documented.')

prop('P30', 'Options make the tracer they describe, or no tracer and a reason',
     'Whether a tracer is made depends only on what the options say about threads, streaming, encryption and the kind of transporter; a refusal is logged, leaks nothing and yields null, or through the plugin factory an error and a message. '
     'Every report carries the access token, one reporter id and exactly the configured tags, with the library\'s own tags winning over the user\'s and the user\'s component name over the default. '
     'Zero reporting period means the default, verbose alone decides the log level, and contexts made from ids carry exactly those ids, sampling flag and baggage.',
     'inputs configurations', 'every combination of options, tags, component names, transporters and observers; every configuration text and ABI version offered to the plugin',
     'Tests build a few fixed option sets and look at the result, not at the reports, logs and ownership that follow.',
     'src/tracer/tracer.cpp src/tracer/lightstep_tracer_factory.cpp src/tracer/dynamic_load.cpp src/recorder/serialization/report_request_header.cpp src/recorder/report_builder.cpp include/lightstep/tracer.h',
     [('choice of recorder, default tags', 'src/tracer/tracer.cpp'), ('entry point of the plugin', 'src/tracer/dynamic_load.cpp'), ('report headers', 'src/recorder/serialization/report_request_header.cpp')],
     'generated options against a decision table and a model of the report header', SAMPLE)

prop('P31', 'Spans and tracers may be used by several threads at once',
     'Whatever threads do to a span at the same time, its report is what it held at one single moment of finishing: every step a thread did before that is there, whole and in that thread\'s order, nothing done after it is, and each span is reported exactly once even when several threads finish it together. '
     'Contexts, baggage and headers read meanwhile hold only whole values that were set. '
     'Tracers started, propagated, flushed and closed by several threads give unique ids, and with room for all report every span exactly once. No data race is involved.',
     'schedules histories', 'every interleaving of tags, logs, names, baggage, injections, children and finishes of shared spans of both implementations on several threads; tracers with and without a thread of their own',
     'Tests use spans from one thread.',
     TR + 'span.cpp ' + TR + 'legacy/legacy_span.cpp src/common/spin_lock_mutex.h src/recorder/auto_recorder.cpp src/recorder/manual_recorder.cpp',
     [('lock and finished flag', TR + 'span.cpp'), ('lock and finished flag', TR + 'legacy/legacy_span.cpp'), ('spin lock', 'src/common/spin_lock_mutex.h')],
     'generated programs on real threads against a cut-point oracle of the report, under ASan and TSan',
     SAMPLE + 'Interleavings are those the operating system makes.')

prop('P32', 'Events, timers and timeouts run when due, and never once removed',
     'On an event loop, an added event runs when its descriptor is ready or its timeout has passed, with its own descriptor, flags and context, no earlier and, while the loop runs, no more than its resolution later. '
     'A timer runs every interval from its creation or last reset; a one-shot timeout runs once. '
     'A removed, stopped, destroyed or moved-from event never runs, whatever is done inside callbacks; moving keeps an event or a loop as it was. '
     'A loop ends when told to or when nothing is left to wait for. What cannot be made or added throws, and nothing leaks.',
     'histories inputs fault_sequences', 'every history of events on sockets, timers and timeouts added, removed, reset, moved and destroyed from outside the loop and from callbacks, of peers that write, read and close, and of every duration; failures of the library',
     'Tests add one event or timer and see it run.',
     'src/network/event.cpp src/network/event.h src/network/timer_event.cpp src/network/timer_event.h src/network/event_base.cpp src/network/event_base.h src/common/utility.cpp src/common/utility.h',
     [('ownership and failures', 'src/network/event.cpp'), ('periodic timers', 'src/network/timer_event.cpp'), ('loop and timeouts', 'src/network/event_base.cpp'), ('durations', 'src/common/utility.cpp')],
     'stateful model-based histories on the real event library in virtual time', SAMPLE + 'Relative to the libevent installed here; signal events are not generated.')

prop('P33', 'The binary carrier round-trips and its stream form agrees',
     'A context injected into a binary stream or carrier message extracts to the same trace id, span id, sampling and baggage, and the two forms hold the same message. '
     'Absent data yields no context, and truncated, corrupted or failing streams yield an error, never a crash or an invented context.',
     'inputs fault_sequences', 'every context, every truncation and corruption, failing streams',
     'Tests round-trip one context and one broken stream.',
     PG + 'binary_propagation.cpp ' + TR + 'binary_carrier.cpp lightstep-tracer-common/lightstep_carrier.proto',
     [('carrier message', PG + 'binary_propagation.cpp')],
     'round trip, mutation of encoded bytes against the protobuf parser, injected stream failures', SAMPLE)


prop('P19', 'A manual recorder delivers every accepted span or counts its loss',
     'Every span given to a manual recorder is, at any moment, buffered, in a report handed to the transporter, delivered, or counted as dropped; none is delivered twice or out of order. '
     'Flushing takes everything buffered into one report with the drops so far; a failed report\'s spans and drops are counted into a later one. A span that finds the buffer full is first announced to the transporter, and kept if that made room.',
     'histories schedules fault_sequences', 'every history of spans, flushes and transporter completions in any order (at once, later, failing), every buffer size, concurrent recording threads, a transporter that calls back into the recorder',
     'Tests flush a few spans through a transporter that succeeds or fails at once.',
     'src/recorder/manual_recorder.cpp src/recorder/serialization/report_request.cpp src/recorder/metrics_tracker.cpp src/common/circular_buffer.h',
     [('flush and completion', 'src/recorder/manual_recorder.cpp')],
     'model-based histories with a scripted transporter; real threads under ASan and TSan with a conservation law', SAMPLE)

prop('P20', 'The background recorder reports on time and accounts for every span',
     'A threaded recorder sends what is buffered when the buffer fills and when the reporting period elapses, one report at a time and in order; every recorded span is delivered exactly once or counted as dropped in a later report. '
     'Flush returns true only when everything recorded before it has been handed over, false no later than its timeout, and a disable command of the collector ends reporting while recording stays harmless. Timeouts and reporting periods may be as long as their types allow, and the buffer of any capacity, none included.',
     'histories schedules fault_sequences', 'every history of spans, flushes, slow, failing and disabling reports in virtual time; concurrent recording and flushing threads',
     'Tests script a few reports with a mock condition variable; intervals, overlaps and concurrent use are not generated.',
     'src/recorder/auto_recorder.cpp src/recorder/auto_recorder.h src/recorder/report_builder.cpp',
     [('write loop and sequence numbers', 'src/recorder/auto_recorder.cpp')],
     'model-based simulation in virtual time; real threads under ASan and TSan with a conservation law', SAMPLE)

prop('P21', 'The single-threaded legacy recorder has one report in flight at a time',
     'Spans recorded through the legacy manual recorder are reported in order, each exactly once or counted as dropped in a later report, with at most one report in flight; a flush while one is in flight starts none. '
     'Completion or failure at any later time, or a transporter that throws, leaves the recorder able to send again.',
     'histories fault_sequences', 'every history of spans, flushes, completions and failures, every buffer size',
     'Tests script one or two reports.',
     'src/recorder/legacy_manual_recorder.cpp src/recorder/report_builder.cpp',
     [('in-flight report and sequence numbers', 'src/recorder/legacy_manual_recorder.cpp')],
     'model-based histories with a scripted transporter', SAMPLE)

SR = 'src/recorder/stream_recorder/'
prop('P22', 'The streaming recorder delivers or counts every span and heals itself',
     'Over any history of recording, flushing, forking, resets, refusals, stalls and slow or erroneous answers of the satellites, every recorded span is sent in full exactly once, still buffered, or counted as dropped, and every session is one well-formed request. '
     'At most the configured number of connections is open; failures are followed by a reconnect, never sooner than the retry period; once satellites are healthy all connections come back, nothing more is lost, and buffered spans leave within a reporting period, a poll after a flush, or when the buffer fills. '
     'Flush returns true only when the buffer was emptied and false no earlier than its timeout; shutdown ends every session, cleanly with a healthy satellite, within the graceful timeout. Timeouts and the reporting period may be as long as their types allow, and a connection closed by a satellite never ends the process.',
     'histories fault_sequences schedules crash_points', 'every history of spans, flushes, forks, shutdowns and time, with every satellite behaviour: refused, late or partial writes, stalls, resets, early, slow, split or wrong answers, at any moment of virtual time',
     'Tests run one connection to a mock satellite on loopback with a handful of fixed behaviours and real time.',
     SR + 'satellite_connection.cpp ' + SR + 'stream_recorder.cpp ' + SR + 'stream_recorder_impl.cpp ' + SR + 'satellite_streamer.cpp ' + SR + 'connection_stream.cpp',
     [('connection life cycle', SR + 'satellite_connection.cpp'), ('flush, shutdown and fork', SR + 'stream_recorder.cpp')],
     'discrete-event simulation: the real recorder over fake sockets and a fake event loop in virtual time, with generated faults; conservation law and session parser as oracle', SAMPLE)

prop('P25', 'Connections spread over all endpoints and their current addresses',
     'Requests for an endpoint rotate over all configured endpoints, each naming its own host and port and one of the addresses of the last successful resolution of that host, IPv4 before IPv6, in rotation. '
     'The manager becomes ready exactly once, when the first host resolves; resolutions are refreshed within the configured window, retried after a failure, and a failed or empty one keeps the addresses already known.',
     'histories fault_sequences', 'every set of endpoints, every sequence of resolutions with addresses, without, failing or late, and requests at any time',
     'Tests resolve one or two fixed names.',
     SR + 'satellite_endpoint_manager.cpp ' + SR + 'satellite_dns_resolution_manager.cpp ' + SR + 'utility.cpp',
     [('rotation', SR + 'satellite_endpoint_manager.cpp'), ('refresh and retry', SR + 'satellite_dns_resolution_manager.cpp')],
     'discrete-event simulation with a scripted resolver and a reference model of the rotation', SAMPLE)


prop('P36', 'Every host name resolution ends once, with the addresses the server sent',
     'Each resolution asked of the DNS resolver calls its callback exactly once, whatever the network does: with the addresses of the asked family that a valid reply of the configured servers carried, in full, or with an error or no address. '
     'A lost, late, repeated, foreign or garbled packet, a refused or broken connection delays the result by no more than the configured timeouts and retries, and never hides a valid reply that arrives in time. '
     'Destroying the resolver ends what is pending and closes every socket; iterating the addresses stops when told to. Without the DNS library, exactly the literal addresses of the asked family resolve, to themselves.',
     'inputs fault_sequences histories', 'every script of replies (answers, aliases, errors, truncation to TCP, wrong ids, questions or senders, garbage, losses, delays), every set of servers, timeout and history of overlapping resolutions, destruction at any time',
     'The tests ask a mock server for one name at a time and get one packet, or none, back.',
     'src/network/ares_dns_resolver/ares_dns_resolver.cpp src/network/no_dns_resolver.cpp src/network/dns_resolver.h src/network/timer_event.cpp src/network/event.cpp',
     [('timer and socket events', 'src/network/ares_dns_resolver/ares_dns_resolver.cpp'), ('plain addresses', 'src/network/no_dns_resolver.cpp')],
     'differential in virtual time: the same scripted server and history through the resolver and through the library driven by a plain polling loop', SAMPLE + 'Relative to the c-ares library installed here.')


prop('P37', 'Running out of memory loses the item at hand and nothing else',
     'When an allocation by the library fails (std::bad_alloc), no API call terminates the program or throws what it promised not to. Constructing a tracer gives nullptr, or a tracer that works; starting a span gives nullptr or a span; '
     'setting tags, baggage, operation names and logging lose at most what was being set; injecting and extracting return an error; a span that can not be recorded in full is left out, never reported in part; '
     'a flush reports failure. Spans, reports and calls before and after are not affected, every finished span none of whose calls failed is reported once or counted as dropped, the counts of sent and dropped spans stay true, and nothing is leaked. '
     'Assumed: the C libraries, protobuf maps, the JSON parser and the standard thread support do not run out of memory themselves; what the AutoRecorder does once its own thread has died of it is to drop.',
     'fault_sequences inputs histories', 'every history of API calls, with any one or several successive allocations of any call failing, on every kind of recorder',
     'The tests never let an allocation fail.',
     'src/tracer/span.cpp src/tracer/legacy/legacy_span.cpp src/tracer/tracer_impl.cpp src/tracer/legacy/legacy_tracer_impl.cpp src/tracer/tracer.cpp src/tracer/propagation/ '
     'src/recorder/manual_recorder.cpp src/recorder/legacy_manual_recorder.cpp src/recorder/auto_recorder.cpp src/recorder/report_builder.cpp src/recorder/stream_recorder/stream_recorder.cpp '
     'src/recorder/serialization/report_request_header.cpp src/common/random.cpp src/common/circular_buffer.h',
     [('spans', 'src/tracer/span.cpp'), ('factories', 'src/tracer/tracer.cpp'), ('recorders', 'src/recorder/manual_recorder.cpp')],
     'generated histories with injected allocation failures; reference model of what must be kept, what may be lost and how it is counted; the same calls without failures show that the model is not vacuous', SAMPLE)

prop('P38', 'The gRPC transport sends each report once, as configured and in time',
     'A tracer that is given no transporter (the default build) sends every report, unchanged, as exactly one unary Report call to collector_host:collector_port whatever the global locale: '
     'unencrypted if and only if collector_plaintext, otherwise encrypted and checked against ssl_root_certificates. Every call has a context of its own and a deadline of report_timeout from when it is made, and does not wait for a collector that is down. '
     'A call with status OK is a success, hands back exactly the response of the collector, and logs nothing; any other status is a failure, with its message logged as an error and with the standard error code of its status where there is one. '
     'So every finished span is delivered once or counted as dropped in a later report, whatever the calls end with, a collector that never answers delays reports but does not end them, and nothing is sent after a response that disables the tracer.',
     'inputs fault_sequences histories', 'every set of options, every report, every sequence of call outcomes (any status, late or no answers)',
     'The transporter is compiled by no test: gRPC is not there.',
     'src/recorder/grpc_transporter/grpc_transporter.cpp src/recorder/grpc_transporter.h src/recorder/auto_recorder.cpp src/tracer/tracer.cpp include/lightstep/tracer.h',
     [('transporter', 'src/recorder/grpc_transporter/grpc_transporter.cpp'), ('tracer', 'src/tracer/tracer.cpp')],
     'generated options, reports and call outcomes against a stand-in for gRPC that records channels, contexts and requests; generated threads and outcomes against a whole tracer, every span accounted for, also under ThreadSanitizer', SAMPLE)


def main():
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for p, _, _ in sorted(P, key=lambda x: x[0]['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 lib/setup.py',
        'hooks': {'guard': 'VERIF_HOOKS',
                  'enable': 'no hooks are needed: nothing in /repo is guarded '
                            'and the checks build it as it is',
                  'source_commits': []},
        'checks': [], 'not_applicable': NOT_APPLICABLE}
    for p, tech, note in sorted(P, key=lambda x: x[0]['id']):
        i = p['id']
        if i not in checks.CHECKS:
            if not any(n['property'] == i for n in NOT_APPLICABLE):
                print('no check for', i)
            continue
        man['checks'].append({
            'property': i,
            'quick_cmd': 'python3 lib/run.py %s quick' % i,
            'thorough_cmd': 'python3 lib/run.py %s thorough' % i,
            'technique': tech, 'level': 'exploration', 'level_note': note})
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for i in checks.CHECKS:
        if not any(p['id'] == i for p, _, _ in P):
            print('no property text for', i)


NOT_APPLICABLE = []
if __name__ == '__main__':
    main()
