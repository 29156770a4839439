"""What decides each property: harness, build, sub-properties and case counts."""

COMMON = ['common/', 'network/', 'recorder/metrics_tracker',
          'recorder/serialization/', 'recorder/stream_recorder/utility',
          'recorder/stream_recorder/span_stream']
NONE = ['nothing']

CHECKS = {}

CHECKS['P01'] = {
    'rule': 'sequential: the buffer wrapped around at least once; '
            'pointer/range: more than the empty case; schedules: at least '
            'four context switches and at least one delivery or rejection; '
            'threads: two or more producers and more elements delivered than '
            'the capacity',
    'assumptions': [
        'generated schedules are sequentially consistent; weaker memory '
        'orders are covered by ThreadSanitizer on real threads',
        'one consumer thread, as documented'],
    'parts': [
        {'harness': 'circular_buffer', 'groups': NONE, 'tracer': False,
         'props': [('sequential', 80000, 640000),
                   ('owning_pointer', 80000, 640000),
                   ('range_view', 80000, 640000),
                   ('threads', 1600, 30000)]},
        {'harness': 'circular_buffer', 'groups': NONE, 'tracer': False,
         'suffix': '_sched', 'optional': True, 'flags': ['-DSCHED'],
         'props': [('schedules', 60000, 1500000)]},
        {'harness': 'circular_buffer', 'groups': NONE, 'tracer': False,
         'config': 'tsan', 'workers': 4,
         'props': [('threads', 600, 12000)]},
    ],
}

STREAMS = {'harness': 'streams',
           'groups': ['common/', 'network/vector_write',
                      'recorder/serialization/'],
           'wrap': ['writev', 'sendmsg', 'write', 'send']}


def streams(*props):
    return dict(STREAMS, props=list(props))


CHECKS['P02'] = {
    'rule': 'more than one block of output and at least one partial BackUp',
    'parts': [streams(('chained_stream', 400000, 3200000))],
}
CHECKS['P03'] = {
    'rule': 'several streams of more than 20 bytes in all and one consumption '
            'that ends inside them; memory stream: more than 10 bytes',
    'parts': [streams(('fragment_streams', 200000, 1600000),
                      ('memory_stream', 100000, 800000),
                      ('c_string_fragment', 50000, 400000))],
}
CHECKS['P04'] = {
    'rule': 'more than two fragments and at least one short or refused write',
    'assumptions': ['the socket accepts a prefix of what one system call '
                    'offers, as POSIX requires'],
    'parts': [streams(('vector_write', 120000, 960000),
                      ('vector_write_socket', 8000, 100000))],
}
CHECKS['P05'] = {
    'rule': 'a request with at least two spans',
    'parts': [streams(('report_request', 64000, 512000))],
}
CHECKS['P07'] = {
    'rule': 'at least one consumption ended inside a span',
    'parts': [{'harness': 'span_stream', 'suffix': '_only',
               'flags': ['-DNO_CONNECTION'],
               'groups': ['common/', 'recorder/metrics_tracker',
                          'recorder/stream_recorder/span_stream'],
               'props': [('span_stream', 120000, 960000)]}],
}
CHECKS['P35'] = {
    'rule': 'at least two spans, one split write and one reset session',
    'assumptions': ['a writer that fails has accepted a prefix of what it was '
                    'offered and consumed exactly that prefix'],
    'parts': [{'harness': 'span_stream',
               'groups': ['common/', 'recorder/metrics_tracker',
                          'recorder/serialization/',
                          'recorder/stream_recorder/span_stream',
                          'recorder/stream_recorder/connection_stream',
                          'recorder/stream_recorder/host_header'],
               'props': [('connection_stream', 60000, 500000)]}],
}

CORE = {'harness': 'core', 'groups': COMMON, 'wrap': ['close']}


def core(*props, **kw):
    return dict(CORE, props=list(props), **kw)


CHECKS['P06'] = {
    'rule': 'history: spans dropped and a consumed count given back; message: '
            'a count of more than one varint byte; threads: something dropped',
    'parts': [core(('metrics_history', 300000, 2400000),
                   ('metrics_message', 300000, 2400000),
                   ('metrics_threads', 600, 12000)),
              {'harness': 'core', 'suffix': '_tsan', 'groups': COMMON,
               'wrap': ['close'], 'config': 'tsan', 'workers': 4,
               'props': [('metrics_threads', 300, 6000)]}],
}
CHECKS['P08'] = {
    'rule': 'non-zero offset and time; a time with a fraction of a second; '
            'clocks that advance between readings',
    'assumptions': ['times within the range of a 64-bit count of nanoseconds'],
    'parts': [core(('clock_conversion', 1000000, 8000000),
                   ('clock_delta', 1000000, 8000000),
                   ('timestamp_format', 1000000, 8000000),
                   ('timeval', 1000000, 8000000))],
}
CHECKS['P09'] = {
    'rule': 'ids: at least one fork; generator: a state that is not zero; '
            'duration: a range of more than one value; traversal: stopped '
            'after more than one index',
    'assumptions': ['std::random_device does not repeat itself'],
    'parts': [core(('generator_reference', 300000, 2400000),
                   ('random_duration', 180000, 1440000),
                   ('random_traversal', 120000, 960000),
                   ('ids_across_forks', 3000, 40000))],
}
CHECKS['P10'] = {
    'rule': 'two addresses built in different ways; text: a valid address',
    'parts': [core(('ip_address', 750000, 6000000),
                   ('ip_address_text', 750000, 6000000))],
}
CHECKS['P11'] = {
    'rule': 'at least two moves; a connection established or refused',
    'parts': [core(('socket_ownership', 40000, 400000),
                   ('socket_connect', 6000, 60000))],
}
CHECKS['P12'] = {
    'rule': 'a key replaced in a map of more than two; a reference copied',
    'parts': [core(('flat_map', 600000, 4800000),
                   ('function_ref', 600000, 4800000))],
}
CHECKS['P34'] = {
    'rule': 'several fields over several output buffers; a number of more '
            'than 56 bits; a message and field number of several varint bytes',
    'parts': [core(('wire_fields', 180000, 1440000),
                   ('big_varint', 1200000, 9600000),
                   ('embedded_message', 60000, 600000),
                   ('spans_header', 600000, 4800000))],
}

TEXT = {'harness': 'text',
        'groups': ['common/', 'recorder/stream_recorder/status_line_parser',
                   'tracer/json_options', 'tracer/serialization']}


def text(*props, **kw):
    return dict(TEXT, props=list(props), **kw)


CHECKS['P14'] = {
    'rule': 'an array or dictionary; a sequence that mixes compound and '
            'scalar values',
    'assumptions': ['strings are valid UTF-8, as protobuf requires'],
    'parts': [text(('value_encoding', 600000, 4800000),
                   ('value_sequences', 300000, 2400000))],
}
CHECKS['P23'] = {
    'rule': 'a chunk size of several digits; a body of several chunks',
    'parts': [text(('chunk_header', 750000, 6000000),
                   ('chunked_body', 300000, 2400000))],
}
CHECKS['P24'] = {
    'rule': 'a status line that arrives in more than one piece; arbitrary '
            'bytes that make a complete status line',
    'parts': [text(('status_line', 600000, 4800000),
                   ('status_line_bytes', 600000, 4800000))],
}
CHECKS['P26'] = {
    'rule': 'an accepted configuration with endpoints, modes or tags',
    'parts': [text(('json_configuration', 120000, 960000))],
}
CHECKS['P27'] = {
    'rule': 'an accepted number other than zero; a number of more than 64 '
            'bits written',
    'parts': [text(('hex_parse', 1500000, 12000000),
                   ('hex_normalized', 1000000, 8000000),
                   ('hex_write', 750000, 6000000))],
}
CHECKS['P29'] = {
    'rule': 'some messages delivered and some held back; several messages of '
            'a response; lines of several threads mixed',
    'parts': [text(('logger_levels', 300000, 2400000),
                   ('logger_default', 120000, 960000),
                   ('logger_threads', 20000, 300000, 4),
                   ('report_response', 180000, 1440000))],
}

# Everything a tracer without the stream recorder is made of.
TRACER = {'groups': ['common/', 'tracer/', 'recorder/serialization/',
                     'recorder/auto_recorder', 'recorder/fork_aware_recorder',
                     'recorder/legacy_manual_recorder',
                     'recorder/manual_recorder', 'recorder/metrics_tracker',
                     'recorder/no_grpc_transporter', 'recorder/report_builder',
                     'recorder/transporter', '=recorder/no_stream_recorder']}


def tracer(harness, *props, **kw):
    return dict(TRACER, harness=harness, props=list(props), **kw)


CHECKS['P13'] = {
    'locales': True,
    'rule': 'at least two reported spans with more than one tag or log',
    'parts': [tracer('tracer', ('span_report', 80000, 640000))],
}
CHECKS['P18'] = {
    'locales': True,
    'rule': 'at least one child span and one hop through a carrier',
    'parts': [tracer('tracer', ('span_inheritance', 60000, 480000))],
}

PROPAGATION = 'propagation'
CHECKS['P15'] = {
    'locales': True,
    'rule': 'a context with baggage over more than three headers; a carrier '
            'that fails after its first header',
    'assumptions': ['header values reach the other side as they were written; '
                    'strings are valid UTF-8, as protobuf requires'],
    'parts': [tracer(PROPAGATION, ('context_round_trip', 120000, 960000),
                     ('carrier_failures', 80000, 640000))],
}
CHECKS['P16'] = {
    'locales': True,
    'rule': 'headers of at least one format that are not simply ignored',
    'parts': [tracer(PROPAGATION, ('extract_any_headers', 240000, 1920000))],
}
CHECKS['P17'] = {
    'locales': True,
    'rule': 'more than three headers and baggage; more than two headers',
    'parts': [tracer(PROPAGATION, ('injected_headers', 120000, 960000),
                     ('foreign_headers', 120000, 960000))],
}
CHECKS['P33'] = {
    'locales': True,
    'rule': 'a context with baggage',
    'parts': [tracer(PROPAGATION, ('binary_stream', 120000, 960000),
                     ('binary_message', 80000, 640000))],
}

RECORDERS = 'recorders'
CHECKS['P19'] = {
    'rule': 'several reports, a full buffer and a report completed later; '
            'several recording threads and several reports',
    'parts': [tracer(RECORDERS, ('manual_history', 150000, 2000000),
                     ('manual_threads', 800, 15000)),
              tracer(RECORDERS, ('manual_threads', 300, 6000),
                     config='tsan', suffix='_tsan', workers=4)],
}
CHECKS['P20'] = {
    'rule': 'several reports, a flush and a rejected span; several recording '
            'threads and several reports',
    'assumptions': ['in virtual time, a thread that is not waiting takes none'],
    'parts': [tracer(RECORDERS, ('auto_history', 80000, 1000000),
                     ('auto_threads', 2000, 40000)),
              tracer(RECORDERS, ('auto_threads', 1000, 20000),
                     config='tsan', suffix='_tsan', workers=4)],
}
CHECKS['P21'] = {
    'rule': 'several reports, one of them failed',
    'assumptions': ['calls are not concurrent, as documented'],
    'parts': [tracer(RECORDERS, ('legacy_history', 150000, 2000000))],
}

SIMNET_WRAP = ['event_base_new', 'event_base_free', 'event_base_loopbreak',
               'event_base_dispatch', 'event_new', 'event_add', 'event_del',
               'event_pending', 'event_free', 'event_base_once', 'socket',
               'fcntl', 'setsockopt', 'getsockopt', 'connect', 'close',
               'writev', 'sendmsg', 'write', 'send', 'read', 'recv',
               'pthread_cond_clockwait', 'pthread_cond_timedwait']
# The stream recorder without the real resolver.
STREAM_SIM = {'harness': 'stream_sim', 'wrap': SIMNET_WRAP,
              'groups': ['common/', 'network/event', 'network/timer_event',
                         'network/ip_address', 'network/socket',
                         'network/vector_write', 'recorder/stream_recorder/',
                         'recorder/serialization/', 'recorder/metrics_tracker',
                         'recorder/fork_aware_recorder', 'tracer/']}
CHECKS['P25'] = {
    'rule': 'several hosts, at least one whole round of requests and more '
            'than two changes of addresses; endpoints that share a host',
    'assumptions': ['the resolver answers every query once'],
    'parts': [core(('separate_endpoints', 300000, 2400000)),
              dict(STREAM_SIM, suffix='_endpoints',
                   flags=['-DENDPOINTS_ONLY'],
                   props=[('satellite_endpoints', 150000, 1200000)])],
}
CHECKS['P22'] = {
    'rule': 'more than two spans and some connections renewed; with faults, '
            'more than one faulty session',
    'assumptions': ['the resolver answers every query once',
                    'a connected socket takes a prefix of what it is offered'],
    'parts': [dict(STREAM_SIM, props=[('stream_recorder', 12000, 200000)])],
}
CHECKS['P08']['parts'].append(
    dict(STREAM_SIM, props=[('recorder_clock', 12000, 200000)]))

# Every recorder, the stream recorder with the resolver for plain addresses.
FULL = {'groups': ['common/', 'network/event', 'network/timer_event',
                   'network/ip_address', 'network/socket',
                   'network/vector_write', '=network/no_dns_resolver',
                   'recorder/auto_recorder', 'recorder/fork_aware_recorder',
                   'recorder/legacy_manual_recorder',
                   'recorder/manual_recorder', 'recorder/metrics_tracker',
                   'recorder/no_grpc_transporter', 'recorder/report_builder',
                   'recorder/transporter', 'recorder/serialization/',
                   'recorder/stream_recorder/', 'tracer/']}
CHECKS['P30'] = {
    'rule': 'a refused combination of options, a zero period or more than one '
            'tag; a context with baggage; a tracer made from JSON; every '
            'executable',
    'parts': [dict(FULL, harness='options',
                   props=[('tracer_options', 6000, 60000),
                          ('program_names', 800, 8000),
                          ('context_ids', 80000, 640000),
                          ('plugin', 6000, 48000)])],
}
CHECKS['P28'] = {
    'rule': 'a fork after at least two other steps; a fork of a stream tracer '
            'that has recorded spans',
    'assumptions': ['the forking thread is the only one that uses the tracer, '
                    'as documented',
                    'loopback TCP delivers what was accepted by the kernel'],
    'parts': [dict(FULL, harness='fork',
                   props=[('fork_handlers', 2000, 30000),
                          ('manual_fork', 2500, 30000),
                          ('stream_fork', 1200, 20000)])],
}

CHECKS['P36'] = {
    'rule': 'several queries, some of them lost or followed by packets that '
            'are no answer, and some answered; an address of the family '
            'asked for',
    'assumptions': ['the c-ares library, driven as its documentation says, '
                    'is right'],
    'parts': [{'harness': 'dns', 'tracer': True,
               'groups': ['common/', 'network/event', 'network/timer_event',
                          'network/ip_address', 'network/ares_dns_resolver/'],
               'wrap': SIMNET_WRAP + ['ares_init_options'],
               'props': [('resolutions', 60000, 1200000)]},
              {'harness': 'dns', 'suffix': '_plain', 'tracer': True,
               'flags': ['-DNO_ARES'],
               'groups': ['common/', 'network/event', 'network/ip_address',
                          '=network/no_dns_resolver'],
               'props': [('literal_addresses', 60000, 400000)]}],
}

THREADS = {'harness': 'tracer_threads', 'groups': FULL['groups']}
CHECKS['P31'] = {
    'rule': 'a shared span with more than two tags and logs of several '
            'threads; more than ten spans on several threads',
    'assumptions': ['interleavings are those of the operating system'],
    'parts': [dict(THREADS, props=[('span_threads', 8000, 150000),
                                   ('finish_race', 2500, 40000, 2),
                                   ('tracer_threads', 2500, 40000)]),
              dict(THREADS, suffix='_tsan', config='tsan', workers=4,
                   props=[('span_threads', 3000, 60000),
                          ('tracer_threads', 1000, 20000)])],
}

CHECKS['P32'] = {
    'rule': 'several socket callbacks, several timeouts and changes made from '
            'callbacks; a duration with a part of a second',
    'assumptions': ['the event library keeps to its documentation',
                    'time passes in the loop only while it waits or in '
                    'callbacks'],
    'parts': [{'harness': 'events', 'tracer': True,
               'groups': ['common/', 'network/event', 'network/timer_event'],
               'props': [('event_loop', 360000, 2880000),
                         ('durations', 120000, 960000)]}],
}

GRPC = {'harness': 'grpc', 'groups': [
    '=recorder/grpc_transporter/grpc_transporter' if 'no_grpc' in g else g
    for g in TRACER['groups']]}
CHECKS['P38'] = {
    'rule': 'calls that succeed and calls that fail; several reports, one of '
            'them failed',
    'assumptions': ['gRPC behaves as the stand-in of shim/grpc: a call takes '
                    'the deadline and the wait_for_ready of its context, and '
                    'ends with a status'],
    'parts': [dict(GRPC, props=[('grpc_transporter', 150000, 1500000),
                                ('grpc_tracer', 4000, 60000)]),
              dict(GRPC, config='tsan', suffix='_tsan', workers=4,
                   props=[('grpc_tracer', 800, 12000)])],
}
CHECKS['P37'] = {
    'rule': 'an allocation failed in at least one call',
    'assumptions': ['operator new throws when it fails; the C libraries used '
                    'do not run out of memory themselves'],
    'parts': [dict(FULL, harness='oom', config='oom',
                   wrap=['_ZN6google8protobuf4util19JsonStringToMessageENS0_'
                         '20stringpiece_internal11StringPieceEPNS0_7MessageE'
                         'RKNS1_16JsonParseOptionsE'],
                   props=[('oom_spans', 60000, 600000),
                          ('oom_construct', 60000, 600000),
                          ('oom_thread', 40000, 400000)]),
              dict(STREAM_SIM, suffix='_oom', config='oom',
                   flags=['-DSIM_OOM'],
                   props=[('oom_stream', 12000, 200000)])],
}
