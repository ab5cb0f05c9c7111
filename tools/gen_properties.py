"""Writes /verif/properties.jsonl (one place where the statements are edited)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


J = 'jaeger_client/'

prop('C01', 'Text-map and HTTP-header propagation round trip',
     '''Injecting a span context into a text-map or HTTP-header carrier and extracting it again yields
     the same trace id, span id, parent id and flags, and exactly the injected baggage items, for every
     context with ids in range and every baggage of string values (having a UTF-8 encoding) under lower-case ASCII keys.
     This holds whatever unrelated entries the carrier already contained, in whatever order the entries are visited,
     for URL-encoded and plain carriers, and for custom header names and prefixes (written with dashes or underscores);
     the unrelated entries are left as they were.''',
     ['inputs', 'configurations'],
     '''every trace id in 1..2^128-1, span id in 1..2^64-1, parent id absent or in 1..2^64-1, flags 0..255, any number of
     baggage items, any other carrier content whose names do not collide with the configured headers''',
     '''The tests inject and extract a handful of literal contexts with one or two baggage items; the claim quantifies
     over all ids, all baggage dictionaries of any size and all surrounding carrier content and orders.''',
     [J + 'codecs.py', J + 'tracer.py', J + 'constants.py'],
     [('TextCodec.inject', J + 'codecs.py'), ('TextCodec.extract', J + 'codecs.py'),
      ('span_context_to_string / span_context_from_string', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'])

prop('C02', 'Trace-context header grammar',
     '''A trace-context header value is accepted exactly when it is a string, or a one-element list holding a string, of four
     colon-separated fields that all parse as base-16 integers, with trace id in 1..2^128-1, span id in 1..2^64-1,
     parent id in 0..2^64-1 and flags in 0..255; the accepted numbers are returned unchanged, parent 0 meaning no parent.
     Any other value of any type is rejected with the OpenTracing corrupted-context exception and no other error.
     Encoding a context writes the four numbers as unpadded lower-case hexadecimal, parent 0 when absent.''',
     ['inputs'], 'every Python value used as header value (any string, list, tuple, bytes, number, None)',
     '''Tests try about fifteen literal bad headers; acceptance and rejection must be right for every string and type, and
     the numeric limits only show at values the tests do not contain.''',
     [J + 'codecs.py'], [('span_context_from_string', J + 'codecs.py'), ('span_context_to_string', J + 'codecs.py')],
     ['Tracer.extract', 'Tracer.inject'])

prop('C03', 'Extraction from headers is case- and order-insensitive and total',
     '''When extracting from a text-map or HTTP-header carrier, header names match in any letter case, the order of the
     entries does not matter, and entries that are not trace-context, baggage or debug-id headers have no influence.
     A carrier with none of those headers yields no context; one without a trace-context header but with a debug id or baggage
     yields a context with no trace that carries exactly that debug id and baggage; baggage names come out lower-cased without the prefix.
     The ad-hoc baggage header contributes each well-formed key=value item of its comma-separated list and ignores malformed items.''',
     ['inputs', 'configurations'], 'every carrier: any number of entries, any ASCII header names in any case and order, any string values',
     '''Tests use a few literal carriers with the headers in one fixed order and case.''',
     [J + 'codecs.py'], [('TextCodec.extract', J + 'codecs.py'), ('TextCodec._parse_baggage_header', J + 'codecs.py')],
     ['Tracer.extract'])

prop('C04', 'B3 propagation',
     '''B3 injection writes the trace id as zero-padded lower-case hex (at least 16 digits, 32 when 128-bit ids are enabled),
     the span id and, when there is one, the parent id as at least 16 digits, and announces a debug trace with the flags header
     or otherwise a sampled one with the sampled header, and nothing else.
     B3 extraction reads these headers back in any letter case and order, ignoring unrelated and null entries: ids unpadded or padded give the same numbers,
     a missing or zero trace or span id gives no context, and a value that is not an unsigned hexadecimal string is rejected
     with the OpenTracing corrupted-context exception and no other error.''',
     ['inputs', 'configurations'], 'all ids in range, all flag values 0..255, all header values of any type, any surrounding carrier entries',
     '''Tests cover six literal carriers; padding width, order, case and type errors must hold for all ids and values.''',
     [J + 'codecs.py'], [('B3Codec.inject', J + 'codecs.py'), ('B3Codec.extract', J + 'codecs.py'), ('header_to_hex', J + 'codecs.py')],
     ['B3Codec.inject', 'B3Codec.extract'])

prop('C05', 'Binary propagation layout and round trip',
     '''Binary injection appends to the carrier the big-endian 64-bit halves of the trace id, the 64-bit span id and parent id (0 when absent),
     one flags byte and a 32-bit item count, followed by one length-prefixed UTF-8 key and value per baggage item.
     Extracting such a carrier yields the same trace id (64- or 128-bit), span id, parent id, flags and baggage.''',
     ['inputs'], 'all ids in range, all flags 0..255, every baggage of strings',
     '''Tests round-trip three literal contexts.''',
     [J + 'codecs.py'], [('BinaryCodec.inject', J + 'codecs.py'), ('BinaryCodec.extract', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'])

prop('C06', 'Zipkin span-format propagation',
     '''Injecting in the Zipkin span format stores the trace id, span id, parent id and flags of the context under their
     four field names and touches nothing else in the carrier.
     Extracting from a dictionary or from an object with those four attributes returns a context with those same numbers (a parent id of 0 standing for no parent) and no baggage,
     no context when the trace id is missing or zero, and an invalid-carrier error when the object lacks any of the attributes.''',
     ['inputs'], 'all field values (including absent ones), any other dictionary content',
     '''Tests use one literal carrier of each kind.''',
     [J + 'codecs.py'], [('ZipkinCodec', J + 'codecs.py')], ['Tracer.inject', 'Tracer.extract'])

prop('C07', 'Format dispatch and carrier errors',
     '''Inject and extract use the codec registered for the requested format, with codecs supplied at construction taking precedence over the built-in ones
     and all other built-in formats remaining available; an unknown format raises the unsupported-format error.
     A carrier of the wrong kind raises the invalid-carrier error, and injecting something that is neither a span nor a span context raises ValueError;
     a span may be passed wherever a context is expected. Injection never changes the injected context.''',
     ['inputs', 'configurations'], 'every format value, carrier type, span or context, and every set of extra codecs',
     '''Tests check single literal examples of each error.''',
     [J + 'tracer.py', J + 'codecs.py'], [('Tracer.inject', J + 'tracer.py'), ('Tracer.extract', J + 'tracer.py'), ('Codec type checks', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'])

prop('C08', 'Child spans continue the trace of the right parent',
     '''A span started with a parent that belongs to a trace has the parent's trace id and flags, a copy of the parent's baggage, a freshly generated 64-bit span id
     and the parent's span id as parent id, except that a server span of a tracer configured for one span per RPC reuses the parent's span id and parent id; the sampler is not consulted.
     (Flags here and in C09 and C10 are those before the tags given for the new span are applied, see C11.)
     The parent is the explicit one if given, else the active span unless it is to be ignored, and if that is absent or has no trace the first reference that has a context;
     references without a context are dropped and the others recorded in order.''',
     ['inputs', 'configurations'], 'every parent context (any ids, flags, baggage), active span state, reference list of any length and tag set',
     '''Tests start a few children of literal parents; parent selection combines five inputs and identity must hold for all ids and flags.''',
     [J + 'tracer.py', J + 'span_context.py', J + 'span.py'], [('Tracer.start_span', J + 'tracer.py'), ('SpanContext.has_trace', J + 'span_context.py')],
     ['Tracer.start_span', 'Tracer.start_active_span', 'Span.context'])

prop('C09', 'Root spans: ids, sampling decision and sampler tags',
     '''A span started without any parent gets a random trace id of 64 bits, or 128 bits when so configured, a random 64-bit span id, no parent id and no baggage.
     The sampler is consulted exactly once, with that trace id and the operation name; if it accepts, exactly the sampled flag is set and every tag the sampler returned is recorded on the span
     (a clashing user tag being overridden), and if it declines the flags are 0 and nothing is recorded.''',
     ['inputs', 'configurations'], 'every sampler answer and tag set, every operation name and user tag set, both id widths',
     '''Tests use constant samplers with fixed tags and never check the arguments over all ids.''',
     [J + 'tracer.py', J + 'span.py'], [('Tracer.start_span', J + 'tracer.py')], ['Tracer.start_span', 'Span.context', 'Span.tags'])

prop('C10', 'Debug-id requests force a debug trace, subject to the throttler',
     '''A span started from an extracted context that has a debug id but no trace becomes the root of a new trace whose flags are sampled and debug and which records the debug id
     under the configured debug header name, provided there is no throttler or the throttler allows it for this operation; the throttler is asked exactly once.
     If the throttler refuses, the new trace has flags 0 and the debug id is not recorded. Baggage of such a context is carried over in both cases.
     A context with baggage but neither trace nor debug id is no debug request: the throttler is not asked on its account and it makes no debug trace.''',
     ['inputs', 'configurations'], 'every debug id, baggage, operation name, header name and throttler answer',
     '''Tests cover one literal debug id with one throttler stub.''',
     [J + 'tracer.py', J + 'codecs.py'], [('Tracer.start_span', J + 'tracer.py'), ('Tracer.is_debug_allowed', J + 'tracer.py')],
     ['Tracer.start_span', 'Span.context', 'Span.tags'])

prop('C11', 'Sampling-priority tag semantics',
     '''Setting the sampling-priority tag to a value that converts to integer 0 clears the sampled and debug flags and records no tag; a value that converts to a non-zero integer sets both flags and records the tag
     if debug is allowed for the operation, and otherwise changes nothing and records nothing; a truthy value on a span that is already debug and a value that converts to no integer are ignored without asking the throttler.
     All other flag bits are preserved, and setting any other tag never changes the flags.''',
     ['inputs', 'configurations'], 'all flag values 0..255, all integer, boolean, float and string priority values, every throttler answer',
     '''Tests try a handful of value and flag combinations.''',
     [J + 'span.py'], [('Span.set_tag', J + 'span.py'), ('Span._set_sampling_priority', J + 'span.py')], ['Span.set_tag', 'Span.flags', 'Span.tags'])

prop('C12', 'Recording obeys the sampled flag and keeps order',
     '''A span whose sampled flag is clear records no tag and no log whatever is called on it, and finishing it reports nothing.
     On a sampled span every set tag and every log call appends exactly one record after all earlier ones, with the given key or fields and timestamp, none of the earlier records being altered.''',
     ['inputs', 'histories'], 'every flags value, every prior content of the span (any number of records), every tag, log and finish call',
     '''Tests record a few items on one sampled and one unsampled span.''',
     [J + 'span.py', J + 'thrift.py'], [('Span.set_tag', J + 'span.py'), ('Span.log_kv', J + 'span.py'), ('Span.finish', J + 'span.py')], ['Span.tags', 'Span.logs', 'reporter calls'])

prop('C13', 'A span is reported at most once, by the first finish',
     '''Among any number of finish calls on one sampled span, from any threads in any interleaving, exactly one hands the span to the reporter, and it does so after the end time has been set;
     later calls neither report it again nor change its end time.
     The end time is the given finish time, or the current time if none was given, and the finished-span counter is incremented once.''',
     ['schedules', 'inputs'], 'every interleaving of any number of finish calls; every finish time',
     '''The tests call finish twice from one thread.''',
     [J + 'span.py', J + 'tracer.py'], [('Span.finish under update_lock', J + 'span.py'), ('Tracer.report_span', J + 'tracer.py')], ['reporter calls', 'Span.end_time', 'finished-span counter'],
     [('finished', 'the span has been finished', J + 'span.py')])

prop('C14', 'Baggage isolation and no lost baggage updates',
     '''Setting a baggage item on a span gives it that value (or removes it when the value is None), keeps all other items, all ids and flags of its context, and never changes
     a context obtained earlier, the parent, siblings, children or any other span, nor the shared empty baggage; children started later inherit it.
     Concurrent baggage updates of one span are all retained, and none reverts flags changed concurrently.
     On a sampled span each update is logged with its key and value, marked as override exactly when a non-empty value is replaced.''',
     ['inputs', 'schedules', 'histories'], 'every context, baggage dictionary, key and value; every interleaving of updates',
     '''Tests set a few items sequentially.''',
     [J + 'span.py', J + 'span_context.py', J + 'tracer.py'], [('SpanContext.with_baggage_item', J + 'span_context.py'), ('Span.set_baggage_item', J + 'span.py')],
     ['Span.context', 'Span.get_baggage_item', 'Span.logs'])

prop('C15', 'Constant and probabilistic samplers decide by trace id alone',
     '''A probabilistic sampler with rate r accepts a trace exactly when the low 64 bits of its trace id are below r times 2^64, for 64- and 128-bit ids alike; rate 0 accepts none, rate 1 all, and a higher rate accepts every trace a lower rate accepts.
     It rejects rates outside [0, 1] at construction; a constant sampler always gives its configured decision. Both report their type and parameter as sampler tags with every decision.''',
     ['inputs', 'configurations'], 'all trace ids up to 128 bits, all rates, all operation names',
     '''Tests check a few ids at two rates, not every id at the boundary.''',
     [J + 'sampler.py', J + 'constants.py'], [('ProbabilisticSampler.is_sampled', J + 'sampler.py'), ('ConstSampler.is_sampled', J + 'sampler.py')], ['Sampler.is_sampled'])

prop('C16', 'Rate limiter never exceeds its budget',
     '''While the clock does not go backwards and the maximum balance is positive, the credit balance of a rate limiter always stays within 0 and its maximum, grows by at most the elapsed time times the rate, and an item is admitted exactly when the replenished balance covers its cost, which is then deducted;
     so over any period admitted cost is at most the maximum balance plus elapsed time times the rate.
     A rate-limiting sampler with limit r admits one trace per credit with maximum balance max(r, 1), rejects negative limits, and changing the limit rescales the balance proportionally and reports whether it changed.''',
     ['inputs', 'histories', 'configurations'], 'every sequence of checks and updates at any non-decreasing times, every rate, cost and balance',
     '''Tests step a mocked clock through a dozen instants.''',
     [J + 'rate_limiter.py', J + 'sampler.py'], [('RateLimiter.check_credit', J + 'rate_limiter.py'), ('RateLimiter.update', J + 'rate_limiter.py'), ('RateLimitingSampler', J + 'sampler.py')],
     ['RateLimiter.check_credit', 'RateLimitingSampler.is_sampled'])

prop('C17', 'Per-operation sampling: guaranteed throughput and bounded table',
     '''A guaranteed-throughput sampler accepts a trace if its probabilistic part accepts, else if its lower-bound limiter has a credit, consulting the limiter once in either case, and reports the tags of the part that decided.
     The adaptive sampler gives each operation its own such sampler built from the current strategies, uses the default probability for operations beyond its capacity, and being asked about operations never makes it hold more than its maximum number of operations.
     A strategy update sets exactly the listed operations to their rates and the given lower bound, creates missing ones, keeps the others, and replaces the defaults.''',
     ['inputs', 'histories', 'configurations'], 'every operation name, trace id, table content and size, strategy list of any length',
     '''Tests use at most two operations.''',
     [J + 'sampler.py'], [('GuaranteedThroughputProbabilisticSampler', J + 'sampler.py'), ('AdaptiveSampler', J + 'sampler.py')], ['Sampler.is_sampled', 'AdaptiveSampler.update'])

prop('C18', 'Remote sampling updates are applied soundly or not at all',
     '''A sampling response naming a probability in [0, 1], a rate limit in [0, 500) or per-operation strategies installs a sampler with those parameters; a response that cannot be fetched, is not valid JSON or UTF-8 text,
     or has an unknown type or out-of-range value leaves the current sampler in place.
     No response of any content makes the update callback raise, and each response is counted exactly once as retrieved or query failure and never as more than one of updated or update failure.
     The strategy of this service is asked for within one refresh interval and then periodically, until the sampler is closed.''',
     ['inputs', 'fault_sequences'], 'every response body (arbitrary bytes, any JSON document), fetch outcome and current sampler',
     '''Tests feed about ten literal responses.''',
     [J + 'sampler.py', J + 'thrift.py', J + 'local_agent_net.py'], [('RemoteControlledSampler response handling', J + 'sampler.py'), ('LocalAgentHTTP', J + 'local_agent_net.py')], ['sampler state after the callback', 'sampler metrics', 'HTTP requests to the agent'])

prop('C19', 'Debug throttler conserves credits',
     '''A debug request for an operation is allowed exactly when at least one credit has been granted to that operation and not yet spent, and allowing it spends exactly one credit; unknown operations start with no credit, become known and are refused, and each refusal is counted.
     A credit response adds to each listed operation exactly the granted amount and affects no other; a response that cannot be fetched or parsed raises nothing and is counted as a failure.
     The first client id assigned is kept, and each refresh requests credits for exactly the operations seen so far.''',
     ['inputs', 'histories', 'fault_sequences'], 'every credit table, operation, response body and fetch outcome',
     '''Tests use one operation and three literal responses.''',
     [J + 'throttler.py'], [('RemoteThrottler.is_allowed', J + 'throttler.py'), ('RemoteThrottler._update_credits', J + 'throttler.py')], ['Throttler.is_allowed', 'throttler metrics'])

prop('C20', 'Thrift id conversion is lossless',
     '''For every span the reported low and high trace-id halves, span id and parent id are signed 64-bit integers that reproduce, modulo 2^64, exactly the 128-bit trace id and the 64-bit ids of the span; a missing parent is reported as 0.
     The same holds for the ids in span references.''',
     ['inputs'], 'all ids below 2^128 and 2^64',
     '''Tests check four literal ids.''',
     [J + 'thrift.py'], [('id_to_int', J + 'thrift.py'), ('make_jaeger_batch', J + 'thrift.py'), ('make_references', J + 'thrift.py')], ['make_jaeger_batch output'])

prop('C21', 'Tag conversion: type, truncation and totality',
     '''A tag value is reported as boolean, 64-bit integer, double or string according to its Python type (booleans are never integers, integers that do not fit 64 bits and all other objects become strings), with the value unchanged
     except that strings are cut to the first maximum-tag-length characters and formatted tracebacks to the first maximum-traceback-length characters.
     Converting never raises, even if the object's own string conversion raises an ordinary exception (one that itself has a text), and the key is reported as a string.''',
     ['inputs', 'configurations'], 'every key and value of any type, all maximum lengths',
     '''Tests convert about ten literals.''',
     [J + 'thrift.py', J + 'span.py'], [('make_tag', J + 'thrift.py'), ('make_tags', J + 'thrift.py')], ['Span.tags', 'make_tag'])

prop('C22', 'Batch conversion preserves every span',
     '''A reported batch contains, for the spans given and in their order, exactly one record each, carrying that span's operation name, flags, start time and duration in microseconds, all its tags, all its logs with their timestamps and fields in order, and one reference per recorded reference with its type.
     Later changes to a span do not alter an already built batch, and the process record carries the service name and all tracer tags.
     On the wire every field that has a value is written exactly once, under the number and type it has in the agent's interface definition.''',
     ['inputs', 'histories'], 'any number of spans with any contents',
     '''Tests convert one or two fixed spans and do not compare all fields.''',
     [J + 'thrift.py', J + 'thrift_gen/'], [('make_jaeger_batch', J + 'thrift.py'), ('make_references', J + 'thrift.py'), ('make_log', J + 'thrift.py'), ('make_process', J + 'thrift.py'), ('write of the generated records', J + 'thrift_gen/jaeger/ttypes.py')], ['make_jaeger_batch output', 'calls of the thrift protocol'])

prop('C23', 'Reporter accounts for every span exactly once',
     '''Every span handed to the remote reporter of a tracer (batch size at least 1) is either sent in exactly one batch and counted as success, or counted as failure after its batch could not be sent, or counted as dropped when the queue is full or the reporter has been closed.
     Spans are sent in the order received, in batches that never exceed the configured batch size, the queue never exceeds its capacity, and a batch that fails, whatever the error, does not stop the reporter or affect later batches: each batch sent goes out as one datagram holding that batch alone.''',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of reports, queue timeouts, send successes and failures, any queue capacity and batch size',
     '''Tests enqueue a few spans with one failure mode at a time.''',
     [J + 'reporter.py', J + 'local_agent_net.py'], [('Reporter queue consumer', J + 'reporter.py'), ('Reporter._submit', J + 'reporter.py')], ['agent emitBatch calls', 'reporter metrics'],
     [('queue', 'spans waiting to be sent', J + 'reporter.py')])

prop('C24', 'Closing the reporter flushes everything',
     '''Closing the remote reporter completes only after every span accepted before the close has been submitted, spans reported afterwards are counted as dropped, and the consumer then stops; closing more than once is harmless and every returned future completes.
     Closing a tracer closes its sampler and its reporter and returns the reporter's future; closing a composite reporter completes once all its members have closed.''',
     ['histories', 'schedules'], 'every number of queued spans, pending callbacks, members and close calls',
     '''Tests close once with a few spans queued.''',
     [J + 'reporter.py', J + 'tracer.py', J + 'ioloop_util.py'], [('Reporter.close', J + 'reporter.py'), ('ioloop_util.submit', J + 'ioloop_util.py'), ('CompositeReporter.close', J + 'reporter.py')], ['futures returned by close', 'agent emitBatch calls'])

prop('C25', 'Local reporters deliver every span once and in order',
     '''A composite reporter passes every reported span and the process description to each of its members exactly once and in their order.
     The in-memory reporter returns all reported spans in order, and the list it returns is a snapshot that later reports and callers cannot alter; the logging reporter logs each span once; the null reporter does nothing.''',
     ['inputs', 'histories'], 'any number of members, any number of reported spans',
     '''Tests use two members and a few spans.''',
     [J + 'reporter.py'], [('CompositeReporter', J + 'reporter.py'), ('InMemoryReporter', J + 'reporter.py')], ['member calls', 'InMemoryReporter.get_spans'])

prop('C26', 'Tracer metrics count every span and trace exactly once',
     '''Every started span increments exactly one of the started-span counters according to whether it is sampled, and, when it has no parent id, exactly one of the four trace counters according to sampled or not and joined (server-side) or started; no other tracer counter changes.
     Counters are created under fixed names and tags, and the legacy metrics adapter maps a name and tags to one key with the tags in sorted order, so that equal tags give equal keys.''',
     ['inputs', 'configurations'], 'every span, tag set and metrics factory',
     '''Tests look at a few scenarios.''',
     [J + 'tracer.py', J + 'metrics/metrics.py'], [('Tracer._emit_span_metrics', J + 'tracer.py'), ('TracerMetrics', J + 'tracer.py'), ('LegacyMetricsFactory', J + 'metrics/metrics.py')], ['metrics factory calls'])

prop('C27', 'Configuration values take effect with the documented precedence',
     '''Each documented configuration key changes exactly its own setting and otherwise the documented default applies; explicit configuration wins over the environment, which wins over the default, for agent host, agent port and 128-bit ids, and the values reach the constructed tracer.
     Boolean settings accept true/1/false/0/none in any letter case and fall back to the default otherwise; the sampler setting yields the sampler of that type and parameter, and an unknown type or a missing service name raises ValueError.
     With validation on, a configuration raises ValueError exactly when it contains an undocumented key. Only the first initialization installs a global tracer; later ones change nothing.''',
     ['configurations', 'inputs'], 'every configuration dictionary and environment',
     '''Tests try single keys with single values.''',
     [J + 'config.py', J + 'utils.py'], [('Config properties', J + 'config.py'), ('get_boolean', J + 'utils.py')], ['Config properties', 'Tracer constructor arguments'])

prop('C28', 'Error logging is rate limited',
     '''The error reporter logs nothing without a logger and otherwise logs an error only if more than the configured number of minutes has passed since its creation or the last logged error; whenever that much time has passed the next error is logged with its arguments unchanged.
     So over any history two logged errors are always more than the interval apart.''',
     ['histories', 'configurations'], 'every sequence of error calls at any times, any interval',
     '''Tests check two instants.''',
     [J + 'utils.py'], [('ErrorReporter.error', J + 'utils.py')], ['logger calls'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
