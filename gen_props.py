"""Writes properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

BR, SB, SR, SS = ('stream2py/buffer_reader.py', 'stream2py/stream_buffer.py',
                  'stream2py/source_reader.py', 'stream2py/stream_source.py')
SD, SC, LD, RW = ('stream2py/utility/sorted_deque.py', 'stream2py/utility/sorted_collection.py',
                  'stream2py/utility/locked_sorted_deque.py', 'stream2py/utility/reader_writer_lock.py')

prop('C01', 'Every consumer gets every retained item once, in source order',
 'A consumer that reads forward (single reads, chunked reads, next() or iteration) receives the items the source produced in the order they were produced, none twice, and skips an item only if that item had already left the buffer window (pushed out by newer items, or explicitly dropped) when the consumer read. With a buffer that never overflows it receives exactly the source\'s sequence. This holds for any number of consumers, any chunk sizes and any relative timing of the producer and the consumers.',
 ['schedules', 'inputs', 'configurations'],
 'all interleavings of the source thread with any number of consumer threads, all chunk sizes, buffer bounds and source outputs',
 'The tests read a single stream from one thread after a sleep, with the producer idle; interleavings of append, eviction and reading, chunk sizes above 1 and overflow are never exercised.',
 [BR, SB, SD, LD],
 [('forward read from the per-reader cursor under the reader lock', BR+' BufferReader.read'), ('append under the writer lock', SB+' _SourceBuffer.append')],
 [('cursor', 'last item/key delivered to this reader', BR)], ['BufferReader.read / __next__ / __iter__ call boundary', 'SourceReader.read return'])

prop('C02', 'The buffer holds exactly the most recent items, up to its bound',
 'After k items were put in a stream whose bound is m and which drops automatically, the visible contents are exactly the last min(k, m) items, in key order and without gaps; an unbounded stream keeps all of them. No reader can ever observe more than m items, or a gap, or contents out of key order, at any moment.',
 ['histories', 'schedules', 'inputs', 'configurations'],
 'all item counts, bounds (1, small, large, unbounded), key types and moments of observation',
 'One unit test appends past maxlen once and only checks the length; contents, contiguity and observation during concurrent eviction are not checked.',
 [SB, SD, LD],
 [('bounded pair of deques for keys and items', SD+' SortedDeque'), ('append only in increasing key order', SD+' SortedDeque.append')],
 [('window', 'parallel deques of keys and items', SD)], ['BufferReader.range/head/tail results'])

prop('C03', 'Reader queries are atomic snapshots under a concurrent producer',
 'Every reader query (read, chunked read, range, head, tail, with any options) returns what it would return on one single state of the buffer that existed between its call and its return, even while the source thread is appending and evicting or a caller is dropping items. The states observed by successive queries never go backwards in time, also when the queries are made by different readers in different threads.',
 ['schedules', 'histories'],
 'all interleavings of queries by several readers with appends, evictions and drops',
 'Tests never query while the producer is writing in a controlled way, so a torn or stale result would go unnoticed.',
 [BR, SB, LD, RW],
 [('each query inside one reader-lock section', BR), ('append/drop inside a writer-lock section', SB)],
 [], ['query call/return boundary', 'source read boundary'])

prop('C04', 'Without auto-drop nothing is lost and a full buffer pauses the source',
 'With automatic dropping off, items leave the buffer only through explicit drop(n), which removes exactly the n oldest items; while the buffer holds its bound of items the source is not read, and once space is made reading resumes, so that the source\'s whole output stays deliverable, complete and in order. With automatic dropping on, explicit drop is refused and has no effect. With no bound, a stream without automatic dropping never pauses.',
 ['schedules', 'histories', 'configurations'],
 'all bounds including none, all drop sizes and moments of drop relative to the source thread',
 'No test uses auto_drop=False or drop().',
 [SB, SD], [('read skipped while full', SB+' StreamBuffer._run'), ('drop from the left', SD+' SortedDeque.drop')],
 [], ['StreamBuffer.drop boundary', 'source read boundary', 'reader results'])

prop('C05', 'Readers of one stream are independent of each other',
 'What one reader does (reading, peeking, seeking, repositioning or resetting its cursor, failing) never changes what another reader of the same stream returns, nor that reader\'s cursor, nor the buffer\'s contents. A reader created at any time starts with no last item, and its first forward read returns the oldest item held at that moment.',
 ['histories', 'schedules'],
 'all interleavings of operation scripts of several readers, and all moments of reader creation',
 'Tests compare two readers once, with one of them unused.',
 [BR, SB], [('per-reader cursor fields', BR+' BufferReader.__init__'), ('reader factory', SB+' _SourceBuffer.mk_reader')],
 [('cursor', 'last item/key of the reader', BR)], ['query results and last_item/last_key of every reader'])

prop('C06', 'The cursor is the last item returned; peeking or failing never moves it',
 'After each successful non-peeking query, last_item and last_key are the last item that the query returned and that item\'s key. After a peeking query (peek given in the call or set as the reader\'s default for read), and after any query that raises or returns nothing, both are unchanged. Assigning last_item repositions the cursor, deleting it resets it, and the next forward read continues from there.',
 ['histories', 'inputs', 'configurations'],
 'all operation histories of a reader over all query kinds, options and reader defaults',
 'Doctests check a handful of calls; default peek, failing queries, chunked peeks and repositioning are not checked.',
 [BR], [('cursor setter', BR+' BufferReader.last_item'), ('peek guards', BR)],
 [('cursor', 'last item/key of the reader', BR)], ['last_item/last_key after every query'])

prop('C07', 'Range queries return exactly the held items in the key interval',
 'range(start, stop, step) returns every held item whose key lies in [start, stop], in key order and thinned by step; start_le first lowers start to the nearest held key at or below it, stop_ge first raises stop to the nearest held key at or above it (and finds nothing if there is none), and only_new_items leaves out everything at or before the reader\'s cursor. When nothing qualifies a non-peeking range returns None if told to ignore that (by argument or by the reader\'s default) and raises otherwise.',
 ['inputs', 'histories', 'configurations'],
 'all windows, cursors, key types, interval ends (on, between and outside held keys) and option combinations',
 'Tests use in-range integer ends with default options; the doctest has one only_new_items case; start_le/stop_ge are never tested.',
 [BR, SD, SC], [('bisect over held keys', SD+' SortedDeque.range'), ('option handling', BR+' BufferReader.range')],
 [], ['BufferReader.range results'])

prop('C08', 'head and tail return the oldest and the newest held item',
 'head() returns the oldest item held and tail() the newest; tail(only_new_items=True) returns the newest item only if it comes after the reader\'s cursor (any item counts as new for a reader that has seen none). When there is no such item the query returns None if told to ignore that (tail only) and raises otherwise.',
 ['inputs', 'histories'],
 'all windows including empty ones, cursors, item values and option combinations',
 'One doctest line each, on a static full buffer.',
 [BR, SD], [('first/last element access', BR+' BufferReader.head/tail'), ('newest-after search', SD+' SortedDeque.find_last_gt')],
 [], ['BufferReader.head/tail results'])

prop('C09', 'read honours its count, strictness and missing-data options',
 'read(n) returns the next item after the cursor for n=1 and, for n>1, the list of the next n items after the cursor or of all of them if fewer are held; with strict_n it returns n items whenever n are held after the cursor and otherwise raises ValueError; when none is held it returns None if told to ignore that and raises ValueError otherwise. Options not given in the call take the values given when the reader was made, and next(reader) and iteration follow those same values.',
 ['inputs', 'histories', 'configurations'],
 'all n, window sizes, cursors, option combinations in the call and at reader creation',
 'Tests only use n=1 with ignore_no_item_found; strict_n, n>1 and reader defaults are untested.',
 [BR, SD], [('defaulting of options', BR+' defaulted_values'), ('index arithmetic', BR+' BufferReader.read')],
 [], ['BufferReader.read / __next__ results'])

prop('C10', 'Iteration ends exactly when the stream is stopped and drained',
 'next(reader) returns None only when nothing new is held and the stream had not stopped when the call was made, and raises StopIteration only when the stream has stopped and every item that was put in the buffer before the stop has been delivered. A for loop over a reader therefore yields all those items and then terminates, whatever the moment at which the stream stops, by a call to stop or by a failure of the source.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of the last appends, the stop and the consumer\'s reads; all chunk sizes and poll intervals',
 'Tests iterate after the stream was stopped for a second; the race between last append, stop and read is not reached.',
 [BR, SB], [('stop event checked by the reader', BR+' BufferReader.__next__/__iter__'), ('stop event set on exit', SB+' StreamBuffer._run')],
 [('stop event', 'set once per session', SB)], ['next()/for results', 'append and stop order'])

prop('C11', 'A blocking read waits for data and never misses it',
 'read(blocking=True) returns the next item (or the chunk that read would return) no later than one poll interval after the item is put in the buffer, and returns None only if the stream stopped with nothing left to deliver to that reader. It never waits on once data is available or the stream has stopped.',
 ['schedules', 'inputs'],
 'all interleavings of append, stop and several blocked readers; all poll intervals and read options',
 'Two tests: data already available, and stop after everything was read.',
 [BR], [('poll loop', BR+' BufferReader.read(blocking)')], [], ['blocking call/return times against append and stop times'])

prop('C12', 'The source is opened, read and closed in strict protocol',
 'For every start of a stream the source is opened exactly once before its first read, is closed exactly once after its last read, and its open, read and close calls never overlap each other, for every sequence of start, stop, restart and context use, issued from any threads. At most one further read begins once stop has been called, stop may be called at any time and repeatedly, and a stopped stream\'s source ends up closed, also when the thread that was to read it could not be started.',
 ['schedules', 'histories', 'configurations'],
 'all sequences and interleavings of lifecycle calls, with slow, fast and idle sources and any poll interval',
 'Tests restart once with a source whose open and close do nothing; ordering and overlap are not observed.',
 [SB], [('session thread', SB+' StreamBuffer._run'), ('start lock', SB+' StreamBuffer.start')],
 [('stop event', 'one per session', SB)], ['source open/read/close boundary'])

prop('C13', 'A restart begins a fresh session isolated from earlier ones',
 'After a stream is started again, new readers see only items read from the source in the new session, from its first one, together with the info the source gave for that session. Readers of an earlier session keep that session\'s data and info, report stopped, and do not count as readers of the same buffer as new ones. No item read in one session ever becomes visible in another, even if the source was still busy returning it when the stream was stopped.',
 ['schedules', 'histories'],
 'all sequences of sessions, source speeds (including reads longer than the stop delay) and poll intervals',
 'One test restarts once with a non-blocking source polled faster than the stop delay.',
 [SB, BR], [('per-session buffer and stop event', SB+' StreamBuffer._set_read_to_buffer_thread_and_source_buffer/_open')],
 [('session', 'buffer + stop event + thread', SB)], ['reader results, is_stopped, is_same_buffer, source_reader_info'])

prop('C14', 'A failing source stops the stream cleanly and loses nothing already read',
 'If the source\'s open, info, read, key or close fails at any point, or it yields an item whose key does not follow the last one, the stream stops reporting that it is running, the source is closed exactly once if it had been opened, every item put in the buffer before the failure stays readable, and readers terminate. A failure to open (or to describe the source after opening) is raised to the caller of start. In every case the stream can be started again and then works normally.',
 ['fault_sequences', 'schedules', 'crash_points'],
 'every source call index at which a fault can be injected, every exception kind, alone and in sequences over restarts',
 'No test makes a source fail.',
 [SB], [('finally clause of the read loop', SB+' StreamBuffer._run'), ('start sequence', SB+' StreamBuffer.start/_open')],
 [], ['source boundary, is_running/is_stopped, reader results'])

prop('C15', 'The readers-writer lock excludes, shares and prefers writers',
 'A thread holding the lock for writing is the only holder, while any number of threads may hold it for reading at once, and a reader is admitted without waiting for other readers when no writer holds or waits. Once a writer is waiting for current holders to leave, a reader that arrives later is not admitted before that writer. The lock is released when a guarded block raises, and no pattern of non-nested acquisitions deadlocks.',
 ['schedules', 'fault_sequences'],
 'all interleavings of any number of reader and writer threads, with exceptions raised inside guarded blocks',
 'The only unit tests of the lock are time-based, are not collected by pytest and use an assertion removed from Python 3.12.',
 [RW, LD], [('two light switches and three mutexes', RW+' RWLock'), ('context managers', LD)],
 [('reader/writer counts', 'inside the light switches', RW)], ['acquire/release boundary'])

prop('C16', 'No query can block the stream, another reader or itself forever',
 'While a stream runs, every reader query with any combination of options completes, and the source keeps being read and its items keep becoming visible, however many readers query at the same time and whatever the interleaving. Stopping the stream also always completes.',
 ['schedules', 'configurations'],
 'all interleavings of all query kinds and options by any number of readers with the source thread, drops and stop',
 'No test queries concurrently with a producer in a controlled schedule; a deadlock window of a few instructions is never hit.',
 [BR, SB, LD, RW], [('lock acquisition order and non-nesting', BR)], [], ['completion of every call; append progress'])

prop('C17', 'Sorted containers agree with a plain sorted list under any history',
 'After any sequence of operations the sorted collection and the bounded sorted deque hold the same items, in key order, as a plain list kept sorted by key, and every lookup (find exact/le/lt/ge/gt, index, count, membership, range by key and by index, newest-after, indexing, iteration, reversal) returns what the plain list gives. A bounded deque never exceeds its bound and keeps the items with the greatest keys when filled at construction or re-bounded, a refused append or insert changes nothing, and re-keying, copying, clearing and pickling preserve items, key and bound.',
 ['histories', 'inputs'],
 'all operation sequences, key functions (also with equal keys and items that cannot be compared), bounds and probe values',
 'Doctest on four records; randomized self-test only under __main__ and without inserts, bounds, drop or range.',
 [SC, SD], [('bisect on a parallel key sequence', SC), ('paired deques', SD)],
 [('keys/items', 'parallel sequences that must stay aligned', SD)], ['return values of every container method'])

prop('C18', 'A shared source is open exactly while some reader of it is open',
 'A stream source is opened when its first reader is opened, is not opened again while readers are open, and is closed once every open reader has been closed; closing one reader, once or repeatedly, never affects the others. After that, or after a failed open, opening another reader opens the source again and delivers the new session\'s data. This holds for any sequence or interleaving of opening and closing readers from several threads.',
 ['histories', 'schedules', 'fault_sequences'],
 'all sequences and interleavings of reader opens, closes, double closes and source failures',
 'Tests open one reader and close it; the doctest for reopening reads leftover data of the old session.',
 [SS, BR], [('open reader count', SS+' StreamSource._handle_reader_open/_handle_reader_closed'), ('buffer creation', SS+' StreamSource._ensure_buffer')],
 [('open reader count', 'readers opened minus closed', SS)], ['source open/close boundary, reader results'])

prop('C19', 'The all-in-one helper honours its callbacks',
 'A stream made by the helper calls open_stream once on entry and close_stream exactly once with the value open_stream returned, also when the body raises; read_stream always receives that value. Each non-None value read becomes exactly one item, in order, and with enumeration on is paired with consecutive numbers from 0; a None means no data yet and produces no item. The given info, key, bound, pause and drop settings take effect.',
 ['inputs', 'configurations', 'fault_sequences'],
 'all callback combinations, read results including None and falsy values, settings, and exceptions in the body or the callbacks',
 'There is no test of the helper.',
 ['stream2py/simply.py', SB], [('adapter source class', 'stream2py/simply.py mk_stream_buffer')], [], ['callback boundary, reader results'])

prop('C20', 'Source and readers are polled at the configured pace',
 'After the source reports no data, or while a full buffer without automatic dropping waits, the source is not asked again until the configured pause has passed, unless the stream is stopped; the pause is the one given to the stream (also when 0), else the one the source declares, else 0.3 seconds. While the source delivers data it is read again without any pause. A reader that waits (iterating or blocking) looks again after its own configured interval, 0.1 seconds by default.',
 ['configurations', 'inputs'],
 'all combinations of pauses given to the stream and declared by the source, and all patterns of data and no-data',
 'No test measures pacing.',
 [SB, BR], [('pause selection', SB+' StreamBuffer.__init__'), ('sleep after None', SB+' StreamBuffer._run')], [], ['virtual time of source reads and reader polls'])

prop('C21', 'The HTTP source sends the configured request and delivers the exact body',
 'Opening the HTTP source sends one request with the configured URL, method, headers and (for methods other than GET) body; the chunks it then yields, in order, concatenate to exactly the response body, as bytes or decoded by the given encoding, for every chunk size, also when they are streamed while the system clock stands or is set back. After the end of the body it reports no data, its info counts the bytes read, and it can be closed and opened again.',
 ['inputs', 'configurations'],
 'all methods, headers, bodies, response bodies, encodings and chunk sizes',
 'The only test is a skipped doctest.',
 ['stream2py/sources/http.py'], [('request construction and chunked read', 'stream2py/sources/http.py HTTPResponseReader')], [], ['loopback server log; read results'])

prop('C22', 'Context-forwarding wrappers are transparent and forward enter and exit',
 'A callable wrapped to be a context manager behaves as the original when called (arguments, result, exceptions, attributes). Entering it calls the given enter function once and returns its result, leaving it calls the given exit function exactly once with the exception details, whose result decides whether the exception is suppressed; for a bound method these are its instance\'s own. Nested wrappers keep their own enter and exit functions, and unusable functions are refused when the wrapper is made.',
 ['inputs', 'programs'],
 'all callables, argument lists, enter/exit functions, nesting depths and exceptions in the body',
 'One test with one class and one call path.',
 ['stream2py/util.py'], [('wrapper class', 'stream2py/util.py ContextualizeCall')], [], ['calls received by func, enter and exit functions'])

prop('C23', 'Source readers iterate their data and report open/closed truthfully',
 'Iterating a source yields the values its reads return, in order, leaving out those that mean no data (None, or what the source\'s validity test rejects) and pausing or calling the no-data action once for each of them (a stream source whose is_stopped is set ends instead). Used as a context manager a source is opened on entry and closed once on exit, also when the body raises, and its closed flag is true exactly outside. Timestamps are the current UTC time as an integer in the source\'s units (microseconds by default).',
 ['inputs', 'histories'],
 'all read sequences mixing data, None and invalid data, all validity tests, exceptions in the body, clock values',
 'Two iteration tests on fixed lists.',
 [SR, SS], [('iteration loops', SR+' SourceReader.__iter__/QuickSourceReader.__iter__'), ('closed flag', SR)], [], ['iteration results, closed, get_timestamp'])

prop('C24', 'A stream is itself an iterator over the current session',
 'Successive next(stream) calls (or calls of the stream) deliver the current session\'s items in order as one private reader would, None when there is nothing new, and StopIteration once the stream is stopped and drained; after the stream is started again, however the previous session ended, they deliver the new session\'s items from its beginning. Each for loop over the stream is a reader of its own. Before the first start, making or attaching a reader or iterating raises the not-started error.',
 ['histories', 'schedules', 'fault_sequences'],
 'all sequences of next, call, for, start, stop and source failure',
 'No test uses the stream as an iterator.',
 [SB], [('cached private reader', SB+' StreamBuffer.__next__')], [], ['next(stream) results'])

prop('C25', 'Custom readers and attached readers are full readers of their stream',
 'Every reader a stream makes is of the reader class its source specifies and carries the options given. A reader attached to a stream from then on behaves as one of that stream\'s own readers (same data, running state, info and buffer identity) while its cursor is kept, so its next forward read returns the first item of that stream after the cursor.',
 ['histories', 'configurations'],
 'all pairs of streams, cursor positions, running states and reader classes',
 'One test injects one class; attaching is untested.',
 [SB, SS, BR], [('reader class lookup', SB+' StreamBuffer._open'), ('attach', SB+' _SourceBuffer.attach_reader')], [], ['type, results, info and identity of readers'])

prop('C26', 'Items that left the window are released',
 'A running stream keeps alive at most the items in its window, each reader\'s last item and the item read last: once an item has been pushed out or dropped and is no reader\'s last item, the stream holds no reference to it or to its key, so memory stays bounded for ever-running streams. A stopped stream that is no longer referenced is released with its data.',
 ['histories', 'configurations'],
 'all lengths of run, bounds, drop patterns and reader behaviours',
 'Tests never run long or look at object lifetime.',
 [SB, SD, BR], [('maxlen on both deques', SD+' SortedDeque.__init__'), ('drop on both deques', SD+' SortedDeque.drop')], [], ['weak references to items and keys'])

prop('C27', 'Packaging helpers keep configuration and version data intact',
 'Writing a configuration section and reading it back (that section, or all of them) gives the same names, strings and lists, for values an ini file can hold, and leaves every other section of the file as it was. Joining non-empty URL parts yields exactly one slash between parts, keeping a leading and trailing slash; string templates are resolved fully or refused; and the next version for a package is its numerically greatest published version with the last number incremented.',
 ['inputs'],
 'all section contents, URL parts, template dictionaries and release lists',
 'Five doctest examples.',
 ['pack.py'], [('ini pre/post-processing', 'pack.py'), ('version ordering', 'pack.py current_pypi_version')], [], ['function results and file contents'])

prop('C28', 'The settings given to a stream take effect however the stream is made',
 'The bound, the dropping policy and the pause after a read without data that are given to a stream hold in every one of its sessions, whether it is made directly, by its source, by the helper or by a shared source that was configured before its first reader; settings not given take their documented defaults, and the pause then is the one the source declares. Configuring a shared source replaces its earlier configuration, affects no other source, and is refused without effect once its buffer has been made.',
 ['configurations', 'histories'],
 'all subsets and values of the settings, ways of making a stream, and sessions',
 'Tests construct streams in one way with one or two settings.',
 [SB, SS, SR, 'stream2py/simply.py'], [('settings passed on', SS+' configure_buffer, _ensure_buffer'), ('settings passed on', SR+' stream_buffer')], [], ['contents, reads and pauses of every session'])

prop('C29', 'Any object with the source interface can be streamed',
 'An object that has open, read, close, key, info and sleep_time_on_read_none_s, whatever it is and whether or not it derives from a class of the library, can be streamed, and the stream opens, reads, keys, describes and closes it by exactly these parts. An object that lacks one of them is refused when the stream is made and is left unused. A class that derives from a base class of the library and adds only what that class requires works with the documented defaults for the rest.',
 ['inputs', 'configurations'],
 'all shapes of source objects, complete and incomplete',
 'Tests use a handful of subclasses.',
 [SB, SR, SS, 'stream2py/protocols.py'], [('interface check', SB+' StreamBuffer.__init__'), ('source protocol', 'stream2py/protocols.py')], [], ['calls of the source', 'query results', 'refusals'])

prop('C30', 'A stream never keeps its program from ending',
 'When the main program returns, exits, fails or is interrupted, the process ends with the status it would have had without streams, in whatever state its streams are: not started, running, stopped, restarted or failed, even if a source is blocked for ever in a read and daemon threads are iterating over readers or waiting in blocking reads.',
 ['fault_sequences', 'configurations'],
 'all ways of ending a program with streams in all states',
 'No test ends a program.',
 [SB, 'stream2py/simply.py', SS], [('daemon reading thread', SB+' _set_read_to_buffer_thread_and_source_buffer')], [], ['end of the process, exit status, fatal errors'])

prop('C31', 'What a stream reports about its state is true',
 'A stream reports that it is running from when a start has returned until its session is stopped or fails, and never while its source is not open; a reader reports stopped exactly from when its own session has ended, for good. Once a start has succeeded, and until one fails, the stream gives readers of its current session at any time, even while it is being restarted, and it and its readers report the info the source gave for that session (none before the first start). Joining a stream returns only once the session\'s source has been closed, or when the time limit given has passed.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of reports with starts, stops, restarts and source failures',
 'Tests look at the state at a few quiet moments of one thread.',
 [SB, BR], [('is_running', SB+' StreamBuffer.is_running'), ('stop event per session', SB+' _set_read_to_buffer_thread_and_source_buffer'), ('is_stopped', BR+' is_stopped')], [], ['values of is_running, is_stopped, info and join with their call and return times'])

prop('C32', 'An interrupted call leaves the stream working',
 'When an exception, such as an interrupt or a timeout, is raised in a thread while it waits inside a call (to acquire the readers-writer lock, to make a query, iterate or read blocking, to drop, start, stop or join, or to open a reader of a shared source or close its last one), the call ends with that exception. The reader\'s cursor and the buffer\'s contents are then as before the call, and no other thread is blocked or admitted because of it. Afterwards the lock, the stream, its readers and its source work as if the call had not been made or had been completed.',
 ['fault_sequences', 'schedules', 'histories'],
 'all points at which a call waits, all exceptions, and all concurrent calls',
 'No test interrupts anything.',
 [RW, LD, BR, SB, SS], [('acquisition', RW+' reader_acquire, writer_acquire'), ('guarded sections', LD+' reader_lock, writer_lock'), ('restart', SB+' StreamBuffer.start')], [], ['outcome of the interrupted call, cursor, contents, later calls'])

pathlib.Path(__file__).with_name('properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
print(len(P), 'properties')
