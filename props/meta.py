"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from this"""

P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


CS = 'satella/coding/structures/'

prop('C01', 'Heaps deliver elements in order and lose or duplicate nothing',
     '''After any sequence of pushes, bulk pushes, pops, replacements, filter/maps and removals, a heap holds
     exactly the multiset of elements put in and not taken out, its smallest element is the one popped, and
     iterating it in ascending or descending order (destructively or not) yields that multiset sorted.
     The set variant additionally never holds two equal elements, and its membership test and removal of a
     given element agree with its contents. This includes the methods a heap shares with lists: append, extend, +=,
     remove, clear and copy.''',
     ['inputs', 'histories'], 'all element values and all short operation histories',
     'tests run a handful of fixed lists; ordering bugs need specific value patterns and histories',
     [CS + 'heaps/base.py'], [('Heap, SetHeap', CS + 'heaps/base.py')])
prop('C02', 'Time-ordered heaps release exactly the due entries, in order',
     '''A time-based heap releases, when asked for entries earlier than an instant (given or read from its
     clock), exactly the entries whose timestamp is strictly earlier, in timestamp order, and keeps the rest.
     Lookup of an item's timestamp, popping by item or by timestamp and removal agree with the contents, and
     the set variant holds each item once, under the timestamp it was last put with. Items need not be orderable,
     also under equal timestamps. A copy of a heap has the same entries and clock and is independent of it.''',
     ['inputs', 'histories'], 'all timestamps, items and short histories of puts/pops/removals',
     'tests use two or three fixed timestamps',
     [CS + 'heaps/time.py'], [('TimeBasedHeap, TimeBasedSetHeap', CS + 'heaps/time.py')])
prop('C03', 'Sorted lists, rankings and sliceable deques stay consistent',
     '''A sorted list always contains exactly the elements added and not removed, in ascending order of their
     key, under additions, extensions, removals and pops from either end; indexing, slicing, membership and
     index lookup agree with that order. A ranking of unorderable objects reports the position of each
     object in key order and forgets removed ones. A sliceable deque indexes and slices like a list.''',
     ['inputs', 'histories'], 'all element values, keys, slices and short histories',
     'tests use fixed lists; position maintenance errors need particular ties and orders of operations',
     [CS + 'sorted_list.py', CS + 'ranking.py', CS + 'mixins', CS + 'queue.py'],
     [('SortedList', CS + 'sorted_list.py'), ('Ranking', CS + 'ranking.py'),
      ('SliceableDeque', CS + 'sorted_list.py')])
prop('C04', 'A cache dict never serves expired data and refreshes stale data once',
     '''Reading a key serves the cached value without calling the value source while it is fresh, serves it and
     schedules exactly one background refresh when it is older than the staleness interval, and fetches it
     anew (exactly once, returning the new value) when it is absent or older than the expiration interval.
     A source failure removes the entry and is remembered only when failure caching is on and only for the
     failure interval; invalidation or deletion forgets everything about the key, and stored, fed or refreshed
     values count from their own timestamp on the configured clock.''',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'all instants, intervals, source outcomes, and completion times of background refreshes',
     'tests sleep real seconds around three instants; the boundaries and interplay of feed/fail/refresh are not reached',
     [CS + 'dictionaries/cache_dict.py'], [('CacheDict', CS + 'dictionaries/cache_dict.py')])
prop('C05', 'LRU caches stay within their size and evict the least recently used',
     '''An LRU tracker hands out the least recently used item first. A size-limited cache dict never holds more
     than its maximum number of entries; it evicts only to make room for a key that is not in it, and what it
     evicts is the entry least recently read, written or fed.''',
     ['inputs', 'histories', 'fault_sequences'], 'all short histories of reads, writes, feeds, deletions, failures',
     'tests store four keys once; eviction order after mixed reads/overwrites/deletions is not exercised',
     [CS + 'lru.py', CS + 'dictionaries/cache_dict.py'],
     [('LRU', CS + 'lru.py'), ('LRUCacheDict', CS + 'dictionaries/cache_dict.py')])
prop('C06', 'The write-back cache reads its own writes and converges with its storage',
     '''With an executor that runs jobs in submission order, a read always returns the latest value written
     through the cache (or KeyError after a deletion), however far the background writes have progressed, and
     a value once known is not read from the storage again. When the background jobs are done the storage
     holds exactly the latest state, each change having been written once. Threads sharing a cache never lose or
     resurrect a value. sync() returns when everything is written, or raises WouldWaitMore once its timeout passed.''',
     ['inputs', 'histories', 'schedules'], 'all short histories, initial storages and progress of background jobs',
     'tests use one fixed history and wait for the background after each step',
     [CS + 'dictionaries/writeback_cache.py'],
     [('ExclusiveWritebackCache', CS + 'dictionaries/writeback_cache.py')])
prop('C07', 'Expiring and self-cleaning dictionaries expose only live entries',
     '''An entry of an expiring dictionary is readable, counted, iterated and a member exactly until its timeout
     (counted from its last write) has passed, whatever mix of reads, checks, deletions and cleanups happens,
     and missing keys raise KeyError; its timestamp is when it was written. A self-cleaning default dictionary returns the stored value or the
     default, and never counts or iterates an entry whose value equals the default.''',
     ['inputs', 'histories', 'schedules'], 'all instants, timeouts, values and short histories',
     'tests sleep through one expiry; interplay of expiry with later operations is not reached',
     [CS + 'dictionaries/expiring.py'],
     [('ExpiringEntryDict, SelfCleaningDefaultDict', CS + 'dictionaries/expiring.py')])
prop('C08', 'Specialised dictionaries keep their mappings consistent',
     '''A two-way dictionary and its reverse are always exact inverses, refuse a value already mapped by another key
     and change together from either side; a dirty-tracking dictionary is marked dirty exactly when its contents
     changed since the mark was cleared. A counting dictionary holds the exact totals; a dictionary view, a
     key-aware default dictionary, a non-storing default dictionary and an attribute dictionary read and write
     through to the documented underlying mapping and nothing else, and so do their copies.''',
     ['inputs', 'histories'], 'all keys and values and short histories of operations',
     'tests use one fixed example of each class',
     [CS + 'dictionaries/objects.py', CS + 'dictionaries/counting.py', CS + 'dictionaries/default.py',
      CS + 'dictionaries/dict_object.py'],
     [('TwoWayDictionary, DirtyDict, DictionaryView, KeyAwareDefaultDict', CS + 'dictionaries/objects.py'),
      ('CountingDict', CS + 'dictionaries/counting.py'), ('DefaultDict', CS + 'dictionaries/default.py'),
      ('DictObject', CS + 'dictionaries/dict_object.py')])
prop('C09', 'A sparse matrix behaves as the matrix of its defined cells',
     '''After any sequence of cell, row, column and whole-matrix assignments and deletions, the dimensions of a sparse
     matrix are the smallest enclosing its defined cells, and cells, rows, columns, iteration, truth, equality,
     minimum, maximum, neighbours and the spread-out copy agree with exactly those cells (undefined ones being
     None; negative indices counting from the end).''',
     ['inputs', 'histories'], 'all values, small positions and short histories',
     'tests follow one fixed scenario', [CS + 'sparse_matrix.py'], [('SparseMatrix', CS + 'sparse_matrix.py')])
prop('C10', 'A syncable time series loses nothing and synchronizes in order',
     '''Entries of a syncable series are at each moment either in memory or in the storage, never both and never lost,
     until database cleanup drops exactly those older than the retention span. Archive queries return exactly the
     retained entries of the range in order, and a synchronization request returns the first not yet synchronized
     entries in order, up to the requested number; nothing is lost either when another thread adds or reads entries
     while memory is being written out to the storage.''',
     ['inputs', 'histories', 'schedules'], 'all keys, spans, ranges and short histories of additions, cleanups and syncs; all interleavings of two threads within the preemption bound',
     'tests follow one fixed scenario with fixed keys', [CS + 'syncable_droppable.py'],
     [('SyncableDroppable', CS + 'syncable_droppable.py')])
prop('C11', 'The binary parser never reads outside its window and loses no byte',
     '''A binary parser over a window of a byte stream returns consecutive bytes and values of that window only;
     an operation that needs more bytes than remain raises NotEnoughBytes and consumes nothing. Nested parsers
     cover exactly the bytes they were asked for and advance the outer one past them, and the counts and bytes
     reported as remaining are exact.''',
     ['inputs', 'histories'], 'all offsets, window lengths, sizes and short operation sequences',
     'tests parse one fixed stream; empty windows, offsets and nested limits are not reached',
     ['satella/parsing.py'], [('BinaryParser', 'satella/parsing.py')])
prop('C12', 'Identifier allocation is unique, in range and reusable',
     '''An identifier allocator never hands out an identifier that is currently allocated or outside its range,
     reports exhaustion exactly when all identifiers of the range are allocated, makes freed identifiers available
     again and rejects freeing or claiming ones in the wrong state. A sequential issuer returns strictly
     consecutive identifiers, jumping forward only when a larger minimum is requested.''',
     ['inputs', 'histories'], 'all ranges and short histories of allocations, releases and claims',
     'tests use default ranges and never combine an offset with a limit',
     ['satella/coding/concurrent/id_allocator.py'],
     [('IDAllocator, SequentialIssuer', 'satella/coding/concurrent/id_allocator.py')])
prop('C13', 'Time measurement, backoff and sleeping keep exact time',
     '''A measurement reports exactly the time spent running, over any sequence of starts, stops, resumes, resets and
     adjustments, and is timed out exactly when that reaches its timeout. Exponential backoff waits
     min(limit, start*2^n) after the n-th counted failure, is reset by success and reports readiness accordingly, and
     threads wait for that readiness no longer than until it comes or their timeout passes;
     an interrupted sleep still lasts exactly its interval unless asked to abort, and time strings in any unit
     denote the right number of seconds.''',
     ['inputs', 'histories', 'fault_sequences'], 'all instants, parameters and short histories',
     'tests sleep real seconds with one set of parameters', ['satella/time/measure.py', 'satella/time/backoff.py',
     'satella/time/parse.py', 'satella/time/misc.py'],
     [('measure', 'satella/time/measure.py'), ('ExponentialBackoff', 'satella/time/backoff.py'),
      ('parse_time_string', 'satella/time/parse.py'), ('sleep', 'satella/time/misc.py')])

SQ = CS[:-len('structures/')] + 'sequences/'
DE = 'satella/coding/decorators/'
prop('C14', 'Iterator helpers yield exactly the specified elements, lazily',
     '''Each iterator helper (taking, skipping, counting, enumerating, grouping, shifting, zipping, pairing, merging,
     walking, choosing, deduplicating, filtering, appending) yields exactly the elements its documentation
     specifies, in order, for lists, iterables and one-shot iterators alike, and the selecting ones take no more from
     their source than needed. Wrapped, chained and constructed iterators and generators pass everything through and
     clean up exactly once when they end or are closed.''',
     ['inputs', 'histories'], 'all short sequences of arbitrary elements, counts, steps and offsets',
     'tests use one or two fixed lists; empty, too short and one-shot inputs are rarely tried',
     [SQ + 'iterators.py', SQ + 'sequences.py', SQ + 'choose.py',
      'satella/coding/generators.py', 'satella/coding/iterators.py', CS + 'push_iterable.py', CS + 'zip_dict.py'],
     [('iterator helpers', SQ + 'iterators.py'), ('sequence helpers', SQ + 'sequences.py'),
      ('choose', SQ + 'choose.py')])
prop('C15', 'Data transformations compute exactly the documented result',
     '''Clipping, percentiles, splitting, list and series merging, interpolation, unpacking, splitting and
     merging of dictionaries and the remaining transformations return exactly the documented function of their inputs
     (merges are sorted, complete and without duplicates; nothing is lost). Recursive conversions to text and JSON
     structures keep the shape of arbitrarily nested containers.''',
     ['inputs'], 'all values, points, coefficients and small structures',
     'tests sample one or two points of each function', ['satella/coding/transforms'],
     [('transforms', 'satella/coding/transforms')])
prop('C16', 'Exception handling helpers act only on the configured exceptions',
     '''A retried operation is attempted until its first success, its first exception of another kind, or the allowed
     number of attempts, and the callbacks are invoked exactly where documented. Silencing, translating, logging,
     catching and expecting exceptions concern exactly the configured classes (and subclasses), leave results and all
     other exceptions untouched, and work likewise as context managers and decorators, on recursive functions too.''',
     ['inputs', 'fault_sequences'], 'all short outcome sequences over a small exception hierarchy',
     'tests use fixed failure patterns', ['satella/coding/recast_exceptions.py', 'satella/coding/expect_exception.py',
     'satella/coding/decorators/retry_dec.py', 'satella/coding/decorators/decorators.py'],
     [('retry', DE + 'retry_dec.py'), ('rethrow_as, log_exceptions', 'satella/coding/recast_exceptions.py')])
prop('C17', 'Memoizing and flow-controlling decorators call the function as specified',
     '''A memoized function is executed only for argument combinations without a (fresh) remembered successful result
     and otherwise returns the result for exactly those arguments; cached properties load once until reset.
     Decorators supplying defaults, collecting lists, looping, chaining, consuming queues, running something before, and
     checking results call the function exactly as often as documented and return what it returned.''',
     ['inputs', 'histories', 'fault_sequences'], 'all arguments, instants and short histories of calls',
     'tests call each decorator with a few fixed arguments', ['satella/coding/decorators'],
     [('decorators', 'satella/coding/decorators')])
prop('C30', 'Deleters visit every element and delete exactly the marked ones',
     '''Iterating through a list deleter (in either direction) or a dictionary deleter visits every element once in
     order, stepping back and forth moves one element at a time and stops at both ends, and at the end (even one
     caused by an exception) exactly the marked elements are removed, in one go, keeping the order of the others.''',
     ['inputs', 'histories'], 'all short lists and dictionaries, conditions and movements',
     'tests delete even numbers from one list', ['satella/coding/deleters.py'],
     [('ListDeleter, DictDeleter', 'satella/coding/deleters.py')])
prop('C35', 'Proxies, optionals and predicates behave as what they stand for',
     '''Every operation on a proxy has the effect and result of that operation on the wrapped object (rewrapped on
     request, in-place operations keeping the proxy), and unsupported ones fail alike. An optional forwards operations
     if there is an object and otherwise yields empty, false results; a predicate expression computes what the
     expression would for its argument, also within nested structures.''',
     ['inputs'], 'all operations, values and small expressions',
     'tests try each operation with one value or not at all',
     [CS + 'proxy.py', CS + 'hashable_objects.py', 'satella/coding/optionals.py', 'satella/coding/predicates.py'],
     [('Proxy', CS + 'proxy.py'), ('Optional', 'satella/coding/optionals.py'),
      ('x, build_structure', 'satella/coding/predicates.py')])
prop('C36', 'Argument-handling decorators and helpers bind arguments as Python does',
     '''Computing the variables a call would bind, and calling a function with such variables, agree with an actual call
     for every signature and way of passing arguments, errors included. Decorators transforming arguments or results,
     replacing, copying, attaching and checking arguments (by position, keyword or default value, in functions and
     methods) call the function once, with exactly the documented arguments, or not at all when a precondition fails.''',
     ['inputs'], 'all signatures kinds, ways of passing arguments, and values',
     'tests use one signature for each decorator', [DE + 'arguments.py', DE + 'preconditions.py',
     DE + 'decorators.py', 'satella/coding/misc.py'],
     [('argument decorators', DE + 'arguments.py'), ('precondition', DE + 'preconditions.py'),
      ('get_arguments, call_with_arguments', 'satella/coding/misc.py')])
prop('C31', 'Equality, ordering and hashing mixins obey their laws',
     '''Objects using the comparison mixins are equal exactly when the designated fields (or attributes, string or
     integer values) are and the classes are compatible; equality is reflexive, symmetric, consistent with inequality,
     ordering and hashes. Comparable enumerations compare by value; deep comparison reports an inequality, with
     its proper reason, exactly when two nested structures differ.''',
     ['inputs'], 'all field values, missing fields, and small nested structures',
     'tests compare a few fixed pairs', [CS + 'mixins', 'satella/coding/deep_compare.py'],
     [('mixins', CS + 'mixins'), ('assert_equal', 'satella/coding/deep_compare.py')])
prop('C32', 'Immutable objects, typed tuples, vectors and singletons keep their promise',
     '''No attribute of an immutable object can be set or deleted after construction, and no dictionary operation
     changes a frozen dict; equal frozen dicts have equal hashes. A typed named tuple holds the converted arguments
     and rejects every other way of passing them; vector arithmetic is place-wise. A singleton class, and each subclass of it, constructs
     one instance (per key) and never serves one whose constructor failed.''',
     ['inputs', 'histories', 'fault_sequences'], 'all values, keys, mutators and short histories of constructions',
     'tests try one mutator and one successful construction',
     [CS + 'immutable.py', CS + 'tuples.py', CS + 'typednamedtuple.py', CS + 'singleton.py'],
     [('Immutable, frozendict', CS + 'immutable.py'), ('typednamedtuple', CS + 'typednamedtuple.py'),
      ('Singleton', CS + 'singleton.py')])
prop('C33', 'Transactions, closeables and lazy loading finalise exactly once',
     '''A transaction commits if its body succeeded and rolls back otherwise, exactly once, and then always closes the
     cursor (and the connection if asked to), whatever fails. A closeable object cleans up exactly once however
     many times and ways it is closed or destroyed; a lazily loaded object is loaded once, before its first use,
     and again only if that failed.''',
     ['inputs', 'histories', 'fault_sequences'], 'all short histories and points of failure',
     'tests have one success and one failure', ['satella/db.py', 'satella/dao.py', 'satella/coding/misc.py',
     'satella/coding/ctxt_managers.py'],
     [('transaction', 'satella/db.py'), ('Closeable', 'satella/coding/misc.py'), ('Loadable', 'satella/dao.py')])
prop('C37', 'Scoped contexts, class-building tools and coded exceptions',
     '''In nested contexts a variable has the value set in the innermost enclosing one that sets or deletes it, and leaving
     a context restores the enclosing one. Metaclass tools wrap exactly the selected members, copy exactly the
     missing documentation and combine metaclasses of all bases; a coded exception is an instance of exactly its
     ancestors and of the classes of its hierarchy having its code.''',
     ['inputs', 'histories'], 'all short histories of context operations; small class hierarchies',
     'tests nest two contexts and use one class each', ['satella/coding/environment.py',
     'satella/coding/metaclasses.py', 'satella/coding/fun_static.py', 'satella/coding/overloading.py',
     'satella/exceptions.py'],
     [('Context', 'satella/coding/environment.py'), ('metaclasses', 'satella/coding/metaclasses.py'),
      ('CodedCustomException', 'satella/exceptions.py')])
prop('C19', 'Atomic numbers lose no update and wake every waiter',
     '''Under every interleaving, in-place operations of several threads on an atomic number take effect one after another,
     and operators yield what they would for plain numbers, without ever deadlocking (also on two atomic numbers, or on a
     number and itself). A thread waiting for a change or for a given value returns once it happened, and raises exactly
     when its timeout expires first.''',
     ['inputs', 'schedules'], 'all values and interleavings of two or three threads within the preemption bound',
     'tests run one lucky schedule', ['satella/coding/concurrent/atomic.py'],
     [('AtomicNumber', 'satella/coding/concurrent/atomic.py')])
prop('C20', 'Queues serve every waiting thread, in order, and lose nothing',
     '''Under every interleaving, an element put into a peekable or a named queue is given to exactly one getting thread,
     oldest first; no thread keeps waiting while an element is there for it, and peeking takes nothing away.
     A timed get or peek raises exactly when nothing arrived before its timeout.''',
     ['inputs', 'schedules', 'histories'], 'all interleavings of up to three threads within the preemption bound, all timeouts',
     'tests run one lucky schedule', ['satella/coding/concurrent/queue.py', CS + 'queues.py'],
     [('PeekableQueue', 'satella/coding/concurrent/queue.py'), ('Subqueue', CS + 'queues.py')])
prop('C21', 'Monitors, locked structures and allocators exclude concurrent access',
     '''Under every interleaving at most one thread is inside the code protected by a monitor or a locked structure or dataset,
     however it entered, and the lock is freed when the code ends or raises; locked data cannot be accessed without it
     and a limited attempt to lock fails exactly when it cannot succeed in time, with no effect on later ones.
     Items inserted into a monitored set, values deferred and identifiers allocated have exactly one winner.''',
     ['inputs', 'schedules', 'fault_sequences'], 'all interleavings of two or three threads within the preemption bound',
     'tests are single-threaded or run one lucky schedule', ['satella/coding/concurrent/monitor.py',
     'satella/coding/concurrent/locked_dataset.py', 'satella/coding/concurrent/locked_structure.py',
     'satella/coding/concurrent/value.py', 'satella/coding/concurrent/id_allocator.py'],
     [('Monitor', 'satella/coding/concurrent/monitor.py'), ('LockedDataset', 'satella/coding/concurrent/locked_dataset.py'),
      ('DeferredValue', 'satella/coding/concurrent/value.py')])
prop('C22', 'Futures deliver their one final outcome to every waiter and callback',
     '''A future ends once, as completed, failed or cancelled; pre-done callbacks alone may still transform its outcome, no
     other thread ever sees it before that, and every callback registered, before or after, is called once iff it concerns
     that outcome. Wrapping futures follow the wrapped one under every interleaving, future collections report and apply
     outcomes to all their members in order, and functions called in other threads are called once with their arguments,
     their result or exception ending up, in place, in the future returned.
     Synchronising a thread pool waits for the jobs submitted and leaves the pool usable.''',
     ['inputs', 'schedules'], 'all outcomes, callbacks, timings and interleavings of up to three threads within the preemption bound',
     'tests run one lucky schedule and mostly successful futures',
     ['satella/coding/concurrent/futures/futures.py', 'satella/coding/concurrent/futures/collection.py',
      'satella/coding/concurrent/futures/wrapped_executor.py', 'satella/coding/concurrent/futures/call_in_future.py',
      'satella/coding/concurrent/functions.py', 'satella/coding/concurrent/sync.py'],
     [('Future, WrappingFuture', 'satella/coding/concurrent/futures/futures.py'),
      ('FutureCollection', 'satella/coding/concurrent/futures/collection.py'),
      ('parallel_execute, run_as_future', 'satella/coding/concurrent/functions.py')])
prop('C18', 'Callback groups and memory-pressure handlers fire exactly as registered',
     '''Calling a callback group calls each callback registered and not cancelled once, in order, with the arguments given, one-shot
     ones for the only time; results are gathered in order, an exception is propagated (or gathered, if swallowing), and no
     registration is lost by that, nor by other callbacks or threads adding, cancelling or calling meanwhile.
     A rate-limited callable is called at once the first time and then never more often than its interval.
     The memory pressure manager passes through every severity level in between, calling the handlers for entering, leaving
     and remaining exactly then, its conditions being true exactly for the memory readings they state.''',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all short histories of a group, all memory readings and limits, interleavings of two threads within the preemption bound',
     'tests call groups whose callbacks succeed, once, in a single thread, and stay away from real memory readings',
     ['satella/coding/concurrent/callablegroup.py', 'satella/instrumentation/memory/memthread.py',
      'satella/instrumentation/memory/conditions.py'],
     [('CallableGroup, CallNoOftenThan', 'satella/coding/concurrent/callablegroup.py'),
      ('MemoryPressureManager', 'satella/instrumentation/memory/memthread.py'),
      ('conditions', 'satella/instrumentation/memory/conditions.py')])
prop('C23', 'A connection pool never exceeds its size, shares or leaks a connection',
     '''Under every interleaving a connection handed out by a connection pool manager belongs to one user until it is released, at most
     max_number connections are open at a time, and a thread that finds all of them taken waits until one is free.
     No connection is used more than max_cycle_no times, or again after it was failed; these, idle ones upon invalidating or
     closing, and those released after closing are torn down exactly once, and never while in use.
     A closed pool refuses to give connections, also to threads already waiting; a failure to connect or to tear down leaves no trace.''',
     ['inputs', 'schedules', 'histories', 'fault_sequences'], 'all short histories of one thread; all interleavings of two threads within the preemption bound, for all times of use',
     'the test uses the pool from few threads that rarely meet', ['satella/coding/resources/cp_manager.py'],
     [('CPManager', 'satella/coding/resources/cp_manager.py')])
prop('C24', 'Threads loop, wait, time out and end when they should; timers fire once',
     '''A terminable thread prepares once, loops until asked to terminate or until a terminable exception, and then always cleans up
     once; it notices a request to terminate within its wake-up interval, also while sleeping or waiting for a condition.
     Interval threads start each iteration exactly an interval after the previous one (CPU-aware ones at most max_sooner earlier),
     or at once after an overrun, which is reported. Conditions wake waiting threads as requested and time out on time.
     A timer fires exactly once, not before its interval and within about a second after it, unless cancelled, whatever other
     timers do and whichever threads start them; thread collections and stand-ins for threads behave like the threads they contain.''',
     ['inputs', 'schedules', 'fault_sequences'], 'all durations, intervals, timeouts and moments of notification or termination; all interleavings of a few threads within the preemption bound',
     'tests wait for real seconds with one fixed timing each', ['satella/coding/concurrent/thread.py',
      'satella/coding/concurrent/timer.py', 'satella/coding/concurrent/thread_collection.py',
      'satella/instrumentation/cpu_time/concurrency.py', 'satella/instrumentation/cpu_time/collector.py'],
     [('TerminableThread, IntervalTerminableThread, Condition', 'satella/coding/concurrent/thread.py'),
      ('Timer', 'satella/coding/concurrent/timer.py'),
      ('ThreadCollection', 'satella/coding/concurrent/thread_collection.py'),
      ('CPUTimeAwareIntervalTerminableThread', 'satella/instrumentation/cpu_time/concurrency.py')])
prop('C25', 'Configuration schemas accept exactly what they describe',
     '''Passing a value to a descriptor returns the value converted as its type, nested structure, defaults, checkers and mappers say,
     or raises ConfigurationValidationError if it does not conform, and nothing else: whatever the value, whatever was validated
     before with the same descriptor, and without altering the value or the descriptor.
     A schema given as a dictionary means the same as one built of descriptors; an unknown type in it raises ConfigurationSchemaError.''',
     ['inputs', 'histories'], 'all schemas and values nested within the bounds with any numbers in them, representative strings for conversions',
     'tests validate one large conforming document',
     ['satella/configuration/schema/base.py', 'satella/configuration/schema/basic.py', 'satella/configuration/schema/structs.py',
      'satella/configuration/schema/from_json.py'],
     [('Descriptor.__call__', 'satella/configuration/schema/base.py'),
      ('Dict, List, Union, Caster', 'satella/configuration/schema/structs.py'),
      ('descriptor_from_dict', 'satella/configuration/schema/from_json.py')])
prop('C26', 'Configuration sources provide exactly what they are composed of',
     '''Merging sources yields the recursive merge of what each provides, later ones overriding and lists concatenated; alternatives use
     the first that works, and failures are raised, skipped or replaced as the source was told, always as ConfigurationError.
     Providing twice gives the same configuration, and neither providing nor altering what was provided changes a source.
     A definition given as a dictionary builds the same sources, and files of a directory are found however its path is given.''',
     ['inputs', 'histories', 'fault_sequences'], 'all trees of sources and configurations within the bounds with any values in them, all directory contents of up to three files',
     'tests merge two one-key sources once',
     ['satella/configuration/sources/derivative.py', 'satella/configuration/sources/file.py', 'satella/configuration/sources/format.py',
      'satella/configuration/sources/envvars.py', 'satella/configuration/sources/from_dict.py',
      'satella/configuration/sources/object_from.py', 'satella/coding/algos.py'],
     [('MergingSource, AlternativeSource', 'satella/configuration/sources/derivative.py'),
      ('merge_dicts', 'satella/coding/algos.py'),
      ('DirectorySource', 'satella/configuration/sources/file.py'),
      ('load_source_from_dict', 'satella/configuration/sources/from_dict.py')])
prop('C27', 'Metrics report exactly what they were given',
     '''Requesting a metric by name returns the same metric until it is reset, creates the containers above it, and fails if its type
     differs, its name is not allowed or a leaf would get children. A value counts iff the level in effect allows it, and a metric is
     reported iff no metric above it is of a lower level. Each kind of metric (values, counters, clicks in time, histograms, summaries,
     link state, callables, uptime, measured times) reports what follows from the values given to it, for each set of labels,
     and metrified caches and thread pools count what they really do.''',
     ['inputs', 'histories', 'schedules'], 'all values, labels, times and levels in histories within the bounds; all schedules of the pool with the stated preemptions',
     'tests call each metric a few times with fixed values',
     ['satella/instrumentation/metrics/__init__.py', 'satella/instrumentation/metrics/metric_types/base.py',
      'satella/instrumentation/metrics/metric_types/histogram.py', 'satella/instrumentation/metrics/structures/threadpool.py'],
     [('getMetric', 'satella/instrumentation/metrics/__init__.py'),
      ('Metric, EmbeddedSubmetrics', 'satella/instrumentation/metrics/metric_types/base.py'),
      ('LinkfailMetric', 'satella/instrumentation/metrics/metric_types/linkfail.py')])
prop('C28', 'Collections of metric data combine without losing or sharing entries',
     '''Adding to a collection yields every entry of both, the later one winning when name and labels are the same; += does the same in
     place. Adding labels, prefixes, values or timestamps, or removing internal entries, affects that collection only, which stays
     consistent: not the operands, entries or collections that it was made of. Comparisons are symmetric, and a collection
     survives conversion to JSON and back.''',
     ['inputs', 'histories'], 'all collections of up to three entries with any values, all alterations within the bounds',
     'tests add two collections of fixed entries',
     ['satella/instrumentation/metrics/data.py'],
     [('MetricDataCollection', 'satella/instrumentation/metrics/data.py'), ('MetricData', 'satella/instrumentation/metrics/data.py')])
prop('C29', 'What is exported to Prometheus reads back as the metrics',
     '''The text rendered from a collection parses, by the rules of the Prometheus text format, into exactly its non-internal entries:
     names with dots replaced by underscores, label values with whatever characters, values, and timestamps in milliseconds.
     The HTTP exporter serves the current metrics with its extra labels at /metrics only, counts its exports as documented,
     and leaves the metrics as they were.''',
     ['inputs', 'histories'], 'all label values of up to three (thorough: four) relevant characters, all collections and requests within the bounds',
     'tests compare one rendered line',
     ['satella/instrumentation/metrics/exporters/prometheus.py'],
     [('metric_data_collection_to_prometheus', 'satella/instrumentation/metrics/exporters/prometheus.py'),
      ('PrometheusHandler', 'satella/instrumentation/metrics/exporters/prometheus.py')])
prop('C34', 'File helpers do what they say and never leave a file open',
     '''An AutoflushFile behaves as a file opened in its mode would: writes are appended, reads continue where the previous
     operation ended, seek() and truncate() work. After each operation everything is visible to others and the file is
     closed; once closed for good, it refuses to work. split() reverses os.path.join for every path,
     make_noncolliding_name() returns the first free name, reading reverses writing for any content and encoding,
     write_out_file_if_different() writes exactly if the content is to change and tells so, find_files() yields exactly the
     files that match, whatever the options. Reading lines, substituting in a file, deleting, changing
     the directory for a while and the file-like /dev/null do as documented, also when something raises.''',
     ['inputs', 'histories'],
     'all contents, paths, trees of files, options, failures and histories of operations within the bounds',
     'tests use one mode, one tree and one kind of path, and never read through an AutoflushFile',
     ['satella/files.py'],
     [('AutoflushFile, find_files, split', 'satella/files.py')])
prop('C38', 'Processes, signals and PID files are handled as documented',
     '''At most one process at a time holds a PID file lock, whatever the order in which processes acquire and release it and
     whatever was left of it by processes that are dead; the file names the holder, those who are refused are told about it, and
     a free lock can be acquired. Calling a process returns all that it has written, however much and however it is split, kills
     it exactly when its time has run out and fails when the return code is unexpected. Hanging until a signal ends exactly on
     SIGTERM, SIGINT or one of the extra signals, and then each handler is what it was. Becoming a daemon, killing oneself and
     finding executables on the path perform the documented steps, no matter which identities, groups or kinds of files.''',
     ['inputs', 'histories', 'schedules'],
     'all schedules of contending processes with the stated preemptions, all behaviours of the called process, signals, identities and directories within the bounds',
     'tests acquire the lock once, call processes that write little and send SIGTERM',
     ['satella/os/pidlock.py', 'satella/os/signals.py', 'satella/os/daemon.py', 'satella/os/misc.py', 'satella/processes.py'],
     [('PIDFileLock', 'satella/os/pidlock.py'), ('call_and_return_stdout, read_nowait', 'satella/processes.py'),
      ('hang_until_sig', 'satella/os/signals.py'), ('daemonize', 'satella/os/daemon.py')])
prop('C39', 'Exceptions that nobody caught reach the handlers, and get reported',
     '''An exception that was not caught, in the main thread or in any other, is given to the installed handlers in the order of
     their priorities, until one of them intercepts it; if none of them does, it is reported as Python would do it. A handler that
     fails does not prevent the others from being run (unless that was requested); SystemExit is given only to those that are
     classes. A MemoryError is handled before anything else, and terminates the process or its group unless the custom hook
     declines. Dumping an exception writes the exception, its frames and their variables to each of the outputs, of any kind,
     also if no exception is in progress by then.''',
     ['inputs', 'histories'],
     'all priorities, kinds and behaviours of handlers, all kinds of outputs and exceptions within the bounds',
     'tests install a single handler and dump within an except block',
     ['satella/exception_handling/'],
     [('GlobalExcepthook', 'satella/exception_handling/global_eh.py'), ('DumpToFileHandler, AsStream', 'satella/exception_handling/dump_to_file.py'),
      ('MemoryErrorExceptionHandler', 'satella/exception_handling/memerrhandler.py')])
prop('C40', 'Tracebacks preserve stacks and values, and survive being stored',
     '''A Traceback has every frame of the stack, innermost first, with all the variables: their representations, types and -
     as the policy decides - pickles, compressed or not, out of which exactly the original values can be loaded. Values that
     cannot be pickled or printed never prevent a traceback from being made. Pickling a traceback or storing it as JSON and
     loading it back loses nothing; anything else that is loaded is refused with ValueError.''',
     ['inputs'],
     'all thresholds of compression and truncation and all compression levels; stacks and kinds of values within the bounds',
     'tests look at single tracebacks with the default policy',
     ['satella/instrumentation/trace_back/'],
     [('StoredVariableValue, StackFrame, GenerationPolicy', 'satella/instrumentation/trace_back/classes.py'),
      ('Traceback', 'satella/instrumentation/trace_back/trace_back.py')])
prop('C41', 'Anything is encoded as JSON, and JSON files and data objects round-trip',
     '''The JSON encoder encodes every value, however nested: enums as their values, objects that know their JSON as that JSON,
     other objects as their attributes (slots included, inherited or not) and whatever has none as a description. What is written
     to a JSON file is UTF-8 in any locale and is read back the same; the file is written only if it would become different, and
     an invalid one raises ValueError. Data objects have all of their fields, inherited ones included, with the given or default
     values, miss none, are equal exactly when the fields are, and are restored from their JSON.''',
     ['inputs'],
     'all values nested as deep as the bounds say, all classes of data objects and values of their fields within the bounds',
     'tests encode a few values and compare equal objects',
     ['satella/json.py'],
     [('JSONEncoder, read_json_from_file, write_json_to_file, JSONAbleDataObject', 'satella/json.py')])


prop('C42', 'Traced calls and futures finish their spans, Cassandra helpers keep outcomes',
     '''A traced function or future behaves as if it was not traced: arguments, result and exception pass through unchanged. Its
     span starts before the call, ends exactly once however the call or the future ends (also by cancellation), carries the given
     tags, those the factories make of the arguments, the result or the exception as asked for, and an exception is logged with
     as much of its stack as the limit allows. Futures of Cassandra, once wrapped, deliver the same outcome to every waiter and
     callback, and queries made in parallel return their results in the order of the arguments, each executed once.''',
     ['inputs', 'histories', 'fault_sequences'],
     'all combinations of options, of outcomes of functions and futures, of registering before or after completion',
     'tests trace a function that returns, with one set of tags',
     ['satella/opentracing/', 'satella/cassandra/'],
     [('trace_function, trace_future', 'satella/opentracing/trace.py'), ('trace_exception', 'satella/opentracing/exceptions.py'),
      ('wrap_future', 'satella/cassandra/future.py'), ('parallel_for', 'satella/cassandra/parallel.py')])

prop('C43', 'Packages import as asked for, random helpers keep what they were given',
     '''Importing from a package brings in exactly the names that its modules and packages export, honouring each option
     (recursion, underscored names, modules without __all__, missing attributes), from every directory the package lies in and
     never from a namesake elsewhere, repeats nothing in __all__ and leaves alone what was there. A class is found by its path
     or ImportError is raised. Random words and bytes have exactly the length and the alphabet asked for, and sequences
     shuffled together keep their elements and stay matched.''',
     ['inputs'], 'all combinations of options and contents of small trees of packages, all draws of the generator of random numbers',
     'tests import one package with one set of options',
     ['satella/imports.py', 'satella/random.py'],
     [('import_from, import_class', 'satella/imports.py'), ('random_word, random_binary, shuffle_together', 'satella/random.py')])

prop('C44', 'Wrapped generators and small helpers behave exactly as what they stand for',
     '''A generator wrapped to run an action upon its completion, to be exhausted upon closing or to hint its length yields,
     receives, returns and raises what the bare one does, whichever of next(), send(), throw() and close() is used; the action
     runs exactly once, if and only if the generator completes. Chaining of iterables and callables passes on every element,
     argument, result and exception. Conditional updates of dictionaries and attributes write exactly when their condition holds,
     and the remaining helpers (lengths, membership, queues, counters, enums, predicates) equal their definitions.''',
     ['inputs', 'histories', 'fault_sequences'], 'all short histories of operations on generators that end in any way; all values',
     'tests iterate over a generator to its end',
     ['satella/coding/generators.py', 'satella/coding/iterators.py', 'satella/coding/misc.py', 'satella/coding/sequences/iterators.py',
      'satella/coding/decorators/', 'satella/warnings.py'],
     [('RunActionAfterGeneratorCompletes', 'satella/coding/generators.py'),
      ('chain, SelfClosingGenerator, hint_with_length', 'satella/coding/iterators.py'),
      ('chain_callables, update_*, queue_iterator, contains, length', 'satella/coding/misc.py')])

prop('C45', 'CPU profiles, occupancy, object sizes and dumps report what is there',
     '''The profile of CPU load gives the requested percentile of the last complete window, at any moment and whatever is requested
     while it is being rebuilt; the occupancy factor and own CPU usage are the averages since the previous reading, and a
     CPU-aware sleep ends early exactly when the load crosses a limit and otherwise lasts the whole time. The size of an object
     counts each of its distinct components once, also with sharing and cycles. Dumps of memory and of stack frames contain every
     object, type and frame of every thread, even those that cannot be printed.''',
     ['inputs', 'schedules'], 'all loads, limits, moments of requests within the bounds; all small shared and cyclic structures',
     'tests observe the real machine, which has no known load',
     ['satella/instrumentation/cpu_time/collector.py', 'satella/instrumentation/memory/', 'satella/instrumentation/dump_frames_on.py'],
     [('_CPUProfileBuilderThread, calculate_occupancy_factor, sleep_cpu_aware', 'satella/instrumentation/cpu_time/collector.py'),
      ('get_size', 'satella/instrumentation/memory/get_object_size.py'),
      ('dump_memory_on', 'satella/instrumentation/memory/dump_frames_on.py'),
      ('dump_frames_on', 'satella/instrumentation/dump_frames_on.py')])



prop('C46', 'Tainted values spread the taint to results and stay within their session',
     '''Within a tainting session every value computed from a tainted one - arithmetic, in-place changes, comparisons, items,
     attributes, calls, iteration, entering a context - is tainted itself and holds what the same operation on the plain
     value gives, whether the other operand is tainted or not; parts of a tainted list, dictionary or object are tainted, also
     those stored later, and no value is tainted twice. Values can be tainted only during a session; a thread has at most one, not
     affected by those of other threads, a refused one changes nothing, and a session lists exactly the values tainted in it.''',
     ['inputs', 'histories', 'schedules'], 'all operations and values; nested structures up to depth 2; all short histories of sessions of two threads',
     'tests add three numbers',
     ['satella/debug/tainting/'],
     [('TaintedObject, taint, access_tainted', 'satella/debug/tainting/tainteds.py'),
      ('TaintingEnvironment', 'satella/debug/tainting/environment.py')])

prop('C47', 'An overloaded function calls the most specific of the functions that fit',
     '''Calling an overloaded function calls exactly one of the functions given for it, with the arguments of the call, and returns
     its result: one whose number of parameters and annotated types accept the arguments, and - if one of those is more specific
     than all the others - that one, whatever the order they were given in. TypeError if none fits or a signature is given twice.
     A signature is less than another exactly when it is more generic. A method for classes and instances gets what it is called on.''',
     ['inputs', 'histories'], 'up to 3 functions with any of 8 types of parameters (related, unrelated, tuples, none), any of 8 values',
     'tests try two related types in one order',
     ['satella/coding/overloading.py'],
     [('overload, TypeSignature, class_or_instancemethod', 'satella/coding/overloading.py')])
















NOT_APPLICABLE = []
