prop('C01', 'PeekableQueue: FIFO, each item delivered once, no lost wakeups',
     'Whatever threads put, put_many, get and peek concurrently, some single first-in first-out order explains '
     'every result: each item put is returned by exactly one get, a peek returns the current head without '
     'removing it, and nothing is invented. A get or peek never stays blocked while the queue holds an item, '
     'and Empty is raised only if a timeout was given, not before it elapses, and only if the queue was empty '
     'when it elapsed.',
     ['schedules', 'histories'], 'every interleaving of any producers and consumers, with any timeouts and delays',
     'The tests use one consumer and one producer separated by real sleeps; a put between the emptiness check and '
     'the wait, or two waiters of different kind, need a particular interleaving.',
     ['satella/coding/concurrent/queue.py', 'satella/coding/concurrent/thread.py'],
     [('PeekableQueue.put/get/peek lock and condition', 'satella/coding/concurrent/queue.py'),
      ('Condition.wait/notify', 'satella/coding/concurrent/thread.py')],
     ['return values and exceptions of put, put_many, get, peek, qsize'])
prop('C02', 'AtomicNumber operations are atomic and waiters see every change',
     'Concurrent operations on AtomicNumbers with plain numbers (in-place operators, arithmetic, comparisons, '
     'conversions) and comparisons of two AtomicNumbers behave as if executed one at a time, and never deadlock. '
     'wait_until_equal(v) returns only if the value equalled v and is not left waiting once the value becomes and '
     'stays v by any in-place operator; wait() blocked on the number returns upon its next change. WouldWaitMore '
     'is raised only after the given timeout.',
     ['schedules', 'histories'], 'every interleaving of operations and waits on one or two numbers',
     'Tests exercise one operator at a time from one thread, plus one wait with generous real sleeps.',
     ['satella/coding/concurrent/atomic.py', 'satella/coding/concurrent/monitor.py'],
     [('Monitor.synchronized on each operator, notify_all after a change', 'satella/coding/concurrent/atomic.py'),
      ('wait_until_equal', 'satella/coding/concurrent/atomic.py')],
     ['results of operators', 'return of wait and wait_until_equal'])
prop('C03', 'Timer fires exactly once, not early, and other timers do not affect it',
     'A started Timer calls its function with its arguments exactly once, never before its interval has elapsed '
     'since start(), and no more than about a second after that plus the time taken by callbacks sharing the '
     'background thread. A timer cancelled before it is due is never called. This holds for any number of timers '
     'started from any threads, also when several are due at the same instant, callbacks raise, are slow or start '
     'further timers.',
     ['schedules', 'histories', 'fault_sequences'], 'every set of timers, starting threads, callback outcomes and delays',
     'The tests run one or two timers with real sleeps; simultaneous deadlines, raising callbacks together with '
     'concurrent starts are not reached.',
     ['satella/coding/concurrent/timer.py', 'satella/coding/structures/heaps/time.py',
      'satella/coding/structures/singleton.py'],
     [('TimerBackgroundThread.run', 'satella/coding/concurrent/timer.py'),
      ('TimeBasedHeap.put/pop_less_than', 'satella/coding/structures/heaps/time.py')],
     ['invocations of the timer functions'])
prop('C04', 'IDs handed out concurrently are unique and within limits',
     'An IDAllocator never has the same integer allocated twice at once: an integer returned by allocate_int or '
     'accepted by mark_as_allocated is not handed out again until mark_as_free, all are at least start_at and '
     'below top_limit, and Empty is raised only when every integer in that range is allocated. A SequentialIssuer '
     'never issues a value twice, its values increase in call order, and no_less_than(x) returns at least x.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of allocate, mark and free calls for any limits',
     'Tests call the allocator from a single thread with default bounds.',
     ['satella/coding/concurrent/id_allocator.py'],
     [('Monitor.synchronized on all methods', 'satella/coding/concurrent/id_allocator.py')],
     ['values and exceptions of the allocator methods'])
prop('C05', 'Monitors and locked structures give mutual exclusion and always unlock',
     'At most one thread at a time executes code protected by the same Monitor or RMonitor, whether entered through '
     'synchronized, synchronize_on, synchronize_on_attribute, acquire or the with statement, and RMonitor may be '
     're-entered by its owner. The monitor is free again after the protected code returns or raises, Monitor.release '
     'frees it for its block and holds it again afterwards, and results and exceptions pass through unchanged. '
     'LockedStructures sharing a lock exclude each other, and MonitorSet.insert_and_check reports success to exactly '
     'one of concurrent inserters of an item. A copy of a MonitorDict or MonitorList has the same content and is a monitor of its own.',
     ['schedules', 'fault_sequences'], 'every interleaving of entries by any threads, with bodies that raise',
     'A test can observe exclusion only for the interleaving it happens to get; bodies raising inside nested '
     'acquire/release are not combined with contention.',
     ['satella/coding/concurrent/monitor.py', 'satella/coding/concurrent/locked_structure.py'],
     [('Monitor.synchronized/acquire/release/synchronize_on', 'satella/coding/concurrent/monitor.py'),
      ('LockedStructure.__enter__/__exit__', 'satella/coding/concurrent/locked_structure.py')],
     ['entry and exit of protected code'])
prop('C06', 'LockedDataset guards its data and honours each caller\'s lock options',
     'Attributes of a LockedDataset are accessible to the thread inside its with block or locked method for as long '
     'as it stays there, never to two such threads at once, and raise ResourceNotLocked when nobody holds the lock. '
     'Entering without a timeout waits as long as necessary; blocking=False and timeout given by one caller make '
     'only that caller give up with WouldWaitMore, not before its timeout, and the lock is always released on exit.',
     ['schedules', 'histories'], 'every interleaving of lockers with any mix of options, holding times and exceptions',
     'Tests lock from one thread only.',
     ['satella/coding/concurrent/locked_dataset.py'],
     [('LockedDataset.__enter__/__exit__/__call__', 'satella/coding/concurrent/locked_dataset.py')],
     ['attribute access and with statements on the dataset'])
prop('C07', 'CallableGroup calls everything once per invocation; CallNoOftenThan spaces calls',
     'Each invocation of a CallableGroup calls, once each, in registration order and with the given arguments, every '
     'callable registered before the invocation began and not cancelled, and with gather returns their results in '
     'that order. Exceptions become results if swallowed; otherwise the invocation stops with that exception and '
     'callables it did not reach stay registered. A one-shot callable is called exactly once over all, also '
     'concurrent, invocations unless cancelled, and a cancelled one is not called by later invocations, and is forgotten by them '
     'and by remove_cancelled(). A '
     'CallNoOftenThan, called from any threads, executes the first call, never two calls that fit in less than its '
     'interval, and never skips a call made at least the interval after the last executed one; arguments and '
     'exceptions pass through.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of add, cancel, remove_cancelled and invocations, with callables that raise',
     'Tests add and invoke from one thread; what happens to callables added or cancelled during an invocation, or '
     'after one raised, is not covered.',
     ['satella/coding/concurrent/callablegroup.py'],
     [('CallableGroup.add/__call__', 'satella/coding/concurrent/callablegroup.py'),
      ('CallNoOftenThan.__call__', 'satella/coding/concurrent/callablegroup.py')],
     ['calls received by the registered functions, results and exceptions of the invocation'])
prop('C08', 'Work for other threads runs exactly once, reports back; sync_threadpool waits',
     'A function run through call_in_separate_thread, run_as_future, call_in_future or an ExecutorWrapper is executed '
     'exactly once, in another thread, with its arguments, not before the delay asked for, and its future always '
     'resolves to its result or exception - whatever exception that is - unless cancel() succeeded, in which case it '
     'never runs. parallel_execute starts all calls before waiting for any and yields results (or exception '
     'instances) in the order of arguments, parallel_construct keeps the order of its iterable without the Nones, '
     'also when used by several threads at once. sync_threadpool returns only when every job submitted before it has '
     'finished, soon after that; raises WouldWaitMore only after max_wait with jobs outstanding; and leaves the pool '
     'with all of its workers usable in either case.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of callers and workers, any job durations, exceptions, timeouts and cancellations',
     'Tests use a couple of jobs with real sleeps and one caller; resolution under BaseException, cancellation races '
     'and pools that time out are not reached.',
     ['satella/coding/concurrent/sync.py', 'satella/coding/concurrent/functions.py',
      'satella/coding/concurrent/list_processor.py', 'satella/coding/concurrent/thread.py',
      'satella/coding/concurrent/futures/call_in_future.py', 'satella/coding/concurrent/futures/wrapped_executor.py'],
     [('sync_threadpool', 'satella/coding/concurrent/sync.py'),
      ('parallel_execute, run_as_future', 'satella/coding/concurrent/functions.py'),
      ('call_in_separate_thread', 'satella/coding/concurrent/thread.py')],
     ['results, exceptions, execution counts and timing of the functions handed over'])
prop('C09', 'Satella threads start once, stop when told to and always clean up',
     'A TerminableThread or IntervalTerminableThread runs prepare() once before any loop(), repeats loop() until '
     'terminated, starts at most one more loop() after terminate() was called, and calls cleanup() exactly once, '
     'last, in the thread itself - whether it ended by terminate(), by SystemExit, by an exception listed in '
     'terminate_on (swallowed, with terminate() called) or by any other exception (reported as a traceback) in '
     'prepare() or loop(). safe_sleep and safe_wait_condition last for the requested time unless notified, and raise '
     'SystemExit within wake_up_each seconds of termination. An IntervalTerminableThread starts loops one interval '
     'apart, or at once after calling on_overrun once with the duration if a loop took longer. '
     'SingleStartThread.start may be called from any threads and runs the thread once. ThreadCollection and '
     'BogusTerminableThread joins return only when all threads ended and raise WouldWaitMore only after the timeout; '
     'leaving a TerminableThread context joins it.',
     ['schedules', 'fault_sequences', 'histories'],
     'every moment of termination relative to the loop, every exception in prepare and loop, all delays',
     'Tests terminate threads at one convenient moment with real sleeps.',
     ['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/thread_collection.py'],
     [('TerminableThread.run/terminate/safe_sleep/safe_wait_condition', 'satella/coding/concurrent/thread.py'),
      ('IntervalTerminableThread.run', 'satella/coding/concurrent/thread.py'),
      ('ThreadCollection.start/terminate/join', 'satella/coding/concurrent/thread_collection.py')],
     ['prepare, loop, on_overrun and cleanup calls, is_alive, returns of join and the safe waits'])
prop('C10', 'Futures finish once, present only final results and call every callback',
     'A Satella Future is finished by exactly one of concurrent set_result, set_exception and cancel calls; the others '
     'fail (InvalidStateError, or cancel() returning False). Pre-done callbacks registered before it finishes run in '
     'order, once, before anybody else can see the outcome, and what they set is the outcome: every result(), '
     'exception(), done callback, on_success, on_failure and chain function sees the same final one, callbacks added '
     'at any moment are called exactly once (on_success and on_failure only for their kind), raising callbacks affect '
     'nobody else, and waits end when the future finishes or not before their timeout. A WrappingFuture does the same '
     'for the outcome or cancellation of the future it wraps, whenever it is wrapped. A FutureCollection returns '
     'results in order of members, the first exception, applies cancel, set_result, set_exception and callbacks to '
     'all members, and raises WouldWaitMore only after the timeout.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of finishing, cancelling, waiting on and adding callbacks to a future',
     'Tests finish the future and look at it from one thread.',
     ['satella/coding/concurrent/futures/futures.py', 'satella/coding/concurrent/futures/collection.py'],
     [('Future.set_result/set_exception/result/add_pre_done_callback', 'satella/coding/concurrent/futures/futures.py'),
      ('WrappingFuture', 'satella/coding/concurrent/futures/futures.py'),
      ('FutureCollection', 'satella/coding/concurrent/futures/collection.py')],
     ['outcomes returned by the future, calls to the callbacks'])
prop('C11', 'Condition wakes those notified; DeferredValue is set once and read by all',
     'Condition.wait returns only if notified while waiting (or, with dont_raise, timed out); it raises WouldWaitMore '
     'or ResourceLocked only if a timeout was given, not before and not long after it; notify(n) wakes n of those '
     'waiting and no more, notify_all wakes every one, both need no lock held by the caller, and a thread that holds '
     'the condition while checking its predicate and then waits misses no later notification. Exactly one of '
     'concurrent DeferredValue.set_value calls succeeds and the rest raise ValueError; every reader, waiting before '
     'or arriving after, gets that value (None included), and WouldWaitMore is raised only after the timeout and '
     'only if the value was not there.',
     ['schedules', 'histories'], 'every interleaving of waits, notifications, sets and reads with any timeouts',
     'Tests wait with one thread and notify after a real sleep; concurrent setters are never tried.',
     ['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/value.py'],
     [('Condition.wait/notify/notify_all', 'satella/coding/concurrent/thread.py'),
      ('DeferredValue.set_value/value', 'satella/coding/concurrent/value.py')],
     ['returns and exceptions of wait, notify, set_value, value, result'])
prop('C12', 'Singletons, cleanups and memoized calls happen once under concurrency',
     'A Singleton class has one instance and a SingletonWithRegardsTo class one per leading arguments, however many '
     'threads construct it at once; nobody receives an instance whose __init__ has not finished, and one whose '
     '__init__ raised is not kept. Among concurrent Closeable.close() calls exactly one is told to clean up, and leaving a with statement in any way, or the '
     'last reference going, closes. memoize '
     'executes the function successfully once per positional arguments while other callers wait for and get that '
     'value; an exception goes to the caller that got it and is not remembered. cache_memoize returns values for '
     'the right arguments, no older than its duration by its clock, and re-executes only when none is fresh.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of constructors, closes and memoized calls, with failures',
     'Tests construct, close and call from one thread.',
     ['satella/coding/structures/singleton.py', 'satella/coding/misc.py', 'satella/coding/decorators/decorators.py'],
     [('Singleton, SingletonWithRegardsTo', 'satella/coding/structures/singleton.py'),
      ('Closeable.close', 'satella/coding/misc.py'),
      ('memoize, cache_memoize', 'satella/coding/decorators/decorators.py')],
     ['instances returned, executions of __init__, close and the memoized functions'])
prop('C13', 'Expiring and self-cleaning dicts: entries live exactly as long as they should',
     'An ExpiringEntryDict entry can be read, is in the dictionary, counted and iterated over from being set until '
     'expiration_timeout by its clock has passed since it was last set, unless deleted, and never later; concurrent '
     'operations and the background cleanup never lose a live entry, bring back an old value or raise anything but '
     'KeyError for what is not there. A SelfCleaningDefaultDict returns the value last set or the default, and '
     'neither counts nor iterates over entries equal to the default. With background cleanup the values are let go '
     'within about 5 seconds, even if cleaning some other dictionary fails. The dictionaries may be iterated, and new '
     'ones made, while holding their monitor.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of operations, the cleanup thread and the clock; failing clocks and comparisons of others',
     'Tests read one entry before and after a real sleep, from one thread.',
     ['satella/coding/structures/dictionaries/expiring.py', 'satella/coding/structures/heaps/time.py'],
     [('ExpiringEntryDict.__getitem__/__contains__/cleanup', 'satella/coding/structures/dictionaries/expiring.py'),
      ('ExpiringEntryDictThread.cleanup/add_dict', 'satella/coding/structures/dictionaries/expiring.py')],
     ['results of the mapping operations, lifetime of the values'])
prop('C14', 'CacheDict: fresh reads cached, stale ones refreshed behind, LRU bounded',
     'A CacheDict read returns a value stored for that very key, no older by its clock than the expiration interval. '
     'A fresh entry is returned with no value_getter call; one past the stale interval at once too, with exactly one '
     'refresh behind it; for one absent or expired value_getter is called once and waited for. If it raises KeyError, '
     'the entry is removed and the reader gets KeyError (or the default), remembered for cache_failures_interval and '
     'no longer; its other exceptions go to the reader that waited, and a read raises nothing else. Setting, feeding '
     '(with the given timestamp), deleting and invalidating override what was cached, remembered failures included, '
     'and has_info_about tells whether a read would be answered from the cache. LRUCacheDict never holds more than '
     'max_size entries, evicts the least recently used one and only to make room for a new key, and no operation '
     'ever hangs.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of reads, refreshes, stores and invalidations, any clock, any pattern of value_getter failures',
     'Tests read a few keys from one thread with real sleeps.',
     ['satella/coding/structures/dictionaries/cache_dict.py'],
     [('CacheDict.__getitem__/get_value_block/feed/invalidate/has_info_about', 'satella/coding/structures/dictionaries/cache_dict.py'),
      ('LRUCacheDict.make_room/evict', 'satella/coding/structures/dictionaries/cache_dict.py')],
     ['results and exceptions of reads, calls to value_getter, len and iteration'])
prop('C15', 'ExclusiveWritebackCache: coherent reads, ordered writes, nothing lost at sync',
     'Reads, writes and deletions of a key through an ExclusiveWritebackCache are linearizable: a read never returns '
     'a value overwritten or deleted before it began, and never misses one that is there, whatever is still being '
     'written. Writing and deleting do not wait for the storage; each is carried out on it exactly once, those of one '
     'key in the order they were made, so that when sync() returns everything requested before it is there, and the '
     'storage agrees with the cache. sync() raises WouldWaitMore only after its timeout (and soon after), and may be '
     'called from many threads. An entry once read or written is not read from the storage again, nor is a remembered '
     'KeyError; other exceptions of the storage go only to the read that met them. Deleting without a delete_method '
     'raises TypeError and changes nothing.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of readers, writers, syncs and storage calls of any duration, with failing storage',
     'The test does four operations from one thread on an instant storage.',
     ['satella/coding/structures/dictionaries/writeback_cache.py'],
     [('ExclusiveWritebackCache.__getitem__/__setitem__/__delitem__/sync', 'satella/coding/structures/dictionaries/writeback_cache.py')],
     ['results of reads, calls made to the storage, its final contents'])
prop('C16', 'CPManager: a connection has one user at a time and is torn down exactly once',
     'A connection pool never gives one connection to two users, nor one torn down, failed or taken max_cycle_no times '
     'already. acquire_connection takes an idle connection if there is one and else creates one, passing its exception '
     'on; release_connection tears down a connection that failed, was taken max_cycle_no times, exceeds max_number '
     '(as set now) idle ones, or belongs to a closed pool, and keeps it otherwise. invalidate() tears down all idle '
     'connections, even if tearing down some fails, and the pool works on; after close() acquiring raises '
     'RuntimeError. Every connection created is torn down exactly once, never while in use: none is left open once '
     'the pool is closed and all are released. No interleaving of these calls hangs.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of acquire, release, fail, invalidate and close, with slow and failing connections',
     'The test uses two threads for seconds of real time and never invalidates or closes.',
     ['satella/coding/resources/cp_manager.py'],
     [('CPManager.acquire_connection/release_connection/invalidate/close', 'satella/coding/resources/cp_manager.py')],
     ['connections returned, create and teardown calls'])
prop('C17', 'SyncableDroppable: the series survives database failures and crashes',
     'A SyncableDroppable series holds exactly the entries accepted by on_new_data (only those with keys greater than '
     'all before), except those older than span_to_keep_in_db removed by cleanup_keep_in_db. get_archive gives '
     'exactly those in the range, on_sync_request the first so many past synced_up_to, in order, each once, wherever '
     'they reside; ValueError means there are none. cleanup_keep_in_memory moves just what is older than '
     'span_to_keep_in_memory to the DB, sync_to_db everything; what is there survives a crash at any later moment '
     'and is served after a restart from the persisted start, stop and sync entries. A failing DB call loses, '
     'duplicates or exposes nothing: the operation can be repeated. Entries are written to the DB once and never '
     'reside in both places, iterators of the DB are closed. All this holds with threads adding, reading and '
     'cleaning up at once.',
     ['schedules', 'histories', 'fault_sequences', 'crash_points'],
     'any sequence of operations with DB failures and crashes at any DB call, any interleaving of threads',
     'The one test is a single-threaded sequence on a database that never fails.',
     ['satella/coding/structures/syncable_droppable.py'],
     [('SyncableDroppable.on_new_data/get_archive/on_sync_request/cleanup_keep_in_db', 'satella/coding/structures/syncable_droppable.py')],
     ['entries returned, contents of the DB, its open iterators'])
prop('C18', 'measure() gives the time really elapsed; sleep() sleeps exactly as long as told',
     'A measure() reads the time elapsed by its clock while it was running: since creation (or its first start if '
     'created stopped), through any sequence of stop, start (which resumes), reset and context manager uses, plus '
     'adjustments; wall clock jumps do not matter and reading from other threads always gives a number. Operations '
     'invalid in its state raise TypeError and change nothing. timeouted, time_remaining and assert_not_timeouted '
     'follow it. A measure of a future stops when that completes; each call of a decorated function or method gets '
     'its own, which stops when the call ends (also generators, whose values are kept), and results and exceptions '
     'are those of the function. sleep(y) takes y seconds whatever interrupts it, or, if told to abort, '
     'returns False at the first KeyboardInterrupt; it returns False at once for a negative y, and raises nothing.',
     ['schedules', 'histories', 'fault_sequences'],
     'any sequence of operations and delays, preemption between clock reads, interrupts at any time',
     'Tests check loose bounds of a few real half-second sleeps.',
     ['satella/time/measure.py', 'satella/time/misc.py'],
     [('measure.start/stop/reset/get_time_elapsed', 'satella/time/measure.py'), ('sleep', 'satella/time/misc.py')],
     ['times measured, results and duration of sleep'])
prop('C19', 'ExponentialBackoff and retry: right delays, right tries, timely wakeups',
     'After failed() a backoff is unavailable for start seconds, twice as long after each next failure up to limit '
     '(failures within the grace amount not counting), until success() resets it. wait_until_available returns once '
     'it is available, within moments of a success() or the end of the delay and never before, or raises '
     'WouldWaitMore when its timeout, and not more, has passed. A function under launch is called until it succeeds '
     'or raises an unlisted exception, which goes to the caller, with sleeps of those lengths in between. A function '
     'under retry is called until its first success, at most times times, and again only after listed exceptions; '
     'the caller gets the result, the unlisted exception, or None (or the last exception if not swallowed); '
     'callbacks get called once per success, per retry (with the exception that forced it) and per failure.',
     ['schedules', 'histories', 'fault_sequences'],
     'any pattern of failures, any interleaving of reporting and waiting threads',
     'Tests fail one or two times in a fixed pattern with real sleeps.',
     ['satella/time/backoff.py', 'satella/coding/decorators/retry_dec.py'],
     [('ExponentialBackoff.failed/success/wait_until_available/launch', 'satella/time/backoff.py'),
      ('retry', 'satella/coding/decorators/retry_dec.py')],
     ['delays, calls made, callbacks, results'])
prop('C20', 'PIDFileLock: one living holder, crashed holders do not block it',
     'At most one living process holds a PIDFileLock on a path at a time, and its file then reads the PID of the '
     'holder. acquire() succeeds whenever no living process holds or is taking the lock, whatever was left by a '
     'process that crashed at any point or by other means (an empty file, garbage, PID of a dead process). Otherwise '
     'it raises ResourceLocked with the PID of a process that had it, also if this is the calling one. After '
     'release() or leaving the context (by exception too) the file is gone. After an acquire() that raised, a release() '
     'raises RuntimeError, so does one without an acquire(); a failure to write the file leaves it free. Processes '
     'racing to acquire, release and take over never get other exceptions.',
     ['schedules', 'histories', 'fault_sequences', 'crash_points'],
     'any interleaving of file system calls of any processes, crashes between any two of them, write failures',
     'One test has a single acquirer, another has one process hold it while a second one asks.',
     ['satella/os/pidlock.py'],
     [('PIDFileLock.acquire/release', 'satella/os/pidlock.py')],
     ['results and exceptions of acquire and release, the lock file'])
prop('C21', 'Exception handlers: each is called once, in order, whatever fails in others',
     'An exception that ends a thread or the main program is given once, with its type, value and traceback, to each '
     'installed handler, in order of priority and then of installation, and lastly to the previous sys.excepthook, '
     'until one of them returns True (or a sequence with it). A handler that raises, or a stderr that is closed, None or '
     'broken, keeps the exception from none of them. Handlers can be installed and removed at any time, one installed '
     'twice is called once. DumpToFileHandler gives each working stream, file or logger a whole dump of each '
     'exception, main thread or not, unmixed with others, whichever other stream fails and whatever the variables of '
     'the frames do when shown or pickled; tracebacks read back from the pickle or JSON equal the original. '
     'MemoryErrorExceptionHandler signals the process (or group, if told and leader) on each MemoryError unless its '
     'hook returns True, even if the hook or stderr fails, and refuses to be installed twice.',
     ['schedules', 'histories', 'fault_sequences'],
     'any set of handlers and streams with any of them failing, exceptions in any number of threads, any interleaving',
     'Tests raise one exception with working handlers and streams.',
     ['satella/exception_handling/global_eh.py', 'satella/exception_handling/dump_to_file.py',
      'satella/exception_handling/memerrhandler.py', 'satella/exception_handling/exception_handlers.py',
      'satella/instrumentation/trace_back'],
     [('GlobalExcepthook.__except_handle, Thread.run wrapper', 'satella/exception_handling/global_eh.py'),
      ('DumpToFileHandler.handle_exception', 'satella/exception_handling/dump_to_file.py'),
      ('MemoryErrorExceptionHandler.handle_exception', 'satella/exception_handling/memerrhandler.py')],
     ['calls of handlers, contents of streams and files, signals sent'])
prop('C22', 'transaction: commits or rolls back once and always closes what it should',
     'Leaving a transaction without an exception commits exactly once; leaving it with any exception, or a failing '
     'commit, rolls back exactly once and commits nothing, and the exception reaches the caller. The cursor is always '
     'closed, the connection exactly if so requested, also when getting the cursor, commit, rollback or closing the '
     'cursor fails. A getter (any callable which is not itself a connection) is called at most once per transaction object.',
     ['schedules', 'fault_sequences'],
     'any subset of calls of the connection failing, at any use',
     'Tests use a connection that never fails.',
     ['satella/db.py'],
     [('transaction.__enter__/__exit__', 'satella/db.py')],
     ['calls made on the connection and cursor, exceptions'])
prop('C23', 'call_and_return_stdout: whole output, right timeout, whatever the pace of output',
     'call_and_return_stdout returns everything the process writes to stdout, however much, in whatever pieces and '
     'at whatever pace, decoded as a whole, once it ends; raises ProcessFailed with the code and that output if an '
     'expected return code is given and differs; raises TimeoutError, promptly at the timeout and after killing the '
     'process, exactly if it does not complete in time. read_nowait reads while the process runs, all of it, and '
     'ends when stdout is closed.',
     ['schedules', 'histories', 'fault_sequences'],
     'any pattern of writes, pauses, exits and descendants holding the pipe, any capacity of the pipe',
     'Tests call ls and sleep, which write less than one pipe buffer.',
     ['satella/processes.py'],
     [('read_nowait, call_and_return_stdout', 'satella/processes.py')],
     ['result, exceptions and duration of the call'])
prop('C24', 'hang_until_sig: returns on the signals, restores handlers whatever happens',
     'hang_until_sig returns after, and only after, SIGTERM, SIGINT or one of the extra signals is received, at any '
     'point since the handlers are there, within sleep_interval; each call needs a signal of its own. However it '
     'ends, with signals given twice, refused or exceptions raised by other handlers, every handler is what it was before.',
     ['schedules', 'histories', 'fault_sequences'],
     'signals delivered at any bytecode or at any time during a sleep, any previous handlers',
     'The one test sends one SIGTERM in the middle of a sleep.',
     ['satella/os/signals.py'],
     [('hang_until_sig', 'satella/os/signals.py')],
     ['when it returns, handlers installed afterwards'])
prop('C25', 'Metrics: every report counted exactly once, in the right place',
     'Whatever threads report to a metric, with or without labels, through LabeledMetric, AggregateMetric or measure, '
     'while others take snapshots: counters, sums, counts and histogram buckets, for each set of labels and in total, '
     'are exactly what was reported; each snapshot has all reports finished before it, none started after it, one entry '
     'per name and labels, and never fails. Summaries give quantiles of the last last_calls values, cps counts '
     'the calls within each period, int and float hold the last value; a bad value changes nothing. A link goes '
     'offline, or back online, once given its number of consecutive failures or successes, with one callback each, per '
     'address and labels. measure and measure_future report the time really taken, once per call, and pass on '
     'results and exceptions.',
     ['schedules', 'histories', 'fault_sequences'],
     'any number of threads, any interleaving of handle and to_metric_data, any labels, any failing callbacks',
     'Tests report from one thread.',
     ['satella/instrumentation/metrics'],
     [('EmbeddedSubmetrics._handle', 'satella/instrumentation/metrics/metric_types/base.py'),
      ('CounterMetric, SummaryMetric, HistogramMetric, ClicksPerTimeUnitMetric, LinkfailMetric',
       'satella/instrumentation/metrics/metric_types'),
      ('MeasurableMixin', 'satella/instrumentation/metrics/metric_types/measurable_mixin.py')],
     ['to_metric_data', 'callbacks of linkfail'])
prop('C26', 'getMetric: one metric per name, exported as level and flags say',
     'All threads asking for a name get the same metric, with the type it has, or MetricAlreadyExists; what getMetric '
     'returned is exported by its parents up to the root, and a call that failed (a child of a leaf, a failing '
     'constructor) leaves nothing behind. A report is taken exactly if the level of the metric, or of the closest parent not set '
     'to INHERIT, allows it, never otherwise even while levels change; a child is exported by a parent exactly if its level is no '
     'higher than the parent\'s. Timestamps are present exactly if enabled for that metric and give its last '
     'update (per labels); internal metrics stay internal, with labels too, and Prometheus output shows each other '
     'entry once. reset forgets a metric and its children, others stay. Snapshots compare equal if their entries do.',
     ['schedules', 'histories', 'fault_sequences'],
     'any sequence of getMetric, reset, level changes and reports by any threads, failing constructors, clock jumps',
     'Tests build small trees in one thread.',
     ['satella/instrumentation/metrics/__init__.py', 'satella/instrumentation/metrics/metric_types/base.py',
      'satella/instrumentation/metrics/data.py', 'satella/instrumentation/metrics/exporters'],
     [('getMetric', 'satella/instrumentation/metrics/__init__.py'),
      ('Metric.level, handle, to_metric_data, reset', 'satella/instrumentation/metrics/metric_types/base.py')],
     ['identity of metrics, snapshots, Prometheus text'])
prop('C27', 'Metrified executor and caches: nothing lost, everything counted',
     'MetrifiedThreadPoolExecutor runs each submitted task exactly once, in up to max_workers threads at once '
     '(named with thread_name_prefix), and completes its future, unless cancelled; also when tasks raise, it is shut down in any '
     'way, or is no longer referred to; if an initializer fails all pending futures fail with '
     'BrokenThreadPool. The time each task waited and ran is measured once, get_queue_length tells the tasks not '
     'taken yet. Metrified caches count each read as one hit or one miss, rightly, each call to the value getter '
     'as one refresh with its duration, and each eviction, and give the same values as the plain ones.',
     ['schedules', 'histories', 'fault_sequences'],
     'any tasks and submitters, any interleaving of submit, cancel, shutdown and loss of the executor, failing getters',
     'Tests submit three tasks and wait, and read caches in one thread.',
     ['satella/instrumentation/metrics/structures'],
     [('_worker, MetrifiedThreadPoolExecutor', 'satella/instrumentation/metrics/structures/threadpool.py'),
      ('Metrified*Cache*', 'satella/instrumentation/metrics/structures/cache_dict.py')],
     ['results of futures, values of metrics'])
prop('C28', 'Prometheus exporter thread: answers everyone, ends when told to',
     'Between its start and termination, the exporter answers each GET of /metrics with the current, complete metrics '
     '(extra labels added, values escaped, internal ones left out), other requests with an error, and counts '
     'exports over the last 1, 20 and 60 s, whatever happens with other connections: silent, reset or vanished clients, failing metrics, '
     'failing accept. terminate makes it end within bounded time and close its socket, whenever it is called, any '
     'number of times, also if the address could not be bound.',
     ['schedules', 'histories', 'fault_sequences'],
     'any requests, network faults and moments of termination',
     'The test makes two good requests.',
     ['satella/instrumentation/metrics/exporters/prometheus.py'],
     [('PrometheusHTTPExporterThread, PrometheusHandler', 'satella/instrumentation/metrics/exporters/prometheus.py')],
     ['HTTP responses, end of the thread, sockets'])
prop('C29', 'AutoflushFile: what was written is on the disk, nothing stays open',
     'When write() of an AutoflushFile returns, the data is in the file whole, once, after everything written before, also if '
     'several programs append to one file, the file is moved away, writes fall short, or the program then crashes. '
     'Between the calls, and after any failed one, the file is not open in the program, and after an I/O error it can be used '
     'again. All the documented modes work (w ones truncate on construction only, others refuse without touching the file); '
     'seek, read, readall and truncate go on from the position the previous call left. A closed one raises ValueError.',
     ['fault_sequences', 'schedules', 'crash_points', 'histories'],
     'any sequence of calls, any point of failure, short write or crash, any interleaving of appending programs',
     'Tests write twice and truncate, with no failure and one program.',
     ['satella/files.py'],
     [('AutoflushFile', 'satella/files.py')],
     ['content of the file, results, open descriptors'])
prop('C30', 'File helpers do what they say or fail, and touch nothing else',
     'write_to_file and read_in_file write or return exactly the content, or raise (default only for what is not there); '
     'write_out_file_if_different writes exactly if the content differs or cannot be read and says so; read_re_sub_and_write changes nothing '
     'if reading or the replacement fails. try_unlink says True exactly if it removed the file, link or tree: of racing callers one '
     'removes it. find_files, safe_listdir and whereis give each matching name once, whatever else comes and goes meanwhile. '
     'make_noncolliding_name gives the first free name, split is undone by os.path.join, jump_to_directory puts the directory '
     'back. No failure leaves a file open or changes other files.',
     ['fault_sequences', 'schedules', 'inputs'],
     'any tree of files, directories and links, any I/O failure or short write, racing threads',
     'Tests use a few files, with no failures.',
     ['satella/files.py', 'satella/os/misc.py'],
     [('write_to_file, read_in_file, try_unlink, find_files, jump_to_directory and others', 'satella/files.py'),
      ('safe_listdir, whereis', 'satella/os/misc.py')],
     ['directory tree before and after, results, open descriptors'])
prop('C31', 'Context: each thread has its own stack of layers',
     'Context.get() is the innermost layer the calling thread is in, and each thread starts with an empty one that no other thread sees or '
     'changes. Entering a Context makes a new layer with the variables it was given, on the parent given or the current '
     'layer; leaving the block, in whatever way, brings back exactly the layer from before. A variable reads as the innermost '
     'layer that set it says; a deleted one is absent there and below, not above; push_up moves one to the parent; does_exist tells '
     'the same as reading.',
     ['schedules', 'histories'],
     'any nesting of blocks and any assignments, deletions, push_ups and exceptions in any threads',
     'Tests nest two blocks and do not look at the environment after leaving them.',
     ['satella/coding/environment.py'],
     [('Context', 'satella/coding/environment.py')],
     ['variables and current context'])
prop('C32', 'MemoryPressureManager: every change of severity is seen and told once',
     'Every interval, unless stopped, the manager finds the highest severity level whose condition holds (global or local, absolute or '
     'relative free memory below the value, custom ones, their Any, All, Not). If it is other than the '
     'current one, it goes there level by level, calling each callback registered for entering or leaving each of the levels once, in '
     'that order, then those for memory back to normal; if it is the same, those for remaining (no more often than asked). Objects '
     'registered for cleanup, if they still live, are cleaned up once on each entry. '
     'Cancelled callbacks are not called; registrations made meanwhile by other threads are not lost. terminate ends it.',
     ['schedules', 'histories', 'inputs'],
     'any history of memory and any registrations, cancellations, stops and resumes by other threads',
     'One test with custom conditions only, and a single thread.',
     ['satella/instrumentation/memory/memthread.py', 'satella/instrumentation/memory/conditions.py'],
     [('MemoryPressureManager', 'satella/instrumentation/memory/memthread.py'),
      ('conditions', 'satella/instrumentation/memory/conditions.py')],
     ['calls of callbacks against the level found by each check'])
prop('C33', 'CPU time: right occupancy, right percentiles, CPU-aware sleeps in bounds',
     'calculate_occupancy_factor gives the load between the previous look, by any thread, and now, never a '
     'negative one; there is one profile builder however many threads ask first. percentile gives the percentile of one complete window, '
     'whatever percentiles are requested meanwhile; get_own_cpu_usage the own usage between the last measurements. '
     'sleep_cpu_aware sleeps as long as told, or until the first look at which its condition holds, and says which. '
     'CPUTimeAwareIntervalTerminableThread calls loop() at intervals of seconds, at most max_sooner sooner, reports overruns, and upon '
     'terminate or a terminate_on exception ends soon and cleans up once.',
     ['schedules', 'histories'],
     'any history of load, any threads asking, sleeping and requesting percentiles, stalls',
     'Tests look at real load, in real time, in one thread.',
     ['satella/instrumentation/cpu_time/collector.py', 'satella/instrumentation/cpu_time/concurrency.py'],
     [('calculate_occupancy_factor, _CPUProfileBuilderThread, sleep_cpu_aware', 'satella/instrumentation/cpu_time/collector.py'),
      ('CPUTimeAwareIntervalTerminableThread', 'satella/instrumentation/cpu_time/concurrency.py')],
     ['factors, percentiles, times of calls'])
prop('C34', 'Configuration sources provide what is there or raise ConfigurationError',
     'provide() gives a dict made of one version of each thing read (file, directory, environment, HTTP, text in whatever encoding), or raises '
     'ConfigurationError and nothing else, whatever is missing, malformed or failing. AlternativeSource asks its sources in order until one '
     'succeeds; OptionalSource gives {} instead; MergingSource merges all of them, later ones winning, lists concatenated, nested dicts '
     'merged, and with on_fail=SILENT goes without those that fail, unless all do; DirectorySource does that for its files. '
     'Providing changes nothing: the sources and what they provided earlier stay as they were, and any number of threads may do it '
     'at once, again and again, with equal results. No file stays open. The modules can be imported in any order.',
     ['schedules', 'crash_points', 'inputs'],
     'any composition of sources, any contents changing meanwhile, failures of open, read, listdir and the network, any threads',
     'Tests provide once, from one thread, with files that do not change, and compare only the first result.',
     ['satella/configuration/sources/base.py', 'satella/configuration/sources/derivative.py', 'satella/configuration/sources/file.py',
      'satella/configuration/sources/format.py', 'satella/configuration/sources/envvars.py', 'satella/configuration/sources/object_from.py',
      'satella/configuration/sources/from_dict.py', 'satella/coding/algos.py'],
     [('MergingSource, AlternativeSource, OptionalSource', 'satella/configuration/sources/derivative.py'),
      ('FileSource, DirectorySource, HTTPJSONSource', 'satella/configuration/sources/file.py'),
      ('FormatSource', 'satella/configuration/sources/format.py'), ('merge_dicts', 'satella/coding/algos.py')],
     ['results of provide()'])
prop('C35', 'Subqueue and queue_get consumers: every item consumed once, in order',
     'Each named queue of a Subqueue is FIFO: an item put is returned once, by get of that name or by get_any, which tells the name; '
     'Empty comes only if that queue (for get_any, each) was empty and the timeout is over; other threads may use new names meanwhile; '
     'qsize is the number of items in all. A method decorated with queue_get is called once with each item taken, returns and raises '
     'what it does, queue.Empty as well; only if nothing came within the timeout is it not called, and method_to_execute_on_empty is called '
     'once instead. loop_while calls until its predicate is false.',
     ['schedules', 'histories'],
     'any producers, consumers, names and timeouts, any exceptions raised by the consumer',
     'Tests use one thread and queues that exist already.',
     ['satella/coding/structures/queues.py', 'satella/coding/decorators/flow_control.py'],
     [('Subqueue', 'satella/coding/structures/queues.py'), ('queue_get, loop_while', 'satella/coding/decorators/flow_control.py')],
     ['results of calls'])
prop('C36', 'Exception decorators and tracing keep concurrent and nested calls apart',
     'One rethrow_as, silence_excs, reraise_as, log_exceptions or trace_function object may decorate functions (log_exceptions generators '
     'too) and guard blocks in any threads and in calls nested in one another: each call returns its own '
     'value or raises its own exception, translated, silenced (giving returns or returns_factory()) or as it was; log_exceptions logs each matching one '
     'once, with the arguments of that call; trace_function makes one span per call with its own tags, ended when it ends. '
     'trace_future finishes its span once, after the future has ended in whatever way, with the exception attached if it failed; '
     'wrap_future passes on the outcome; parallel_for starts all queries before giving results in the order of the arguments.',
     ['schedules', 'inputs'],
     'any nesting of calls, any exceptions, any threads, any order and way of ending of futures',
     'Tests call one function once in one thread and never look at a call within a call.',
     ['satella/coding/recast_exceptions.py', 'satella/opentracing/trace.py', 'satella/cassandra/future.py', 'satella/cassandra/parallel.py'],
     [('rethrow_as, silence_excs, reraise_as, log_exceptions', 'satella/coding/recast_exceptions.py'),
      ('trace_function, trace_future', 'satella/opentracing/trace.py'), ('wrap_future', 'satella/cassandra/future.py'),
      ('parallel_for', 'satella/cassandra/parallel.py')],
     ['outcomes of calls, log records, spans'])
prop('C37', 'daemonize: one daemon, detached, with the privileges asked for, or an error',
     'Of the three processes daemonize() makes, the first two call exit_via once, with their streams untouched, and the last one returns: a '
     'child of the leader of a session of its own and not the leader itself, with umask 0, in /, with the standard streams closed (those there '
     'were) and, unless told otherwise, replaced by usable text streams on /dev/null, with the effective user and group given by number or name. '
     'If a system call fails, OSError is raised in the process where it failed, for a name that is unknown KeyError; no failure is hidden.',
     ['crash_points', 'inputs'],
     'a failure of any of the system calls, any users and groups, started by root or not, with any streams closed',
     'A test makes a real daemon once, with no user, no group and nothing failing.',
     ['satella/os/daemon.py'],
     [('daemonize', 'satella/os/daemon.py')],
     ['state of the processes afterwards'])
prop('C38', 'time heaps: each item is due exactly once, in order, at its time',
     'An item put on a TimeBasedHeap or TimeBasedSetHeap, with an explicit time or that of the clock, is given by pop_less_than exactly once, in the '
     'order of times, as soon as it is asked for a later time and never before that, unless it was taken or removed in some other way. A consumer that '
     'stops in the middle, puts items while it goes through the ones due, or a clock that fails or jumps loses and repeats nothing. In a '
     'TimeBasedSetHeap putting an item again replaces its time; an item removed leaves nothing behind. A copy has the items and the clock of the original, and is independent of it.',
     ['histories', 'crash_points'],
     'any sequence of operations of several threads (under a lock of theirs), clocks that jump and fail, consumers that stop at any item',
     'The tests put a few items with fixed times and pop them once; removal followed by anything, copies with items and failing clocks are not sampled.',
     ['satella/coding/structures/heaps/time.py', 'satella/coding/structures/heaps/base.py'],
     [('TimeBasedHeap', 'satella/coding/structures/heaps/time.py'), ('TimeBasedSetHeap', 'satella/coding/structures/heaps/time.py')],
     ['items given and the times at which they were'])

prop('C39', 'Tracebacks and dumps work whatever the values and other threads do',
     'A Traceback can be made, in any thread, of the exception in progress, a given exc_info or frame (also of another, running thread), whatever the variables '
     'do when shown or pickled (raise anything, even an exception that itself cannot be shown) and whatever other threads do to them and to the globals. It lists '
     'the frames innermost first, with function, file and line, all the locals and globals, each with its type and its repr processed by the policy (cut to the limit '
     'plus ... only if longer). A value that the policy wants pickled is stored, compressed if the policy says so (by default if longer than compress_at) '
     'at its level, and load_value() returns an equal one; for all others it raises ValueError, also if the value cannot be loaded. pretty_format() shows each frame and local. '
     'A Traceback read from its pickle or JSON equals the original, with its text and every stored value; one that differs in any name, file, line, variable or type does not; a '
     'truncated pickle is never read and another object read raises ValueError. dump_frames_on, called or installed on a signal, shows each live thread once with its locals, and '
     'dump_memory_on each object, then sizes and counts per type, biggest first, whatever objects do when shown.',
     ['schedules', 'fault_sequences', 'inputs'],
     'any values in any frames, other threads at any point of their work, failing repr, pickling, compression and loading, any policy',
     'Tests make tracebacks of well-behaved values in one thread.',
     ['satella/instrumentation/trace_back/classes.py', 'satella/instrumentation/trace_back/trace_back.py',
      'satella/instrumentation/dump_frames_on.py', 'satella/instrumentation/memory/dump_frames_on.py'],
     [('Traceback', 'satella/instrumentation/trace_back/trace_back.py'), ('StoredVariableValue', 'satella/instrumentation/trace_back/classes.py'),
      ('dump_frames_on', 'satella/instrumentation/dump_frames_on.py')],
     ['frames, reprs and values read back, text written'])

prop('C40', 'Wrappers of generators and iteration skip, repeat and lose nothing',
     'A generator wrapped with run_when_generator_completes or RunActionAfterGeneratorCompletes behaves as it does bare through any sequence of next, send, throw, close, for and '
     'yield from, and the action runs once, with its arguments, when it completes, however it was driven, and never if it was closed, dropped or failed. A SelfClosingGenerator, '
     'of a generator or of a call to a generator function, gives what the generator gives, and carries it to its end when closed, when its with block ends (also by an exception, '
     'which is passed on) and when the last reference goes. hint_with_length gives the length, or asks length_factory each time, and changes nothing else. A ListDeleter moves '
     'forwards or backwards, next() and prev(), over each entry and past neither end; it and a DictDeleter remove exactly the entries marked by delete(), when the block ends, in '
     'whatever way, or remove_items() is first called, and not before. A ConstruableIterator or PushIterable gives each item once, those added immediately, or pushed, first, in the '
     'documented order, also if the source fails in between; walk() gives each node, or leaf, once, deep or broad first; chain() passes on whatever an element raises while iterated.',
     ['histories', 'fault_sequences', 'schedules'],
     'any sequence of uses by several consumers, exceptions thrown in, failing generators, sources and blocks, wrappers dropped at any point',
     'Tests drive a wrapper to its end with one loop.',
     ['satella/coding/generators.py', 'satella/coding/iterators.py', 'satella/coding/deleters.py', 'satella/coding/sequences/iterators.py',
      'satella/coding/structures/push_iterable.py'],
     [('RunActionAfterGeneratorCompletes', 'satella/coding/generators.py'), ('SelfClosingGenerator', 'satella/coding/iterators.py'),
      ('ListDeleter', 'satella/coding/deleters.py'), ('ConstruableIterator', 'satella/coding/sequences/iterators.py')],
     ['values, exceptions, action calls, what the generator has seen, contents left'])
