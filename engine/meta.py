"""What each property says and how it is decided: the single source of properties.jsonl, MANIFEST.json and the evidence texts."""

P = {}
NA = []


def prop(pid, title, statement, over, quant, why, files, mech, how, rule, technique, note, state=None, observe=None):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, how=how, rule=rule,
                  technique=technique, note=note, state=state, observe=observe)


def na(pid, title, statement, over, quant, why, files, mech, reason):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, na=reason)


AI = 'path-sensitive abstract interpretation of the clang AST, '
BASE_NOTE = ('Decided from the source by an abstract interpreter that follows every path of every entry point through the resolved '
             'callees (templates as instantiated); sound up to the standard-library model and the listed assumptions. ')

WH = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
CW = 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
IW = 'cpp_utils/src/cpp/wait/IntWaitHandler.cpp'
BW = 'cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp'
CO = 'cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp'
DQ = 'cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp'
DB = 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp'

prop('W01', 'No lost wakeups in the C++ wait handlers',
     'A thread blocked in a wait operation of a wait handler (generic, boolean, integer, counter, consumer, double queue) is always awaken when '
     'another operation makes the condition it waits for true, unless that operation was explicitly asked not to notify. Every change of what a '
     'waiter looks at is made with the handler mutex held, waiters check their condition with that mutex held before sleeping, and whenever one '
     'waiter only is awaken the remaining runnable ones are still awaken by the operations that follow.',
     ['schedules', 'histories'], 'every interleaving of any number of waiting threads with every public operation, in every order',
     'A lost wakeup needs the notifier to run in a window of a few instructions of the waiter, or several waiters at once; the tests run one '
     'waiter against one notifier separated by sleeps.',
     [WH, CW, IW, BW, CO, DQ],
     [('predicate checked and value changed under one mutex', WH), ('notify_all after a change; notify_one chain of the counter', CW)],
     'The condition under which each thread goes to sleep is extracted from the code (facts known under the mutex when it sleeps or sleeps again); every '
     'critical section of every public operation is then checked for whether its writes can end one of these conditions, and, if so, whether every path to '
     'the exit notifies the condition variable (notify_one only where each waiter consumes what it was awaken for).',
     'for each (sleeping condition, critical section) pair: a section whose writes can falsify the sleeping condition is followed, on every path to the '
     'exit, by a notification of that condition variable; writes to waited-for fields hold the mutex; threads sleep only after checking the condition '
     'under the mutex; one-at-a-time wakeups form a chain',
     AI + 'sleep-condition/notification obligation per critical section',
     'A waiter that asks a predicate about state outside the handler is out of scope.',
     state=[('awaited value', 'what waiters look at', WH), ('enabled flag', 'false ends every wait', WH)])

prop('W02', 'Disabling a wait handler releases every waiting thread',
     'After a wait handler is disabled (by disabling, blocking disabling, stop-and-continue or destruction) no thread stays blocked in it: whoever was waiting is awaken '
     'and no thread goes back to sleep or starts to sleep while it is disabled. Disabling leaves the handler disabled, enabling leaves it enabled, and stop-and-continue '
     'leaves it enabled, whatever its state was before.',
     ['schedules', 'histories'], 'every interleaving of waits with disable, blocking disable, enable, stop-and-continue and destruction, from every state',
     'The tests disable once with one waiter known to be asleep; they cannot reach the windows in which a waiter is about to sleep, nor handlers with several condition variables.',
     [WH, CW],
     [('enabled flag part of every waited condition', WH), ('notify_all on disable', WH)],
     'Each sleep (first and repeated) must imply the enabled flag under the mutex; each path that clears the flag must notify all waiters of every condition '
     'variable a sleep of the class uses before it returns, blocks or destroys it; the flag at exit of each state operation is computed on every path.',
     'every sleep entails enabled; every write enabled := false reaches notify_all of each sleeping condition variable; flag value at exit of enable/disable/'
     'blocking_disable/stop_and_continue',
     AI + 'must-notify and sleep-entailment rules', 'Users calling operations on a destroyed handler are out of scope.',
     state=[('enabled flag', 'whether waiting is allowed', WH)])

prop('W03', 'Awake reasons tell the truth and timeouts bound the wait',
     'A wait operation reports "disabled" only if the handler was disabled, "condition met" only if the handler was enabled and its condition was seen to hold, and '
     '"timeout" only if the time expired with the handler enabled, all as of the same locked section in which the wait ended. A wait with a positive timeout is '
     'bounded by that timeout, and a wait with timeout zero is unbounded.',
     ['schedules', 'inputs'], 'every wait operation of every handler, every timeout and every interleaving with changes of value and state',
     'Tests see single outcomes of single waits; the truth of a reason depends on what changes between waking up and reading the state.',
     [WH, CW, IW, BW],
     [('reason computed with the mutex still held', WH)],
     'For every path to a return of a wait operation, the returned constant is compared with the facts established after the last acquisition of the mutex; '
     'every sleep is checked for the deadline it is given and the sign of the timeout argument on that path.',
     'returned reason == disabled => enabled flag false at the last critical section; condition_met => flag true and sleeping condition false; timeout => time '
     'expired and flag true; timed wait iff timeout > 0 with the deadline built from the timeout',
     AI + 'facts at exit versus returned constant', 'That the clock advances properly and that the deadline arithmetic is exact is not decided.')

prop('W04', 'Blocking disable and destruction wait for every waiting thread',
     'When a blocking disable returns, and before any part of a wait handler used by its wait operations is destroyed, every thread that was waiting has left the wait, no longer '
     'holds the handler mutex and no longer counts as waiting. Every thread that sleeps is counted, exactly once, until it leaves on whatever path, and the thread that waits for them '
     'never holds the lock they need in order to leave.',
     ['schedules', 'histories'], 'every interleaving of waits with blocking disable, stop-and-continue and destruction',
     'A use after free here needs the destroying thread to win a race of a few instructions against the last waiter; no test destroys a handler under load.',
     [WH, CW],
     [('count of waiting threads', WH), ('destructor blocks until it is zero', WH)],
     'Typestate over every path of blocking_disable and of the destruction sequence (body, members, bases): the count must have been seen zero with the flag false, and the '
     'mutex taken since, before return or destruction; per-path balance of the count in every wait operation; loop components are checked to release the mutex.',
     'quiescence typestate before exit/destroy_member; count +1 before sleeping, -1 on every path before the final release, always under the mutex; no access to the '
     'handler after the final release (operations returning a reason); no waiting loop holds the mutex throughout',
     AI + 'typestate and balance', 'The consumer operation that takes its element after it stopped being counted is excluded, as the property speaks of wait operations.')

prop('W05', 'Integer and boolean waits decide exactly the requested relation',
     'Waiting on an integer handler for equal, greater, greater-or-equal, lower or lower-or-equal sleeps only while the value does not satisfy that relation to the given value, '
     'and reports success only when it does; waiting on a boolean handler does so for being open. Increment and decrement change the integer by exactly one, setting leaves exactly the given value, '
     'open and close leave the handler open and closed, and no other operation changes the value.',
     ['inputs', 'schedules'], 'every value, every expected value, every interleaving',
     'Tests use two or three values per relation and never the boundary together with a concurrent change.',
     [IW, BW, WH], [('predicate of each wait', IW), ('value changed under the mutex', WH)],
     'The predicate closures are inlined; the facts at each sleep and each successful exit are compared with the relation named by the operation over symbolic value and argument; '
     'per-path net change of the value for each operation.',
     'sleep entails not relation; condition_met entails relation (current value, argument); net change of the value per operation, under the mutex',
     AI + 'symbolic comparison entailment', 'Integer overflow of the value is not considered.')

prop('W06', 'Counter waits consume exactly one unit, never below the threshold',
     'A counting wait that succeeds lowers the counter by exactly one, in the same locked section in which it was seen above the threshold; one that fails by timeout or '
     'disabling does not change it. Each increment raises it by exactly one, each produced element likewise, the threshold never changes, and waiting for the threshold succeeds only '
     'if the counter equals it.',
     ['schedules', 'inputs', 'histories'], 'any number of concurrent waiters and incrementers, every counter and threshold',
     'Two consumers sharing one unit need a precise interleaving; the C++ tests for counters are not even built here.',
     [CW, CO, WH], [('decrement with the lock returned by the wait', CW)],
     'Per-path net change of the counter in every operation with the facts that hold where it changes.',
     'net change -1 iff success, at a point where threshold < value is known in the same section; +1 for increments; 0 elsewhere; threshold not written',
     AI + 'net-change obligation', 'Integer overflow is not considered.')

prop('W07', 'Producer/consumer handlers deliver each element exactly once, in order',
     'Each produced element is stored exactly once before it is announced, and each successful consume takes exactly one element, from the front, having reserved it first. Consumers that fail '
     'take nothing and throw the exception that tells truly whether the handler was disabled or time expired. Elements not consumed yet are never discarded, including when the two buffers of '
     'the queue are exchanged.',
     ['schedules', 'histories'], 'any number of producers and consumers, every interleaving, every length of queue',
     'Duplicates or losses need two consumers at the same point; existing tests use one consumer and are not built here.',
     [CO, DQ, DB], [('store, then announce', CO), ('one mutex around reading and removing the front', DQ)],
     'Counting automata over the paths of produce and consume with the container operations of the queue inlined; the fifo automaton tracks what is known of the '
     'front container under the locks held.',
     'stored==announced==1 per produce with store first; reserved==taken==1 per successful consume; 0/0 on exceptions with matching state facts; front is read where the queue was seen '
     'non-empty under the same lock, removed once under that lock; containers are emptied or exchanged only when known empty',
     AI + 'counting automata', 'Exceptions thrown by copying an element are not modelled.')

prop('W08', 'The double-buffered queue keeps its ends apart and guarded',
     'In the double-buffered queue every access to the producing end and to the consuming end is made under the mutex of that end, pushes store exactly the given element once at the producing '
     'end, and front and pop read and remove one element of the consuming end. Exchanging the ends happens in one locked section of both mutexes, empties the old consuming end and loses no pushed element; clearing '
     'empties both, and the size and emptiness queries report on the consuming end (or on both for the combined query).',
     ['schedules', 'inputs', 'histories'], 'every element type instantiation, every interleaving of pushes, pops and exchanges',
     'No test exercises the queue from several threads; a missing guard is invisible to sequential tests.',
     [DB], [('one mutex per end', DB), ('swap holds both', DB)],
     'Which container each public operation touches and which mutexes it holds there is computed for every instantiation; exchange is followed through the pointers.',
     'intersection of the locks held over all accesses to an end is not empty; push/pop/front/swap/clear effect counts on the right end on every path',
     AI + 'lockset and effect counting', 'Using a reference to the front after another thread removed it is the caller\'s responsibility.')

GP = 'cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp'
IP = 'cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp'
LP = 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp'
OP = 'cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp'
HE = 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp'

prop('M01', 'A guard keeps the leased data locked exactly as long as it refers to it',
     'Every non-empty GuardedPtr holds exactly one shared lock on the data it refers to, from the moment it is obtained from a lessee until it is destroyed or assigned, also when it '
     'is moved, and an empty one holds none; refused accesses leave nothing locked. It gives access to the data leased and to nothing else, and no operation hands out a pointer or reference '
     'to the data after the lock that keeps it alive has been released.',
     ['histories', 'schedules'], 'every sequence of lock, move, assignment and destruction of guards, with and without data, on every path',
     'A missing or doubled unlock shows only when an owner later waits for ever or destroys data in use; tests take one guard and drop it.',
     [GP, LP, IP],
     [('lock taken by the lessee, released by the guard', LP), ('move transfers the lock', GP)],
     'Each operation of lessees and guards is run with the guard empty and non-empty; the locks held at each exit are compared with the non-empty guards that exist there, and '
     'returned pointers and references are traced to the data.',
     'at every exit: held shared locks == non-empty guards (by data), none exclusive; returned guard refers to the data of the lessee; no unlock of an unheld mutex; no raw pointer or reference to '
     'the data escapes without its lock', AI + 'typestate/lock balance', 'The two access operators of LesseePtr break the last clause and are listed as known findings.')

prop('M02', 'Owned data is destroyed exactly once, never under a guard; leases know',
     'The data of an OwnerPtr is destroyed exactly once, by the deleter it was given, when the owner is reset, re-assigned or destroyed; the deleter runs while no guard exists, and no access '
     'is given afterwards: lessees and owners report the data as gone, locking with exception throws ValueAccessException and otherwise the guard is empty, in all cases as seen under the lock. '
     'Moving an owner transfers the data and leaves the source without it; owners cannot be copied; null pointers are rejected with InitializationException.',
     ['histories', 'schedules'], 'every sequence of reset, move, lease and lock, in every interleaving of owner and lessees, with any deleter',
     'The races between an owner that resets and lessees that lock, and moves onto or from empty owners, are not in the tests.',
     [OP, LP, IP],
     [('deleter under the exclusive lock', IP), ('validity checked with the shared lock held', LP)],
     'Automata over every path of the owner, lessee and shared data: each deletion happens in (or after) an exclusive section that read the pointer, is given that pointer once and leaves it null; '
     'what each operation leaves in source and target is compared with ownership transfer; presence answers are compared with the facts under the lock.',
     'deleter called at most once with the pointer read under the exclusive lock, known not null, pointer null when the lock is released; reset/assignment/destruction reach it; no return of access '
     'unless presence was seen under the shared lock; source of a move is empty', AI + 'typestate of the shared data', 'Data destroyed by the user behind the back of the owner is out of scope; deleters are assumed to return normally.')

prop('M03', 'Heritable shares one object, destroys it once, compares and casts it',
     'A Heritable destroys the object it was given exactly once, as the type it was created with, when the last Heritable that shares it goes; copies, conversions to base types and assignments '
     'share the very same object; access, comparison and ordering concern the objects, not the pointers; can_cast is true exactly when dyn_cast would succeed, and dyn_cast of another type throws '
     'instead of returning a wrong object.',
     ['histories', 'inputs'], 'every history of construction, conversion, copy and assignment, for classes with and without virtual destructors',
     'Tests use classes with virtual destructors and never count destructions across conversions.',
     [HE, 'cpp_utils/include/cpp_utils/memory/Heritable.hpp'],
     [('one shared control block', HE), ('checked casts', HE)],
     'Every constructor, assignment and operator of each instantiation (same type, derived, const) is run; the pointer value each object ends with, the type each raw pointer is adopted with and the objects '
     'each comparison is applied to are compared with the statement.',
     'one adoption per raw pointer with its static type; copies/conversions hold the value of the source; comparison operator applied to the two objects in order; can_cast == outcome of the dynamic cast',
     AI + 'value provenance', 'Adopting the same raw pointer twice is the caller\'s error.')

# ------------------------------------------------------------------ values, random numbers, timers
FI = 'cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp'
FH = 'cpp_utils/include/cpp_utils/types/Fuzzy.hpp'
TS = 'cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp'
RM = 'cpp_utils/src/cpp/math/random/RandomManager.cpp'
TC = 'cpp_utils/src/cpp/time/Timer.cpp'
PC = 'cpp_utils/src/cpp/time/PausableTimer.cpp'
EXACT = ('exact input/output relation: every path of each operation is enumerated symbolically (opaque element values, symbolic level/state) and, for every truth '
         'assignment of the conditions of the specification, the result and the object left behind are compared with the specified ones')

prop('F01', 'Fuzzy values: what "valid", "set", equal and each level mean',
     'A Fuzzy value is valid exactly when its level is at least "default" (0) and set exactly when its level is at least "fuzzy" (20). Two Fuzzy values are equal exactly when '
     'neither is set, or their levels and their values are equal; a Fuzzy value equals a plain value exactly when it is valid and the values are equal; != is always the opposite. '
     'Default construction gives the default level, construction or assignment from a value gives the "set" level (40) unless another is given, and stores both unconditionally; '
     'unset gives the unset level (-20); setting the level keeps the value; reading (including every access operator) neither changes value nor level and refers to the stored value. '
     'The name of a level is that of the five named levels, empty for any other.',
     ['inputs'], 'every level in the range of the type, every value, every operation',
     'The tests construct a handful of levels; the relation between validity, being set, level and value in comparisons has many combinations (in particular unnamed levels between the named ones).',
     [FI, FH], [('level thresholds', FI), ('comparison', FI), ('defaults', FH)],
     'Each member is analysed for Fuzzy<int> and Fuzzy<bool> with symbolic level and value; default arguments through small client functions.',
     EXACT, AI + 'decision-table comparison', 'Exceptions thrown by the comparison of T end the program (noexcept) and are out of scope.',
     state=[('level', 'certainty of the value', FH), ('value', 'the value', FH)])

prop('R01', 'Random managers: independent generators, reproducible and thread-safe',
     'In both random managers, a seeded number depends only on the seed given: it is drawn from a generator seeded with it in the same operation and (in the thread-safe manager) the same locked section. '
     'Only drawing from the sequence (one number per call) and seeding it (with the seed given, always) affect the sequence, which starts from the seed given on construction; pure random numbers come from the '
     'random device and affect nothing else. The thread-safe manager never uses one of its seeded generators without holding the lock of that very generator. The generic rand forms are '
     'the pure, sequence and seeded operations.',
     ['schedules', 'histories', 'inputs'], 'every interleaving and every order of calls, all seeds',
     'The tests compare a few seeds and run a couple of threads; a shared or unlocked generator corrupts the sequence only under particular interleavings or orders of calls.',
     [TS, RM], [('one generator per purpose, each with its own lock', TS)],
     'The sequence generator is the one seed() seeds. Every use of a generator on every path is followed with the locks held and the last seeding in the current locked section.',
     'generator-locked, sequence-untouched, draw (exactly one from the right generator, returned unchanged), seed, initial-seed',
     AI + 'typestate of the generators', 'Quality of the numbers is not considered.',
     state=[('sequence generator', 'state of the reproducible sequence', TS), ('seeded generator', 'reseeded on each use', TS)])

prop('K01', 'Timers measure exactly the time they have been playing',
     'A timer reports the time since its creation or last reset. A pausable timer reports the total time it has been in the playing state since its creation or last reset: pausing adds the time since it '
     'last started to play to the time stored, playing resumes counting from that moment, elapsed time is the stored time plus, only while playing, the time since it last started to play; pausing a paused '
     'timer and playing a playing one change nothing; resetting goes back to zero in the same state; it starts in the state asked for. Milliseconds are not truncated except in the whole-millisecond query.',
     ['histories'], 'every sequence of play, pause, reset and queries',
     'Tests sample three or four sequences with tolerances of milliseconds; a double count or a lost interval needs a particular sequence (pause twice, reset while paused, play while playing).',
     [TC, PC], [('stored time plus running time', PC)],
     'The effect of each operation on the abstract state (stored time, playing, start) is computed symbolically; clock readings and duration arithmetic are kept as linear expressions.',
     'for each operation and both states: post state and result equal the specified linear expression over (stored, now, start)',
     AI + 'symbolic linear arithmetic over clock readings', 'The clock itself is assumed to be right and durations to be representable.',
     state=[('stored time', 'time of finished plays', PC), ('playing flag', 'state', PC), ('start', 'last start or reset', TC)])

BI = 'cpp_utils/include/cpp_utils/types/impl/Builder.ipp'
BH = 'cpp_utils/include/cpp_utils/types/Builder.hpp'
EB = 'cpp_utils/include/cpp_utils/enum/impl/EnumBuilder.ipp'
prop('B01', 'Builders hold and find exactly the associations they are given',
     'A Builder (and an EnumBuilder) holds after construction and after each change of values exactly the map it is given; when it is given keys by value, every key of every value is associated with that '
     'value and nothing else is. Looking up a key with an output argument returns true exactly when the key is there and then (only then) stores its value; looking it up by value returns it, or throws '
     'ValueNotAllowedException when it is not there. Looking up never changes the values.',
     ['inputs', 'histories'], 'every map, every key, every sequence of changes and look-ups',
     'Tests build two or three small maps; an association lost for particular shapes (empty sets, several keys, a later change of values) is not seen.',
     [BI, EB, BH], [('index by key', BI), ('lookup', BI)],
     'The contents after each operation and the results of look-ups are compared symbolically; the indexing loops are followed by an automaton that requires one store of (key, value) per key visited '
     'and the exhaustion of both loops.',
     'values held == argument; automaton of the index; lookup result, output and exception as a function of "key found"', AI + 'automaton over loops plus symbolic comparison',
     'When the same key is given for two values either may win.',
     state=[('values_', 'associations', BH)])

SI = 'cpp_utils/include/cpp_utils/types/impl/'
prop('S01', 'Singletons: one object, created once, seen by all',
     'Singleton gives from both getters the same, single object of the process, created on first use and never replaced. SafeInitializableSingleton creates its object at most once, in whatever '
     'interleaving of initialize and getters: initialize returns true exactly when this call created the object, a getter asked to create never returns null, one asked not to create never creates, '
     'both return the current object, and the pointer is never used without holding the lock of the class. InitializableSingleton creates on initialize (returning true) and its getters give that object.',
     ['schedules', 'histories'], 'every interleaving of initialize and getters, every history',
     'Tests run the singletons from one thread; a check of the pointer outside the lock, or a second creation, needs a race.',
     [SI + 'SafeInitializableSingleton.ipp', SI + 'Singleton.ipp', SI + 'InitializableSingleton.ipp'],
     [('checked and created in one locked section', SI + 'SafeInitializableSingleton.ipp'), ('one static variable', SI + 'Singleton.ipp')],
     'Every access of the static pointer on every path is checked for the common lock; at each exit the value of the pointer and the result are compared with what was seen of the pointer in the same locked section.',
     'guarded: intersection of locks over accesses; created implies seen null in the same section; result == current pointer; asked to create implies not null; one static variable, not per thread',
     AI + 'lockset plus exact post states', 'What the constructor of T does is out of scope.',
     state=[('the_ptr_', 'instance', SI + 'SafeInitializableSingleton.ipp')])

DB = 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp'
DH = 'cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp'
prop('D01', 'The thread safe database: atomic operations, and iterators that freeze it',
     'Every operation of SafeDatabase reads its map only while holding its mutex (shared or exclusive) and changes it only while holding it exclusively, and does what it says in one step: add stores only '
     'an absent key and returns whether it did; modify replaces only a present value and returns whether it did; add_or_modify always leaves the given value and returns whether the key is new; erase '
     'returns whether there was something to erase; is, at (std::out_of_range when absent), size and find answer about the current contents. Each SafeDatabaseIterator, also a copied one, holds exactly one shared '
     'lock of the database from construction to destruction, so the database does not change while any iterator exists.',
     ['inputs', 'schedules', 'histories'], 'every key and value, every interleaving of operations from any number of threads, every number and copy of iterators',
     'Sanitisers and tests see only races that happen; a copied iterator or an unlocked read fails only under contention.',
     [DB, DH], [('map only under the mutex', DB), ('one lock per iterator', DB)],
     'Lockset with modes at every access of the map on every path; at each exit the contents, the returned value and the exception are compared with whether the key was found in the same locked section; '
     'the lock count of the iterator is followed through every constructor (also implicit copies) and the destructor.',
     'read under shared/exclusive, write under exclusive; (found, contents, result) relation per operation; net locks: constructors +1, destructor -1', AI + 'lockset, lock counting, exact post states',
     'Taking a second shared lock in one thread (two iterators) is what the design relies on and is not judged. What users do with a const iterator they slice off is out of scope.',
     state=[('internal_db_', 'contents', DH)])

PO = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
PH = 'cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp'
prop('Q01', 'The unbounded pool lends every element to one borrower at a time and keeps count',
     'loan always succeeds and gives one of the free elements, which is not free any more afterwards; when there is none it first adds a whole batch (configuration.batch_size) of elements created with '
     'new_element_, and the count of elements grows by exactly the number created, here and when the pool is initialised with initial_size elements. return_loan throws InconsistencyException, changing '
     'nothing, when no element is loaned (count of elements == free elements); otherwise it resets the element and then makes it free again, exactly once. A batch size of 0 is refused at construction with '
     'InitializationException. The destructor deletes every free element exactly once.',
     ['inputs', 'histories'], 'every sequence of loans and returns, every configuration',
     'Tests follow a few short sequences with one or two batch sizes.',
     [PO, PH], [('take from the back', PO), ('augment', PO)],
     'Each operation is followed by an automaton over the free elements (read end / removed end, created / stored, reset / returned, visited / deleted) from a symbolic state; counts are compared exactly.',
     'loan: non-empty known at the read, removed element is the one read; created == stored == counted; return: reset before free, once; refusal condition', AI + 'automata over element operations plus linear counts',
     'Numbers of created elements are compared exactly for 0 to 2 elements per call and symbolically for the count; the pool is documented as not thread safe. Destructors of derived pools are out of scope.',
     state=[('elements_', 'free elements', PH), ('reserved_', 'elements created', PH)])

TP = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
TPH = 'cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp'
prop('T01', 'The thread pool runs the registered task once per emitted id',
     'emit puts the given id into the queue, exactly once, when a task is registered under it, and otherwise throws ValueNotAllowedException and queues nothing. slot stores the given task under an unused id '
     'and throws ValueNotAllowedException, changing nothing, when the id is used. Tasks are never removed or replaced once registered, and the map of tasks is only accessed holding its mutex. A worker '
     'executes for every id that it takes from the queue the task registered under that id, exactly once and without holding the mutex. enable starts the configured number of threads, with the queue enabled, '
     'exactly when it switches the pool from disabled to enabled, also after an earlier disable and also when several threads call it at once; disable disables the queue before joining every thread and keeps '
     'none of them; after the destructor no worker runs: the queue is disabled and every thread joined before any member is destroyed. wait_all_consumed waits on the queue with the given time-out and '
     'returns its reason. new_unique_task_id never gives the same id twice (until the counter wraps).',
     ['schedules', 'inputs', 'histories'], 'every sequence of enable/disable/emit/slot, every interleaving of workers with them, every number of threads',
     'Tests run a handful of tasks; a lock lost around the map, a thread joined too late or a restart that does nothing shows only in particular histories.',
     [TP, TPH], [('look up, then execute outside the lock', TP), ('exchange of enabled_', TP)],
     'The workers, emit, slot, enable, disable and the destructor are followed by automata over the calls to the queue, accesses of the map (with locks), thread starts and joins; state switches must be atomic '
     'read-modify-writes.',
     'worker: consume -> look up that id under the mutex -> execute that element once, unlocked; emit/slot as a function of found; starts == number_of_threads on the off->on switch; queue disabled before joins; joins before member destruction',
     AI + 'typestate automata over calls, locks and threads',
     'Exceptions escaping from tasks end the process (std::thread) and are out of scope, as are enable and disable overlapping each other. The number of threads is followed for 0, 1 and 2. The queue itself is covered by the W properties.',
     state=[('slots_', 'tasks by id', TPH), ('threads_', 'workers', TPH)])

HC = 'cpp_utils/src/cpp/history/CommandHistoryHandler.cpp'
HH = 'cpp_utils/include/cpp_utils/history/CommandHistoryHandler.hpp'
prop('H01', 'The command history moves one command at a time and never reads outside itself',
     'add_command appends the given command at the end of the history, without removing or reordering others, and moves the cursor after the last command; an empty command changes nothing. '
     'get_previous_command moves the cursor one command back and returns the command there, or returns an empty string and stays when the cursor is at the first command. get_next_command moves it one '
     'command forward and returns the command there, or an empty string once it is past the last one, where it stays. With an empty history both return an empty string however often they are called. '
     'No call, after whatever sequence of calls, reads a position that the history does not have.',
     ['inputs', 'histories'], 'every sequence of calls, every number of commands',
     'Tests walk one history with a few commands; the end of the history and the empty one are reached by sequences they do not try.',
     [HC, HH], [('cursor one past the last command', HC), ('unsigned cursor', HH)],
     'Each operation is analysed for the empty history from every cursor position that can be reached (unsigned wrap-around exactly), and for a non-empty one with symbolic cursor and size, split by the '
     'position of the cursor relative to the end; cursor, returned element and contents at each exit are compared.',
     'empty: cursors reachable by moves, no element read, "" returned; non-empty: 0 <= cursor <= size kept; element read at a known position < size; (cursor, result) as a function of the position',
     AI + 'exact post states over cursor and size with modular unsigned arithmetic', 'Lengths are mathematical integers below 2^63. Not thread safe, as documented.',
     state=[('command_history_', 'commands', HH), ('current_index_', 'cursor', HH)])

EI = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
EH = 'cpp_utils/include/cpp_utils/event/EventHandler.hpp'
prop('E01', 'An event calls the current callback exactly once, exclusively, and is counted',
     'Every event (event_occurred_, simulate_event_occurred) of an EventHandler calls the callback that is in place exactly once with the arguments of the event, and then counts exactly one event, when a callback '
     'is set; when none is set it calls and counts nothing. The callback is called with a mutex held that every change of the callback or of whether one is set also holds, and whether it is set is known under '
     'that mutex: events are delivered one at a time, and once unset_callback (or a change of callback) has returned no call of the old callback is running or starts. event_count returns the number of '
     'counted events, reset_event_count makes it 0 and decrement_event_count takes one away in one step, never below 0.',
     ['schedules', 'inputs', 'histories'], 'every interleaving of events with set_callback, unset_callback and the counter, every type of arguments',
     'Tests raise events from one or two threads; a callback called after unset returned, or two at a time, needs an interleaving.',
     [EI, EH], [('callback under the mutex', EI), ('counted after the callback', EI)],
     'The mutexes held at every call and every change of the callback are intersected; in a functional view of each operation the calls of the callback are counted on every path and the counter is compared '
     'at each exit; writes of the counter must be read-modify-writes of its current value.',
     'common mutex of calls and changes; flag known true, in the store, at the call; calls == 1 iff set, arguments unchanged; counter == old + calls; decrement guarded in the same step',
     AI + 'lockset, call counting and exact post states', 'Calling set_callback or unset_callback from inside the callback itself (recursive mutex) is out of scope, and so is what the callback does.',
     state=[('callback_', 'callback', EH), ('is_callback_set_', 'set or not', EH), ('number_of_events_registered_', 'events counted', EH)])

prop('E02', 'Setting or unsetting the callback tells the event source once per transition',
     'set_callback on a handler without callback calls callback_set_nts_ exactly once, set_callback on one that has a callback calls callback_change_nts_ exactly once, unset_callback on one that has a callback '
     'calls callback_unset_nts_ exactly once and on one without callback none of them. The hook of set_callback runs after the new callback is in place, that of unset_callback after no callback is set any '
     'more; neither runs with the mutex held that is taken to call the callback, so that an event being delivered cannot block it. The decision, the change and the hook happen in one locked section, so '
     'transitions of several threads do not mix. A new handler has no callback, and nothing but set_callback and unset_callback changes that.',
     ['schedules', 'histories'], 'every sequence and interleaving of set_callback, unset_callback and events',
     'Two threads that set and unset at once, or an event during the hook, are not tried by tests.',
     [EI, EH], [('exchange of is_callback_set_', EI), ('hooks under event_mutex_ only', EI)],
     'Both operations are followed from both states by an automaton over the changes of callback and flag and the calls of the hooks (events carry the locks held).',
     'hook due for (operation, was set) exactly once, after the change; same mutex held from the change to the hook; not the mutex of the callback', AI + 'typestate automaton plus lockset',
     'What the hooks of derived handlers do is not part of this property.',
     state=[('event_mutex_', 'serialises transitions', EH), ('internal_callback_mutex_', 'held while the callback is called', EH)])

prop('E03', 'wait_for_event wakes up for every reason it waits for, and reports what happened',
     'A thread in wait_for_event(n) sleeps only while fewer than n events are counted and a callback is set; every change that ends this (an event counted, the callback unset) is made under the mutex of '
     'the condition variable and followed by waking all waiting threads, so that no wake-up is lost; it returns true exactly when at least n events are counted at that moment. A waiting thread is counted '
     'while it waits, and unset_callback, after it cleared the callback, returns only after it has seen, under the mutex, that no thread is waiting, waking them up and releasing the mutex until then: '
     'the handler can be destroyed afterwards.',
     ['schedules', 'histories'], 'every interleaving of any number of waiting threads with events and unset_callback',
     'A lost wake-up or a waiter that outlives unset_callback depends on preemption at one point.',
     [EI, EH], [('predicate under wait_mutex_', EI), ('awake_all_waiting_threads_nts_', EI)],
     'Lost wake-ups: every write that can make the predicate true is under the mutex of the sleepers and reaches notify_all on every path. The count of waiters is balanced on every path; the automaton of '
     'unset_callback demands that the count is seen zero under the mutex after the flag was cleared; result compared at each exit.',
     'write relevant to predicate -> under wait mutex -> notify_all before exit; sleep only with predicate false; count +1/-1 around the sleep under the mutex; zero seen before return',
     AI + 'predicate-to-notify obligations, counting, automaton', 'Events are counted up to 2^32. reset_event_count and decrement_event_count only make events missing. Threads that call wait_for_event after unset_callback began are the business of their caller.',
     state=[('threads_waiting_', 'waiting threads', EH), ('number_of_events_registered_', 'events counted', EH), ('is_callback_set_', 'set or not', EH)])

PER = 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp'
SIN = 'cpp_utils/src/cpp/event/StdinEventHandler.cpp'
FWH = 'cpp_utils/src/cpp/event/FileWatcherHandler.cpp'
SEH = 'cpp_utils/include/cpp_utils/event/impl/SignalEventHandler.ipp'
LEH = 'cpp_utils/src/cpp/event/logging/LogEventHandler.cpp'
LSH = 'cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp'
prop('E04', 'An event source runs exactly while a callback is set, never on a dead object',
     'For PeriodicEventHandler, StdinEventHandler, FileWatcherHandler and SignalEventHandler the source of events (thread, file watcher, registration in the SignalManager) is started exactly once when a '
     'callback is set, whether in the constructor or later, and stopped exactly once (joined, destroyed, unregistered under the id it got) when it is unset, for every alternation of setting and unsetting; a '
     'handler constructed without callback has no running source. LogEventHandler and LogSevereEventHandler connect to the log exactly once. Every source raises its events through event_occurred_. No member '
     'that the delivery of an event uses is initialised after the callback has been set, and in the destructor the source is stopped (the connection to the log closed) before any member that the delivery '
     'uses, including those of derived classes, is destroyed.',
     ['schedules', 'histories'], 'every alternation of set and unset, every moment at which an event can arrive relative to construction and destruction',
     'A thread left running, a restart that does nothing or a member destroyed one line too early needs a sequence or a moment that tests do not try.',
     [PER, SIN, FWH, SEH, LEH, LSH], [('callback_set_nts_ / callback_unset_nts_', PER), ('connection to the log', LEH), ('registration', SEH)],
     'The constructors, the two hooks (alternated from every reachable state of the members) and the destructor of every class derived from EventHandler are followed by automata over the start (thread, watcher, '
     'registration) and the stop (join, reset, unregistration) of its source. The code that the source runs is evaluated with the captured values to find the members an event uses; their initialisation and '
     'destruction are ordered against the callback being set and the source being stopped.',
     'starts == 1 on off->on, stops == 1 on on->off, id unregistered == id registered; used member initialised before the flag is set; stop precedes destruction of used members in the whole destructor chain',
     AI + 'typestate automata over member life cycles', 'The destructor of another class derived by a user is its business. Exceptions while a source is started are not covered (FileWatcherHandler).',
     state=[('period_thread_', 'thread', 'cpp_utils/include/cpp_utils/event/PeriodicEventHandler.hpp'), ('connection_callback_', 'owner of the connection', 'cpp_utils/include/cpp_utils/event/LogEventHandler.hpp')])

prop('E05', 'A periodic handler raises exactly one event per elapsed period and stops at once',
     'Constructing a PeriodicEventHandler with period 0 throws InitializationException, with any other period it succeeds, keeps the period given and never changes it. While a callback is set, its thread waits for '
     'one period (in milliseconds) at a time and raises exactly one event for each that elapsed; being woken up to stop, or spuriously, raises none. The thread ends only when the handler has been stopped; it is '
     'marked as active before the thread is started. Unsetting the callback clears the mark under the mutex of the wait, then wakes the thread up, then joins it without holding that mutex: the wake-up '
     'cannot be lost and it does not wait for the period to elapse.',
     ['schedules', 'inputs'], 'every interleaving of the thread with unset_callback, every period',
     'Tests use a few periods; a wake-up lost between the check and the wait makes stopping last a whole period, once in many runs.',
     [PER], [('period_thread_routine_', PER), ('stop_period_thread_nts_', PER)],
     'The routine is followed by an automaton over waits (ended by timeout, predicate or notification), events raised and its end; the duration waited for is compared with the period as a quantity in '
     'milliseconds; lost wake-ups are decided by the write/notify obligations, the stop by an automaton clear -> notify -> join with the mutexes held.',
     'event only after a wait that ended by timeout, one each; timeout == period_time_ ms; exit only with inactive; InitializationException iff period == 0',
     AI + 'typestate automata and predicate-to-notify obligations', 'Drift (the time the callback takes is not subtracted) is allowed, as is delay by the scheduler.',
     state=[('timer_active_', 'active', 'cpp_utils/include/cpp_utils/event/PeriodicEventHandler.hpp'), ('period_time_', 'period', 'cpp_utils/include/cpp_utils/event/PeriodicEventHandler.hpp')])

SMI = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
SMH = 'cpp_utils/include/cpp_utils/event/SignalManager.hpp'
prop('E06', 'Each signal received calls every registered callback once, from a safe context',
     'register_callback stores the given callback under an id never given before and returns it; unregister_callback removes exactly the callback with the given id, or throws InconsistencyException and changes '
     'nothing when there is none. The callbacks are only accessed and called with one common mutex held: once unregister_callback has returned, the callback is not running and is not called any more. The '
     'manager installs its handler for its signal and starts one thread. The handler that the system calls counts exactly one signal and then notifies the thread; it takes no mutex, waits, logs or throws '
     'nothing. The thread takes one counted signal at a time, only when there is one, and for each calls every registered callback exactly once; it sleeps only when no signal is counted and it has not to stop, '
     'and ends only when it has to. The destructor stops it (under the mutex of its wait), wakes it up and joins it before anything is destroyed.',
     ['schedules', 'histories'], 'every sequence and interleaving of registrations, unregistrations and signals',
     'Tests raise a few signals; a signal arriving at a lock or a callback unregistered during delivery needs a particular moment.',
     [SMI, SMH], [('map under active_callbacks_mutex_', SMI), ('handler without mutex', SMI), ('thread routine', SMI)],
     'Locksets of every access of the callbacks; exact post states of register/unregister; automata over iteration and calls, over the count and the calls in the thread, over the code the system calls, and '
     'over stop flag, notification, join and destruction.',
     'common mutex; id = old + 1 in one exclusive step; erase exactly id or throw; each element called once per pass; count -1 <-> one pass; handler: one atomic +1 then notify, no other effect',
     AI + 'lockset and typestate automata',
     'A signal between the check of the thread and its sleep may be delivered only with the next one (documented in the code: a handler must not take the mutex). A callback that unregisters itself is out of scope.',
     state=[('active_callbacks_', 'callbacks by id', SMH), ('signals_received_', 'signals not yet handled', SMH), ('signal_handler_thread_stop_', 'stop', SMH)])

LG = 'cpp_utils/src/cpp/logging/'
LE = 'cpp_utils/src/cpp/event/logging/'
LK = 'cpp_utils/src/cpp/testing/LogChecker.cpp'
prop('G01', 'Log consumers print every entry their configuration accepts, once',
     'A BaseLogConsumer keeps the filter and the verbosity of the configuration it is built with. It accepts an entry if and only if the kind of the entry is not beyond the verbosity (Error < Warning < Info) '
     'and its category or its message contains a match of the regular expression configured for that kind of entry. StdLogConsumer::Consume writes nothing for an entry that is not accepted, and the message '
     'of an accepted entry exactly once: to std::cerr for errors and warnings, to std::cout for the rest. BaseLogConfiguration is built with verbosity Warning at the default level; set(verbosity) replaces the '
     'verbosity exactly when the level of the new one is not lower than that of the current one; set(filter) does the same, separately, for the filter of each of the three kinds, with the filter given for that '
     'same kind, value and level together.',
     ['inputs', 'histories'], 'every entry (kind, category, message), configuration and sequence of set calls',
     'No test reaches these classes; whether an entry is accepted depends on three independent decisions and set on the levels of three kinds, and tests could only sample a few combinations.',
     [LG + 'BaseLogConsumer.cpp', LG + 'StdLogConsumer.cpp', LG + 'BaseLogConfiguration.cpp'],
     [('accept_entry_', LG + 'BaseLogConsumer.cpp'), ('Consume and get_stream_', LG + 'StdLogConsumer.cpp'), ('set', LG + 'BaseLogConfiguration.cpp')],
     'The value returned by accept_entry_ is compared, on every path, with the one that the facts about kind, verbosity and the two searches of that path call for; automata over the calls that print, and, for each kind, '
     'over the assignments to its filter.',
     'result = (kind <= verbosity) && (match(category) || match(message)) with the filter [kind]; print_* only if accepted, print_message exactly once, stream by kind; assigned <-> !(new level < old level), same kind',
     AI + 'path-wise decision tables and typestate automata',
     'std::regex_search and the print_* functions of Fast DDS are taken as documented; null category and invalid regular expressions are out of scope.',
     state=[('filter_', 'regular expression by kind', LG + 'BaseLogConsumer.cpp'), ('verbosity_', 'most detailed kind accepted', LG + 'BaseLogConsumer.cpp')])

prop('G02', 'Each log entry reaches the log event handlers once, within their threshold',
     'A LogEventHandler connects to the log exactly once when it is built. Each entry delivered to that connection while the handler exists is consumed exactly once by the consume_ of the actual class of the handler, '
     'and the handler is kept from being destroyed meanwhile; once it is gone nothing is called. Consuming an entry adds it at the end of the entries recorded, under their lock, and then raises exactly one event that carries it, with that '
     'lock released. LogSevereEventHandler does so exactly for the entries whose kind is at its threshold or more severe, keeps the threshold given, and asks the log for verbosity equal to that threshold exactly when '
     'it is beyond Error. LogChecker counts with the threshold given; check_valid flushes the log before it counts, and returns true if and only if the number of events is at least the expected number and at most the '
     'larger of the expected and the maximum number given.',
     ['inputs', 'schedules'], 'every entry, threshold and bound; entries delivered while handlers are destroyed',
     'The tests send a few entries of one kind to one handler; an entry at the threshold, entries in flight during destruction or bounds that cross need particular inputs or moments.',
     [LE + 'LogConsumerConnection.cpp', LE + 'LogEventHandler.cpp', LE + 'LogSevereEventHandler.cpp', LK],
     [('consumer connection holding a lease', LE + 'LogConsumerConnection.cpp'), ('consume_', LE + 'LogEventHandler.cpp'), ('threshold', LE + 'LogSevereEventHandler.cpp'), ('check_valid', LK)],
     'Automata over the calls and locks on every path of the connection, of both consume_ functions, of the function given to the log (with the dynamic type of the object) and of check_valid; exact values of the fields after construction.',
     'lease locked -> handler called once with the entry; record under lock, then one event, lock released; event <-> kind <= threshold; SetVerbosity(threshold) <-> threshold > Error; valid <-> expected <= n <= max(expected, max)',
     AI + 'typestate automata and path-wise decision tables',
     'The log of Fast DDS itself is trusted to deliver its entries.',
     state=[('entries_consumed_', 'entries recorded', LE + 'LogEventHandler.cpp'), ('threshold_', 'least severe kind taken', LE + 'LogSevereEventHandler.cpp')])

SE = 'cpp_utils/src/cpp/event/StdinEventHandler.cpp'
SEH = 'cpp_utils/include/cpp_utils/event/StdinEventHandler.hpp'
prop('E07', 'Each line asked from the standard input gives exactly one event',
     'A StdinEventHandler starts with exactly the number of lines given asked for; read_one_more_line asks for exactly one more. Its thread reads characters only for a line that has been asked for, and ends only '
     'when it is disabled. Each line starts empty, with the position at its beginning. A line ends with newline, carriage return, the end of the input or Ctrl+C, and nothing more is read for it; then exactly '
     'one event is raised, with the line as edited, or with an empty one on Ctrl+C. The line is recorded in the history exactly once if it ended without Ctrl+C, is not empty and the input is not being ignored; '
     'nothing else is recorded. The thread notices the end of the input. The editing position is always within the line, and no character is inserted, erased or read out of it. Nothing is divided by a terminal width '
     'of zero. The mode of the terminal is saved before it is changed, changed before anything is read, and the saved mode is restored exactly once, when the thread ends.',
     ['inputs', 'histories'], 'every sequence of characters read, every terminal, every history and every moment at which a line is asked for or the handler is disabled',
     'The thread reads a terminal: unit tests do not type escape sequences into a raw terminal, run without one, or end the input in the middle of a line.',
     [SE, SEH], [('stdin_listener_thread_routine_', SE), ('update_line and the functions given to it', SE), ('get_terminal_width', SE), ('set_terminal_mode_', SE)],
     'Typestate automata over the reading thread (asked / reading / ended / recorded, terminal mode); relation of line and position at every point where they are used, with an inductive proof that each editing '
     'function keeps it; every division made and the facts known of its divisor.',
     'one wait with condition_met <-> one event <-> at most one history entry; terminators; 0 <= position <= size preserved; divisor proven not zero; save < raw < read < restore',
     AI + 'typestate automata and inductive invariant of the editing functions',
     'The istream given to the constructor and the choice of words instead of lines are not used by the code (the thread always reads lines with getchar): not part of the property. What is displayed is not judged.',
     state=[('activation_times_', 'lines asked for', SEH), ('history_handler_', 'lines read', SEH), ('ignore_input_', 'whether lines are kept out of the history', SEH)])

MEI = 'cpp_utils/include/cpp_utils/event/impl/MultipleEventHandler.ipp'
MEC = 'cpp_utils/src/cpp/event/MultipleEventHandler.cpp'
MEH = 'cpp_utils/include/cpp_utils/event/MultipleEventHandler.hpp'
prop('E08', 'A MultipleEventHandler raises one event for each event of its handlers',
     'register_event_handler sets the callback of the handler given, exactly once, to a function that raises exactly one event of the MultipleEventHandler whatever the event carries, and then keeps that handler, once, leaving '
     'those registered before as they are. The constructor sets the callback given, once. Every handler registered is destroyed, and the callback unset, before anything that their events use is destroyed; none is given up.',
     ['inputs', 'histories'], 'every sequence of registrations and events, with any number and type of handlers',
     'No test registers handlers whose events arrive while others are registered or while the object is destroyed.',
     [MEI, MEC], [('register_event_handler', MEI), ('destructor', MEC)],
     'Automata over the calls and the changes of the list in every instance of register_event_handler, over the body of the callback set, over the constructor, and over the destruction of the object (body, members, bases).',
     'set_callback(handler, f) x1, f raises 1 event; push(handler) x1, list otherwise unchanged; handlers destroyed and callback unset before base members',
     AI + 'typestate automata',
     'That setting a callback replaces the previous one is E04.',
     state=[('handlers_registered_', 'handlers owned', MEH)])

CRI = 'cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp'
CRH = 'cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp'
prop('U01', 'Reading a command takes exactly one line and divides it in words',
     'A CommandReader asks for no line until read_next_command is called. Each call asks for exactly one line and then waits for exactly one; the arguments are the words of that line, divided at single spaces, with words '
     'between quotes joined; there is always at least one. The first word, and nothing else, is looked up in the builder, the command found is stored in the result, and what the look up gave is returned. Joining passes over '
     'each word once, in order, and never takes the opening quote of an argument as its closing one. Each line read is put in the queue exactly once, as it is (also an empty one). What the thread of the input uses exists '
     'before the input is constructed and until it has been destroyed.',
     ['inputs', 'schedules'], 'every line, and every moment of construction, reading and destruction',
     'Tests read a few well formed commands, and always all the lines they asked for; quotes next to spaces, empty lines or a line that arrives during destruction are not sampled.',
     [CRI, CRH], [('read_next_command and join_quoted_strings', CRI), ('order of the members', CRH)],
     'Automata over the calls of read_next_command (ask, wait, divide, join, look up) with the values passed from each to the next; over the words used by the joining; facts known of the length where a quote is removed; '
     'members used by the callback of the input against the order of construction.',
     'ask x1 < consume x1; arguments = join(split(line, " ")); lookup(arguments[0]) -> (command, result); index of words +1; size > 1 where both quotes are removed; used members precede the input',
     AI + 'typestate automata, value flow and order of members',
     'The queue is W05, the lines are E07, the builder is C01. The istream given is not used by StdinEventHandler.',
     state=[('commands_read_', 'lines read and not consumed', CRH), ('stdin_handler_', 'the input', CRH)])

PW = 'py_utils/py_utils/wait/'
prop('P01', 'Python wait handlers: no lost wakeup, true reasons, disable releases everyone',
     'In WaitHandler, IntWaitHandler and BooleanWaitHandler of py_utils: the value, whether the handler is enabled and the number of waiting threads are read and written only with the lock held; every change of the value, every '
     'disabling and every end of a wait is followed, before the lock is left, by a notification of all waiting threads. A wait sleeps only while the handler is enabled and its condition is not met, counted as waiting, for no longer '
     'than the timeout given; it ends counted out, also when the predicate raises. It returns disabled if the handler is disabled, else condition_met if the condition is met, else timeout, and timeout only if one was given; the three '
     'reasons are different. wait_equal, wait_greater and wait_greater_equal wait for exactly that relation of the value to the number given, and the boolean wait for the value to be true. blocking_disable disables the handler and '
     'returns only when no thread is waiting, letting them leave. set_value, increase, decrease, open, close, enable and disable change exactly what they say, in one section of the lock; no lock is taken twice or kept.',
     ['inputs', 'schedules'], 'every value, predicate (also one that raises), timeout and interleaving',
     'The tests run one waiting thread at a time and never call blocking_disable; a missing notification or a wrong reason needs a schedule.',
     [PW + 'WaitHandler.py', PW + 'IntWaitHandler.py', PW + 'BooleanWaitHandler.py'],
     [('wait, _blocking_disable_nts', PW + 'WaitHandler.py'), ('wait_greater_equal', PW + 'IntWaitHandler.py')],
     'Every path of every public method, interpreted over the syntax tree with the methods and predicates it calls: locks held at every access, notification after every change that can end a wait, facts known of the value and of the '
     'enabling when a thread sleeps and when a reason is returned.',
     'guarded(value, enabled, count); change -> notify_all before release; sleep -> enabled and not condition, count = +1; reason = f(enabled, condition); blocking_disable exit -> count <= 0; no loop that waits with the lock held',
     'abstract interpretation of the Python syntax trees, path-wise typestate',
     'The modules threading and enum are trusted; predicates are assumed to give the same answer for the same value.',
     state=[('_value', 'value', PW + 'WaitHandler.py'), ('_enabled', 'enabled', PW + 'WaitHandler.py'), ('_n_waiting_threads', 'waiting threads', PW + 'WaitHandler.py')])

prop('P02', 'Python utilities: timer, transparent debug decorator, logger',
     'In py_utils: a Timer starts at the current time when it is constructed and when it is reset, and elapsed gives the time from then until now by the same clock without changing the timer. A function decorated with '
     'debug_function_decorator is called exactly once for each call, with exactly the arguments given, its result is returned and its exceptions are passed on. A CustomLogger is initialised once with the name given, has the level given, and '
     'one handler, so that each message is printed once, also after set_format has been called again; set_log_level and activate_debug set exactly that level.',
     ['inputs'], 'every argument, result and exception', 'The decorator and the logger have no test; the timer is only tested at two moments.',
     ['py_utils/py_utils/time/Timer.py', 'py_utils/py_utils/debugging/debug_utils.py', 'py_utils/py_utils/logging/log_utils.py'],
     [('Timer', 'py_utils/py_utils/time/Timer.py'), ('debug_function_decorator', 'py_utils/py_utils/debugging/debug_utils.py'), ('CustomLogger', 'py_utils/py_utils/logging/log_utils.py')],
     'Every path of these functions, interpreted over the syntax tree: values written and returned, calls made and their arguments.',
     'start := now; elapsed = now - start, same clock; func(*args, **kwargs) x1, result returned; super().__init__(name) x1, addHandler x1, setLevel(level)',
     'abstract interpretation of the Python syntax trees', 'The modules time and logging are trusted.',
     state=[('_start_time', 'start of the timer', 'py_utils/py_utils/time/Timer.py')])

prop('V01', 'Every object starts with a value in each of its members',
     'Whichever constructor is used, when it returns every member of the object (also inherited) of arithmetic, enumeration, pointer or atomic type has been given a value: no operation reads an indeterminate one.',
     ['inputs', 'histories'], 'every constructor of every class, on every path',
     'What an uninitialised member contains depends on the memory: tests pass by chance, and sanitizers only see what is executed.',
     ['cpp_utils/include/cpp_utils/', 'cpp_utils/src/cpp/'], [('constructors', 'cpp_utils/src/cpp/')],
     'Each constructor of each class is interpreted from an object whose scalar members are marked as having no value; no path may return with the mark still there.',
     'for all classes, constructors, paths, scalar members m: assigned(m) at return',
     AI + 'definite initialisation', 'Templates are analysed for the instances in tu/instances.cpp.')

RCC = 'cpp_utils/src/cpp/ReturnCode.cpp'
prop('C01', 'Return codes: every DDS code, every comparison, every name',
     'A ReturnCode is RETCODE_OK by default and holds the value it is given. The DDS codes OK, NO_DATA, NOT_ENABLED and PRECONDITION_NOT_MET are converted into the codes of the same name; ERROR, UNSUPPORTED, BAD_PARAMETER, '
     'OUT_OF_RESOURCES, IMMUTABLE_POLICY, INCONSISTENT_POLICY, ALREADY_DELETED, TIMEOUT and ILLEGAL_OPERATION into RETCODE_ERROR; any other number into RETCODE_UNKNOWN. Codes are equal, different and ordered exactly as their '
     'values; operator! is true exactly for the codes other than RETCODE_OK; operator() gives the value. Every code has exactly one name to be printed, its own.',
     ['inputs'], 'every DDS code and every pair of codes', 'Tests of return codes cannot be built without Fast DDS and compare a few codes.',
     [RCC, 'cpp_utils/include/cpp_utils/ReturnCode.hpp'], [('ReturnCode constructors, operators, to_string_conversion_', RCC)],
     'Exact value of the object after construction from each DDS code and from codes that do not exist; decision tables of each operator over all pairs of values; the initialiser of the table of names against the enumeration.',
     'value(ctor(dds)) = table[dds]; op(a, b) <-> relation(a.value, b.value); names: bijection with the enumerators',
     AI + 'exhaustive decision tables', 'The numbers of the DDS codes are those of the DDS specification.',
     state=[('value_', 'the code', 'cpp_utils/include/cpp_utils/ReturnCode.hpp')])

prop('X01', 'Exceptions: what is created is thrown, and none leaves a noexcept function',
     'Every exception object that the library creates is thrown, not created and dropped. No exception thrown by a function declared noexcept, or by a function of its class or a free function of the library that it calls, leaves it (the process would be terminated), on any path.',
     ['inputs', 'fault_sequences'], 'every path of every function declared noexcept', 'Errors are rarely provoked by tests, and a missing throw is silent.',
     ['cpp_utils/src/cpp/', 'cpp_utils/include/cpp_utils/'], [('functions declared noexcept; exceptions created', 'cpp_utils/src/cpp/')],
     'Expression statements whose value is an exception object, in every function; every path of every noexcept function with the functions it calls: a throw that no handler catches before the function ends.',
     'no discarded object derived from std::exception; no path from noexcept entry to a throw leaving it',
     AI + 'exception flow', 'Exceptions thrown by callbacks of the user, by the standard library (also for lack of memory) and by other classes whose preconditions are broken are not considered.')

prop('L01', 'Locks are taken in one order: threads of the library never block each other',
     'The mutexes of the library (wait handlers and their queues, event handlers, the signal manager, thread pools, databases, smart pointers) are always taken in one order: no two functions take two of them the other way round. No function asks again for a non-recursive mutex that its thread already holds (for a shared mutex: unless both times are shared). No thread sleeps on a condition variable while it holds another mutex of the library. No thread waits for the end of another one while it holds a mutex that the other one takes. No operation ends, normally or through an exception, with a mutex left locked for writing. The function that runs when a signal arrives takes no mutex and writes no log entry.',
     ['schedules'], 'every interleaving of the threads', 'A deadlock needs two threads at two given points at the same time; tests hardly ever meet it.',
     ['cpp_utils/src/cpp/', 'cpp_utils/include/cpp_utils/'], [('mutexes of every class', 'cpp_utils/include/cpp_utils/'), ('DBQueue', 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp'), ('signal handler', 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp')],
     'Every path of every function of the library (templates through their instances), with the functions it calls: the mutexes held at each point where another one is taken, a condition variable waited on or a thread joined; the pairs over all functions form one graph, whose nodes are the mutex members.',
     'acyclic lock graph; no re-acquisition of a non-recursive mutex; nothing else held in a condition variable wait; no mutex held at a join that the joined routine takes; no exclusive lock held at an exit; signal handlers lock nothing',
     AI + 'lock-order graph', 'Callbacks of the user are taken to leave the objects they are called from alone, as the documentation asks. Taking a shared lock twice in one thread (iterators of SafeDatabase) is accepted as the documented design. A mutex is identified by the member it is, for all the objects of the class. Spinning on a counter is not counted as waiting: see W01.')

prop('X02', 'Log entries and assertions have no effect: every build and verbosity is the same',
     'What a build or the verbosity of the log may leave out (the entries of the log, and assertions) only reads: it assigns nothing, counts nothing, calls nothing that changes an object, allocates or throws nothing, and does not leave a loop or a function. So every operation does the same whether it is compiled in and evaluated or not.',
     ['configurations'], 'every build configuration', 'The tests are built in one configuration; what the other one does is never run.',
     ['cpp_utils/src/cpp/', 'cpp_utils/include/cpp_utils/'], [('logDebug, logDevError', 'cpp_utils/include/cpp_utils/Log.hpp'), ('assertions', 'cpp_utils/src/cpp/math/math_extension.cpp')],
     'Every function with a body, parsed in both configurations and compared statement by statement; what only one of them has, and every entry of the log, is searched for effects, through the functions it calls.',
     'nothing in the difference of the two builds writes outside its own variables, leaves the function, or calls what may',
     'clang AST, two build configurations: effect analysis of the difference between two configurations', 'Writing to a stream is not an effect (it is what a log entry is for). Functions of the standard library are taken to do what their signature says.')

# ------------------------------------------------------------------ not applicable
TUC = 'cpp_utils/src/cpp/time/time_utils.cpp'
UTC = 'cpp_utils/src/cpp/utils.cpp'
MXC = 'cpp_utils/src/cpp/math/math_extension.cpp'
na('N01', 'Dates written and read again are the same instant', 'For every timestamp and every format that keeps enough fields, string_to_timestamp(timestamp_to_string(t, f, local), f, local) is t, to the precision of the format.',
   ['inputs'], 'every timestamp, format and time zone', 'Tests convert a few dates in one time zone.', [TUC], [('timestamp_to_string, string_to_timestamp, date_to_timestamp', TUC)],
   'The result is computed by strftime, get_time, mktime and gmtime of the C library from its calendar and time-zone tables: the equality is one of run-time values of code that is not in the repository, which no static argument in reach bounds.')
na('N02', 'Base64: decoding what was encoded gives the same bytes', 'base64_decode(base64_encode(s)) = s for every string s.', ['inputs'], 'every string', 'Tests encode a few strings.',
   ['cpp_utils/src/cpp/utils.cpp', 'cpp_utils/include/cpp_utils/utils.hpp'], [('base64_encode, base64_decode', UTC)],
   'A round trip between two loops over strings of any length, with bit arithmetic carried from one iteration to the next: it needs an inductive proof about values (a theorem prover or a solver), not a static analysis; a lattice precise enough would be the proof itself.')
na('N03', 'Arithmetic helpers are exact', 'arithmetic_progression_sum, fast_exponential, fast_module and fast_division give the exact mathematical value, modulo the width of the type, for every argument.', ['inputs'], 'every pair of numbers',
   'Tests sample small numbers.', [MXC], [('math_extension.cpp', MXC)],
   'Non-linear arithmetic (products, powers, modulo) over all machine integers: the interval and linear-term domains used here do not express it; deciding it needs a bit-vector solver, which is another family.')
na('N04', 'A wait with a time limit ends when the limit has passed', 'A wait with timeout t that nothing ends returns with reason timeout not before t milliseconds and within a bounded delay after them.', ['schedules'], 'every schedule and load',
   'Tests allow wide margins.', ['cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp', TUC], [('WaitHandler::blocking_wait_', 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp')],
   'The delay depends on the scheduler and on the clock of the system, that are not in the source. What the source does decide (that the limit is passed on, and that a timeout is reported only when the wait ended that way) is part of W02.')
na('N05', 'The event of a file is raised whenever the file changes', 'Every change of the watched file is reported once, for every sequence of changes and every file system.', ['histories', 'fault_sequences'], 'every history of changes',
   'Tests write a file a few times.', ['cpp_utils/src/cpp/event/FileWatcherHandler.cpp'], [('FileWatcherHandler', 'cpp_utils/src/cpp/event/FileWatcherHandler.cpp')],
   'Which notifications the kernel (inotify) gives, merges or loses is run-time behaviour outside the source. What the handler does with a notification once it has it is decided by E04.')
na('N06', 'Pattern matching agrees with the definition of wildcards', 'match_pattern(p, s) holds exactly when s matches p under the rules of fnmatch.', ['inputs'], 'every pattern and string', 'Tests try a few patterns.', [UTC], [('match_pattern', UTC)],
   'The function delegates to fnmatch of the C library: the property is about that implementation, whose source is not part of the repository.')
