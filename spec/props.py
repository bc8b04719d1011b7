"""The properties: single source of properties.jsonl and MANIFEST.json (tool/mkmeta.py)."""
PROPS = []
NA = []


def P(id, title, statement, over, quant, tests, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


def N(id, title, statement, over, quant, tests, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, reason=reason))


P('C01', 'Copying an object transfers its complete state',
  'After loading, copy-constructing or assigning any object of the library (parameters, adaptors, individuals, constraints, optimization algorithms, monitors, factories, plotters, network data) from another object of its type, every part of the persistent state of the target, including everything inherited, equals that of the source. No part is skipped on any path, taken from a different part of the source, or changed afterwards.',
  ['inputs', 'histories', 'programs'], 'all classes with a copy operation, all object states, all control paths of the operation',
  'Unit tests copy objects whose members mostly still hold their default values and only compare the members that the comparison knows about, so that a forgotten member remains invisible.',
  ['include/geneva', 'src/geneva', 'include/courtier', 'include/common', 'include/geneva-individuals', 'src/geneva-individuals'],
  [('load functions', 'all load_ overrides'), ('copy constructors', 'all classes of the copy protocol'), ('copy helpers', 'include/common/GCommonHelperFunctionsT.hpp')],
  'path-sensitive abstract interpretation of all copy operations (member coverage and source pairing)',
  'Sound for the set of persistent members (members touched by any of copy/compare/serialize, or listed in spec/persistent.json) under the value abstraction of lib/flow.py; values computed by third-party types are trusted.',
  ['load', 'copy constructors', 'clone', 'operator='])

P('C02', 'Copies never share owned objects with their source',
  'An object obtained by loading, copying or cloning owns duplicates of all objects its source owns through pointers: modifying one of the two objects afterwards is never visible through the other one.',
  ['inputs', 'histories', 'programs'], 'all owning members of all copyable classes, all object states',
  'Sharing only shows when source and copy are modified independently afterwards, for exactly the member in question; the tests compare directly after the copy, when a shared object looks equal.',
  ['include/common/GCommonHelperFunctionsT.hpp', 'include/common/GPtrVectorT.hpp', 'include/geneva', 'src/geneva', 'include/courtier'],
  [('deep copy helpers', 'copyCloneableSmartPointer and relatives'), ('owning containers', 'GPtrVectorT, GFixedSizePriorityQueueT')],
  'value-flow (ownership) analysis of pointer members through all copy operations',
  'Every store into a pointer-typed member inside a copy operation is classified; a store of the source\'s own pointer is a violation. Members which are deliberately shared (none at present) would have to be listed.',
  ['clone', 'load', 'copy constructors'])

P('C03', 'Comparison sees every difference and reports it as asked',
  'Comparing two objects of a class evaluates every part of their persistent state including everything inherited: two objects that differ in one part never compare as equal, two equal ones never as different, and near-equality accepts exactly the differences within the limit. Whenever the caller\'s expectation is not met an exception is raised, and never otherwise.',
  ['inputs', 'histories', 'programs'], 'all classes with a comparison, all object states, all three expectations, all operand relations (null, NaN-free values, sizes)',
  'The unit tests alter one randomly chosen member and check that some difference is seen; a single forgotten or mispaired member stays unnoticed and errors of the comparison would hide all other errors.',
  ['include/common/GExpectationChecksT.hpp', 'src/common/GExpectationChecksT.cpp', 'include/geneva', 'src/geneva'],
  [('compare_ overrides', 'all classes of the copy protocol'), ('comparison kernel', 'include/common/GExpectationChecksT.hpp')],
  'path-sensitive abstract interpretation of all comparison operations plus exhaustive case analysis of the comparison kernel',
  'Member and base coverage and pairing for every compare_; complete symbolic truth tables for the kernel overloads. Floating point rounding in the near-equality test is not modelled.',
  ['compare', 'operator==', 'operator!='])

P('C04', 'Serialization transports the complete state',
  'Writing any object to an archive and reading it back yields the complete persistent state including everything inherited, in each supported format: nothing is left out, conditional on the direction, or read in another order than it was written. Every concrete polymorphic class can be stored and restored through a pointer to its base, each format is read in the way it was written, the requested format is used, and failures are reported.',
  ['inputs', 'histories', 'programs'], 'all serializable classes and all object states',
  'Round trips in the tests are judged by the comparison, use default member values, and never store most classes through base pointers inside an algorithm or a network message.',
  ['include/geneva', 'include/courtier', 'include/common', 'include/geneva-individuals'],
  [('serialize / save / load members', 'all classes of the persistence protocol'), ('export registration', 'BOOST_CLASS_EXPORT_KEY / _IMPLEMENT')],
  'abstract interpretation of all archive functions (coverage, order, export registration)',
  'Shows coverage and agreement of writer and reader; correctness of the Boost archives and of text formatting of floating point numbers is trusted.',
  ['toStream', 'fromStream', 'toFile', 'fromFile', 'checkpoints', 'network messages'])

P('C05', 'Cloning preserves the dynamic type',
  'Cloning an object through any of its base classes yields a new, separate object of exactly the same dynamic type which is a copy of the original.',
  ['inputs', 'programs'], 'all concrete cloneable classes',
  'Slicing is only visible for the one class concerned, when handled through a base pointer and when the lost part matters; the tests do not clone every class that way.',
  ['include/common/GCommonInterfaceT.hpp', 'include/geneva', 'src/geneva', 'include/courtier', 'src/common/GPlotDesigner.cpp'],
  [('clone functions', 'all overrides of clone_ and clone')],
  'interpretation of all clone functions and enumeration of the class hierarchy',
  'Complete for all classes of the source tree; classes of client code are out of reach.',
  ['clone'])

P('C10', 'The bounded buffer delivers every item once, in order, within capacity',
  'Under any interleaving of producers and consumers a bounded buffer hands out each accepted item exactly once and in the order of acceptance, never holds more items than its capacity, reports success exactly when an item was transferred, never touches its container without synchronisation, and a transfer in one direction wakes up a thread waiting for the other.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of the member functions, all capacities including unlimited',
  'Lost or duplicated items, an overrun by one and missing wakeups depend on how threads interleave around one statement; the tests run few threads for a short time.',
  ['include/common/GBoundedBufferT.hpp'],
  [('try/push/pop functions', 'include/common/GBoundedBufferT.hpp')],
  'path-sensitive lockset and typestate analysis of all buffer functions',
  'Each critical section is shown to preserve the buffer discipline on all of its paths, from which the statement follows for every interleaving; the correctness of std::mutex, condition variables and std::deque is trusted.',
  ['push_*', 'pop_*', 'try_*'])

P('C11', 'Shared state is only accessed under its lock or atomically',
  'Every data member, static or local static which is protected by a mutex of its class (logger, broker, buffers, thread group and pool, singletons, option containers, random number factory, executors, sessions) is read and written only while that mutex is held; what is shared without a mutex is atomic. No schedule of calls from different threads contains a data race on such state.',
  ['schedules', 'programs'], 'all pairs of concurrently executable functions of all lock-owning classes',
  'A race needs two threads inside two particular statements at the same time and then usually still yields a plausible result.',
  ['include/common', 'src/common', 'include/courtier', 'include/hap', 'src/hap'],
  [('guarded members', 'all classes with a mutex or atomic member'), ('guard table', 'spec/guards.json')],
  'lockset analysis (guarded-by inference plus pinned guard table)',
  'Instances are not distinguished (a lock of another instance of the class would not be noticed unless the base object differs syntactically). GBaseExecutorT, which is driven by a single thread by contract, is exempt.',
  ['public member functions'])

P('C12', 'The locking protocol cannot deadlock',
  'No two threads can wait for each other\'s mutexes: all mutexes of the library are acquired in one consistent order or simultaneously, no thread acquires a mutex it already holds, directly or through a call, and no thread blocks on a condition variable while holding a lock the notifying thread needs.',
  ['schedules', 'programs'], 'all call paths from all functions that take locks',
  'A deadlock needs the one interleaving in which both threads are between their two acquisitions.',
  ['include/common', 'src/common', 'include/courtier', 'include/hap', 'src/hap'],
  [('lock acquisitions', 'all std::mutex uses'), ('broker finalization and enrolment', 'include/courtier/GBrokerT.hpp')],
  'lock-order graph over the interprocedural call graph',
  'Mutexes are identified by class and member; calls through std::function objects supplied by clients are out of reach.',
  ['enrol_*', 'finalize', 'setNThreads', 'wait'])

P('C13', 'Waiting threads are woken up, and decisions are taken under the lock',
  'Whenever a condition a thread waits for becomes true, the waiting thread is notified and no wakeup is lost, a wait ends only when its condition holds and really waits while it does not, and one-time actions (starting threads, enrolling consumers, starting a measurement) that are taken after testing a flag are taken by exactly one thread.',
  ['schedules'], 'all interleavings of waiting and notifying functions of all classes with condition variables or guarded flags',
  'A lost wakeup or a doubled one-time action needs a context switch between two adjacent statements.',
  ['include/common/GBarrier.hpp', 'include/common/GThreadPool.hpp', 'src/common/GThreadPool.cpp', 'include/courtier/GBrokerT.hpp', 'include/common/GBoundedBufferT.hpp', 'include/courtier/GBufferPortT.hpp', 'src/hap/GRandomFactory.cpp'],
  [('wait predicates', 'all condition variable waits'), ('double-checked locking', 'GRandomFactory, GThreadPool'), ('enrolment', 'GBrokerT')],
  'typestate analysis: predicate/notify pairing and check-then-set in one critical section',
  'Predicates are reduced to the members they read and the direction in which a write can make them true.',
  ['wait', 'capableOfFullReturn', 'getNewRandomContainer', 'enrol_consumer'])

P('C14', 'The thread pool executes every task once and accounts for it',
  'Each task handed to the thread pool is executed exactly once; its future becomes ready with the result or the exception the task ended with, whatever is thrown; waiting for the pool returns only when no task is outstanding and cannot be overtaken by new submissions; changing the number of threads loses no task and leaves exactly the requested number of threads serving the queue.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of submission, waiting and resizing, all task outcomes',
  'The tests submit well-behaved tasks; a task throwing a particular type, a resize while tasks are queued and a miscounted task only show up as a hang later on.',
  ['include/common/GThreadPool.hpp', 'src/common/GThreadPool.cpp'],
  [('async_schedule', 'include/common/GThreadPool.hpp'), ('wait, setNThreads', 'src/common/GThreadPool.cpp')],
  'path-sensitive typestate analysis of task submission, task body and waiting functions',
  'Boost.ASIO is trusted to run a posted handler once while its threads run.',
  ['async_schedule', 'wait', 'setNThreads'])

P('C15', 'Worker threads are told to stop and are joined',
  'Each thread started by the library is owned by an object whose destruction or shutdown first gives the stop signal that thread obeys and then joins it, on every path; no thread is detached, outlives the data it works on, or is waited for without having been told to stop.',
  ['schedules', 'histories'], 'all thread-owning classes and all shutdown paths',
  'Tests that end with a process exit do not notice a thread left running, and a hang at shutdown depends on what the thread is doing at that moment.',
  ['include/courtier', 'src/hap/GRandomFactory.cpp', 'src/common/GThreadPool.cpp', 'include/common/GThreadPool.hpp', 'src/common/GThreadGroup.cpp'],
  [('shutdown', 'consumers, random factory, thread pool')],
  'typestate analysis of shutdown paths (stop signal before join, join on all paths)',
  'Which flag a thread function polls is taken from the class hierarchy, not proven per loop.',
  ['shutdown', 'finalize', 'destructors'])

P('C06', 'Changed parameters are re-evaluated before their fitness counts',
  'Whenever the parameters of a candidate solution are modified through the operations of the library (adaption, random initialisation, assignment, crossover, structural changes, algorithms acting on their individuals), the solution is marked for re-evaluation before control returns normally, unless fresh results were stored at the same time. An operation that reports how many parameters it changed never hides a change.',
  ['inputs', 'histories', 'programs'], 'all individual and algorithm code that modifies parameters, all paths and outcomes of nested modifications',
  'A stale fitness value looks like any other; it only shows when the one modifying operation that forgot the mark is followed by a selection that depends on the value.',
  ['src/geneva/GParameterSet.cpp', 'include/geneva', 'src/geneva', 'src/geneva-individuals', 'include/geneva-individuals'],
  [('modifying operations', 'GParameterSet and the individuals'), ('algorithms', 'G_OptimizationAlgorithm_*')],
  'dirty-state dataflow analysis over all operations that reach parameter objects of individuals',
  'Modifications through references which user code keeps outside of the library are not seen.',
  ['adapt', 'randomInit', 'crossover', 'assign values', 'is_due_for_processing'])

P('C07', 'Results are only handed out for processed items',
  'The fitness values or results of a work item can only be obtained by value and only while the item is in the processed state; otherwise an exception is raised. What is handed out belongs to the requested criterion and kind (raw or transformed), and a re-evaluation replaces both kinds.',
  ['inputs', 'histories'], 'all public functions whose value derives from stored results, all processing states',
  'The tests query results right after an evaluation; unevaluated, failed or re-marked items and the second criterion are never queried by accident.',
  ['include/courtier/GProcessingContainerT.hpp', 'include/geneva/GParameterSet.hpp', 'src/geneva/GParameterSet.cpp'],
  [('result access', 'GProcessingContainerT'), ('fitness access', 'GParameterSet')],
  'guarded-access (state-predicate) analysis of every path from stored results to a public return value',
  'Follows accessors to the field they return; results exposed by user-supplied classes are out of scope.',
  ['raw_fitness', 'transformed_fitness', 'getStoredResult'])

P('C08', 'Processing an item ends in exactly one truthful state',
  'Processing runs the evaluation exactly once together with the registered pre- and post-processors. It returns normally exactly if the item then is in the processed state, with results and without error text; otherwise the processing exception is raised and the item is in an error state with a text and without results. A processing state requested from outside takes effect together with the loss of results and errors, or is refused by an exception; it cannot declare an item processed, and every operation that declares a fixed state always enters it.',
  ['inputs', 'fault_sequences', 'histories'], 'all paths through processing, with hooks and evaluations that may throw anything or flag errors at any point, and all requested states',
  'Tests use evaluations that succeed; the interplay of flagged errors, exceptions of any type and state changes needs a fault at a particular point.',
  ['include/courtier/GProcessingContainerT.hpp'],
  [('processing', 'GProcessingContainerT')],
  'typestate analysis with exceptional paths (abstract status, results, error text, hooks)',
  'User-supplied hooks are modelled as arbitrary: they may throw any exception or flag an error.',
  ['process', 'markAsProcessedWith', 'set_processing_status', 'force_set_error'])

P('C09', 'A consumer never loses a work item, and survives bad ones',
  'Every work item a consumer, client session or network client has taken over is passed on, also when its processing fails with the processing exception: it goes back to the broker or over the wire exactly once as the same item. An item whose producer has vanished does not terminate a worker or session, a worker leaves its loop only when asked to, and clients keep asking for work until then. Every protocol command is handled and answered, and a message carries exactly what was last put into it.',
  ['schedules', 'fault_sequences', 'histories'], 'all consumers, all worker loops, sessions and networked clients, with failing processing and vanished producers',
  'Needs an evaluation that fails, or an item that arrives after its producer gave up, while a networked or threaded consumer handles it.',
  ['include/courtier'],
  [('worker loops', 'GWorkerT, GLocalConsumerWorkerT'), ('consumers', 'GStdThreadConsumerT, GSerialConsumerT'), ('networking', 'GAsioConsumerT, GWebsocketConsumerT')],
  'item-ownership typestate analysis with exceptional paths',
  'The MPI consumer is not part of the analysed build. Loss of items in the network itself is not modelled.',
  ['process', 'put', 'get', 'async_start_communicate'])

P('C16', 'Work items return to the producer that submitted them',
  'A work item is queued exactly once, tagged with the id of its producer\'s port; a processed item is delivered to exactly that port or the missing port is reported by the corresponding exception, and an item is not modified while another thread may own it. Port ids are unique, ports of connected producers are never removed, the rotation among ports never refers to a removed one, and consumers are registered, started and shut down together; full return is promised only if every consumer is capable of it.',
  ['schedules', 'histories'], 'all paths of broker, ports and producers',
  'Requires several producers coming and going while items are in flight; unit tests use a single producer.',
  ['include/courtier/GBrokerT.hpp', 'include/courtier/GBufferPortT.hpp', 'include/courtier/GExecutorT.hpp'],
  [('routing', 'GBrokerT'), ('queues', 'GBufferPortT'), ('producers', 'GBrokerExecutorT')],
  'path-wise event-order and identity analysis',
  'Interleavings inside the protected regions are covered by C11; here every path is considered with its lock held.',
  ['enrol_buffer_port', 'get', 'put', 'push_raw', 'pull_processed'])

P('C17', 'An iteration accounts for every submitted work item',
  'In an iteration each item due for processing, and no other, is submitted exactly once, tagged with iteration and position; the executor waits for results only if something was submitted, stops when all have returned, records each returned item at its own position, and drops items after a timeout only if a timeout was asked for. The state reported (complete, errors) and the counts of returned, resubmitted and old items are derived from exactly the items of the iteration, and failed items do not end the iteration.',
  ['schedules', 'fault_sequences', 'histories'], 'all executors, all paths through submission, waiting and finalization, including failing, late and missing items',
  'Late, failing or missing items and resubmission need a fault or delay at a particular point; the tests let all items succeed in time.',
  ['include/courtier/GExecutorT.hpp'],
  [('executors', 'GBaseExecutorT, GSerialExecutorT, GMTExecutorT, GBrokerExecutorT')],
  'path enumeration with symbolic per-item bookkeeping',
  'One finding is open (see known_findings.json): if all items of the first iteration return with errors, the executor waits for ever.',
  ['workOn', 'submitAllWorkItems', 'waitForReturn', 'iterationFinalize'])

P('C18', 'All views of the parameters agree on one layout',
  'Counting, reading out, retrieving the boundaries of and assigning the parameters of one type visit the same parameters, in the same order, in all containers and parameter types, and cover exactly the active, inactive or all parameters as requested. What was read can be assigned back without running past its end, too short or mismatched input is refused, and each operation reaches the parameters of its own type only.',
  ['inputs', 'programs'], 'all parameter types, nested containers, activity modes and element types',
  'Unit tests use few container shapes and one activity mode; agreement must hold for every nesting of objects and every mode.',
  ['include/geneva', 'src/geneva'],
  [('typed front ends', 'GParameterBase'), ('containers', 'GParameterTCollectionT, GParameterSet'), ('leaves', 'GParameterT, GParameterCollectionT and descendants')],
  'path-wise interpretation of all layout operations with loop coverage and appended/consumed counting',
  'Containers are abstracted to their elements in iteration order.',
  ['countParameters', 'streamline', 'boundaries', 'assignValueVector', 'multiplyBy', 'fixedValueInit', 'add', 'subtract'])

P('C19', 'Constrained parameters stay within their boundaries',
  'Whatever the internal value of a constrained parameter, the value it shows (on access, when streamed, in property trees) lies within its boundaries, and internal values inside of them are shown unchanged; the integer mapping does not overflow. Boundaries are never stored the wrong way round, values and boundaries handed in are accepted only if the value lies inside, and changing the boundaries does not change a visible value. Random values are drawn from the range of the boundaries.',
  ['inputs', 'histories'], 'all values, all boundaries and all classes of constrained parameters',
  'Tests sample values and a few boundaries; rounding at the edges, overflow and particular regions of the mapping need specific inputs.',
  ['include/geneva/GConstrainedNumT.hpp', 'include/geneva/GConstrainedFPT.hpp', 'include/geneva/GConstrainedIntT.hpp', 'include/geneva/GConstrainedNumCollectionT.hpp', 'include/geneva/GConstrainedFPNumCollectionT.hpp', 'src/geneva'],
  [('mappings', 'transfer() of all constrained types'), ('setters', 'setValue, setBoundaries, constructors'), ('value access', 'value, streamline, toPropertyTree')],
  'path-sensitive range analysis with comparison records, polynomial normal forms for the integer mapping, and provenance of values leaving the object',
  'Element access inherited from the vector interface (operator[], iterators) exposes internal values by design and is not covered; NaN is not modelled.',
  ['value', 'setValue', 'setBoundaries', 'transfer', 'streamline'])

P('C20', 'Better solutions rank first, in both directions of optimisation',
  'Whenever solutions are sorted, compared or selected, the order is a strict weak order which puts better evaluations first, both for minimisation and for maximisation. A best known solution (local, global, personal, of an iteration) is replaced by another one if and only if that one is better; selection makes exactly the best candidates of each mode the parents, Pareto fronts use every criterion, and annealing accepts every better child. Collections of best solutions keep the best items, sorted, up to their size.',
  ['inputs', 'histories'], 'all fitness values, both optimisation directions, all selection modes and histories of evaluations',
  'Tests run a few optimisations by minimisation; ties, maximisation, several criteria and full queues need specific inputs.',
  ['src/geneva/GenevaHelperFunctions.cpp', 'src/geneva', 'include/common/GFixedSizePriorityQueueT.hpp', 'include/common/GCommonMathHelperFunctionsT.hpp'],
  [('comparison kernels', 'isBetter, isWorse, minimum-only fitness, worst case'), ('comparators', 'functions passed to sorting algorithms'), ('best known solutions', 'findBests, cycleLogic_'), ('selection', 'sorting modes of evolutionary algorithms and annealing'), ('queue', 'add, best, worst, pop')],
  'decision tables of comparators and kernels, path-sensitive records of replacements, symbolic positions of sorted and exchanged ranges',
  'The fitness is taken to be ordered (no NaN).',
  ['isBetter', 'selectBest_', 'findBests', 'add'])

P('C21', 'A run ends exactly when a halt criterion is met',
  'After each iteration the run ends if and only if an active criterion is met: hang-up signal or touched file at any time; and, once the minimum number of iterations and the minimum time have passed, the maximum number of iterations, of stalls, the maximum time, the quality threshold (in the direction of optimisation) or a custom criterion; criteria that are switched off are ignored. Each iteration performs one cycle, records its result, the best solutions and the stalls, and is counted once, starting from the requested offset. Limits that contradict each other are refused, all others are accepted.',
  ['configurations', 'histories'], 'all combinations of criteria, limits and states of a run',
  'Tests stop runs by one criterion at a time; the precedence of the criteria and their edges need specific combinations.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp', 'include/geneva/G_OptimizationAlgorithm_Base.hpp', 'include/geneva/GObject.hpp'],
  [('halt decision', 'halt and the functions it consults'), ('main loop', 'optimize_'), ('stall counter', 'updateStallCounter'), ('limits', 'setters of limits')],
  'symbolic execution of the decision into a decision table compared with its specification; path records of the main loop',
  'Clocks are taken to be monotonic.',
  ['halt', 'optimize', 'setMaxIteration', 'setMinTime'])

P('C23', 'Checkpoints are written when requested and never lost',
  'A checkpoint is written exactly when requested (in the given interval, with each improvement, at the end); the previous one is removed only after the new one was written, and the new one is never removed. If a file cannot be opened or the data cannot be written, this is reported instead of being ignored. Only checkpoints of the same algorithm are loaded, in the format in which they are written.',
  ['fault_sequences', 'crash_points', 'configurations'], 'all intervals, iterations, file names and write failures',
  'Tests do not provoke failing writes, restarts with the same file names or crashes between the steps.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp', 'include/common/GCommonInterfaceT.hpp'],
  [('checkpointing', 'checkpoint, saveCheckpoint, loadCheckpoint'), ('files', 'toFile, fromFile')],
  'decision table of the checkpoint decision, ordering of writes and removals on every path, typestate of file streams',
  'The file system may still lose data after it has reported success.',
  ['checkpoint', 'toFile', 'loadCheckpoint'])

P('C22', 'Settings take effect exactly as they were given',
  'A setting that is accepted is stored completely and unchanged where it is read back, and one that is rejected changes nothing. Every option of a configuration file is read under its own unique name with its own default value, reaches the setting it belongs to with its values in the right order, and no registered option is skipped when reading or writing the file, except that optional ones may be left out on request. Objects are only handed out by a factory after all of its options and those of the object were registered and the file was read successfully.',
  ['configurations', 'inputs', 'fault_sequences'], 'all setters and their getters, all options of all classes, all kinds of options, all configuration files',
  'There are several hundred setters and options; tests use few of them, mostly with their default values, for which swapped or ignored options make no difference.',
  ['include/common/GParserBuilder.hpp', 'src/common/GParserBuilder.cpp', 'include/common/GFactoryT.hpp', 'include/geneva', 'src/geneva', 'include/courtier', 'src/geneva-individuals'],
  [('options', 'registerFileParameter, load_from, save_to'), ('registration', 'addConfigurationOptions_, describeLocalOptions_'), ('parsing', 'parseConfigFile, writeConfigFile'), ('factories', 'GFactoryT::get_, getObject_')],
  'path-sensitive value flow from arguments to members and back, pairing of names, defaults and values, event order in parser and factories',
  'Whether a setting then has the intended effect on an optimization run is not part of the property. Options of the command line are handed to Boost and not analysed.',
  ['registerFileParameter', 'parseConfigFile', 'addConfigurationOptions', 'get'])

P('C24', 'Adaptors change values as configured and keep their own limits',
  'An adaptor changes a value exactly when its mode says so (always, never, or with the current probability), counts each change, and draws it from the distribution described by its own current widths, distance and the range of the value. Its widths, distances and probabilities adapt themselves with their own rates when due and never leave the limits in force, whatever sequence of setters, adaptions and rejected calls precedes. A reaction to a stall restores the reset values and reports truthfully whether something changed; queries answer with the property asked for.',
  ['histories', 'inputs', 'configurations'], 'all sequences of setters, adaptions and stalls, all modes, probabilities, widths and random numbers',
  'Adaption is random: a width taken from the wrong parameter or a limit missed now and then only shifts distributions, which tests with a few draws do not notice.',
  ['include/geneva/GAdaptorT.hpp', 'src/geneva/GAdaptorT.cpp', 'include/geneva/GNumGaussAdaptorT.hpp', 'include/geneva/GNumBiGaussAdaptorT.hpp', 'include/geneva/GFPGaussAdaptorT.hpp', 'include/geneva/GFPBiGaussAdaptorT.hpp', 'include/geneva/GIntGaussAdaptorT.hpp', 'include/geneva/GIntFlipAdaptorT.hpp', 'src/geneva/GBooleanAdaptor.cpp'],
  [('adaption', 'adapt, adaptAdaption, customAdaptAdaption, customAdaptions'), ('limits', 'setSigmaRange, setAdProbRange, setDeltaRange, randomInit'), ('stalls', 'updateOnStall'), ('queries', 'queryPropertyFrom, customQueryProperty')],
  'path-sensitive range analysis of all stores, decision tables of modes and periods, parameters of all random draws',
  'Whether the distributions themselves are correct is not analysed. Limits are compared symbolically: a limit which is silently raised counts as the limit in force.',
  ['adapt', 'updateOnStall', 'getSigmaRange', 'setAdProbRange'])

P('C25', 'Constraint violations are recognised and treated by policy',
  'An individual counts as valid exactly when its constraints report a level of at most one; stronger violations lead to higher levels, several constraints are all evaluated and combined by product or sum over the violated ones only. Depending on validity and policy the evaluation function is called or not, and all raw and transformed results become the evaluated values, their sigmoid, a penalty growing with the violation in the direction of worse results, or the worst case, which also applies to failed or rejected evaluations. Sums over several results include each of them once.',
  ['inputs', 'configurations', 'fault_sequences'], 'all raw constraint values, numbers of constraints and results, policies, directions of optimization, errors and exceptions of user code',
  'The combinations of policy, direction, validity and failure are many, and tests use one result and mostly valid individuals.',
  ['include/geneva/GMultiConstraintT.hpp', 'src/geneva/GParameterSetMultiConstraint.cpp', 'src/geneva/GParameterSet.cpp', 'include/geneva/GParameterSet.hpp'],
  [('constraints', 'check, isValid, GCheckCombinerT::check_'), ('policies', 'process_, setFitness_'), ('results', 'parameterset_processing_result, setAllFitnessTo, sumCombiner')],
  'decision tables by symbolic evaluation of all paths, loop coverage, value flow of raw and transformed results',
  'The constraints and evaluation functions of users are opaque: any value, error or exception is assumed possible. Raw values which are not a number are outside of the tables.',
  ['isValid', 'getValidityLevel', 'raw_fitness', 'transformed_fitness'])

N('N01', 'Optimization algorithms make progress towards good solutions',
  'Given enough iterations, each optimization algorithm improves the best known solution of a well-behaved problem.',
  ['inputs', 'histories'], 'all objective functions and configurations',
  'Tests sample a few benchmark functions with fixed limits.',
  ['src/geneva'], [('algorithms', 'cycleLogic_ of the algorithms')],
  'The rate of improvement depends on random numbers and on the objective function; it is a statistical quantity which no static argument over the source bounds. The logic around it (ranking, replacement of the best, halting) is covered by C20 and C21.')

N('N02', 'Random numbers follow the requested distributions',
  'Numbers drawn by threads and distributions are independent and follow the distribution asked for.',
  ['schedules', 'histories'], 'all distributions, seeds and threads',
  'Statistical tests see a short prefix of a sequence.',
  ['include/hap', 'src/hap'], [('generators', 'GRandomT, GRandomFactory')],
  'A statistical property of generated sequences. What is structural about it (each thread receives its own seed and package of numbers, none is handed out twice) is covered by C10 and C11.')

N('N03', 'Numbers survive text serialization bit by bit',
  'A floating point value written to text or XML and read again is identical.',
  ['inputs'], 'all floating point values',
  'Tests compare with a tolerance and for few values.',
  ['include/common/GSerializationHelperFunctionsT.hpp'], [('archives', 'Boost.Serialization')],
  'Formatting and parsing take place inside the archives of Boost, whose source is outside of the repository; what the repository decides (which members are written, in which order and format) is covered by C04.')

N('N04', 'Waiting times and timeouts are kept within their limits',
  'Timed operations return no later than their limit plus a small delay, and an iteration waits no longer than its timeout.',
  ['schedules'], 'all loads, all timeouts',
  'Timing under load cannot be sampled reliably.',
  ['include/courtier', 'include/common'], [('timed waits', 'pop_and_wait, waitForReturn')],
  'Depends on run-time durations and on the scheduler, which cannot be bounded from the source. That each timed wait is left when its limit was found to have passed is part of C10 and C17.')
