"""Texts of the properties; mkdocs.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None, observe=None, hook=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, state=state or [], observe=observe or [], hook=hook, level=level))


MON = 'online trace monitor against a reference model, under AddressSanitizer + UndefinedBehaviorSanitizer, random plans x random environments'

prop('C01', 'Node state transitions follow the PLEXIL lifecycle rules',
     'Every state change the executive makes to a plan node, and the outcome and failure type it gives the node, is exactly the one the PLEXIL transition rules prescribe for that node type, given its present state and the present values of its own and its ancestors\' skip, start, pre, exit, invariant, end, post and repeat conditions, its children\'s states and its command, assignment or update status. '
     'All nodes eligible at the start of a micro-step move together in it, each at most once, and no node moves that is not eligible.',
     ['programs', 'histories'], 'all plans of every node type and all histories of lookup values, command handles, returns and acknowledgements',
     'Unit tests drive single node types through hand-set condition variables, and the regression plans fix one script each; combinations of simultaneous exit/invariant/end/parent events, repeats and nesting are not reached.',
     ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/PlexilExec.cc'],
     [('per-state destination functions', 'src/exec/NodeImpl.cc getDestStateFrom*, overridden by node type'), ('transition actions and condition activation', 'src/exec/NodeImpl.cc transition*, transitionFrom*/To*'), ('micro-step batching', 'src/exec/PlexilExec.cc step()')],
     MON, 'Every published transition of tens of thousands of generated plans is compared with an independent model of the node transition diagrams. Trusts the model in harness/pmodel.hh, which was written from the documented semantics.',
     observe=['ExecListenerBase::notifyOfTransitions', 'Node::getState/getOutcome/getFailureType'])

prop('C02', 'Quiescence: no enabled transition is ever left behind',
     'A step keeps performing micro-steps until no node is eligible to move or until assignments, commands or aborts are waiting to be carried out; whenever the executive says it does not need a step, no node of any loaded plan is eligible to move. '
     'So a change of any lookup value (including through a changed lookup parameter), variable, array element, command handle, acknowledgement, timepoint or node state that a condition depends on is always noticed.',
     ['programs', 'histories'], 'all plans, all condition expressions and all orders of value changes between and during steps',
     'A missed change notification needs one particular expression shape listening to one particular source that changes at one particular moment; tests only contain a few of those combinations.',
     ['src/exec/PlexilExec.cc', 'src/exec/NodeImpl.cc', 'src/expr/Notifier.cc', 'src/expr/Propagator.cc', 'src/intfc/Lookup.cc', 'src/intfc/CommandImpl.cc'],
     [('candidate and pending queues', 'src/exec/PlexilExec.cc'), ('change propagation', 'src/expr/Notifier.cc publishChange, src/expr/Propagator.cc'), ('condition activation', 'src/exec/NodeImpl.cc activate*/deactivate*')],
     MON, 'At every claim of idleness and at every end of a micro-step the reference model enumerates all nodes that are eligible to move; any left behind is a violation.',
     observe=['PlexilExec::needsStep', 'ExecListenerBase::notifyOfTransitions', 'ExecListenerBase::stepComplete'])

prop('C03', 'Mutexes and assigned variables: exclusive, prioritised, always released',
     'At any moment at most one node holds a given mutex and at most one assignment node is assigning a given variable; a node that needs them starts executing only when it gets all of them, and among nodes competing in the same micro-step none is passed over for one with a numerically greater priority. '
     'Everything a node holds is free again when it leaves its execution, whichever way it leaves, and an eligible node never stays waiting when everything it needs is free.',
     ['programs', 'histories'], 'all sets of nodes sharing mutexes and variables, with any priorities and nesting, and any way in which the holders finish, fail, exit or are aborted',
     'Tests use two or three nodes sharing one resource and let the holder finish normally.',
     ['src/exec/PlexilExec.cc', 'src/exec/NodeImpl.cc', 'src/exec/AssignmentNode.cc', 'src/expr/Reservable.cc', 'src/exec/Mutex.cc'],
     [('pending queue and batch acquisition by priority', 'src/exec/PlexilExec.cc resolveResourceConflicts'), ('acquire/release and wake-up of waiters', 'src/expr/Reservable.cc, src/exec/NodeImpl.cc tryResourceAcquisition')],
     MON, 'Ownership is tracked from published transitions only; exclusion, priority order, release and stuck waiters are checked at every micro-step.',
     observe=['ExecListenerBase::notifyOfTransitions'])

prop('C04', 'Assignments are atomic per step, exactly once, and undone on failure',
     'An assignment uses the values of its right-hand side and array index as they were when its node began executing, takes effect once at the end of that step, and is reported once with the value assigned. '
     'If the node is interrupted before completing normally, the variable or array element gets back exactly the value (known or unknown) it had before, reported once; a variable has its declared initial value each time its node starts executing and changes in no other way than by assignments and command return values.',
     ['programs', 'histories'], 'all assignment nodes over scalars, arrays and elements, with any exit, invariant or ancestor failure at any moment, several simultaneous assignments and repeats',
     'Tests assign and retract single scalars; unknown values, computed indices, simultaneous assignments feeding each other and failures in every state are not combined.',
     ['src/exec/Assignment.cc', 'src/exec/AssignmentNode.cc', 'src/expr/UserVariable.cc', 'src/expr/ArrayVariable.cc', 'src/expr/ArrayReference.cc', 'src/exec/PlexilExec.cc'],
     [('value fixing and deferred execution', 'src/exec/Assignment.cc, src/exec/PlexilExec.cc performAssignments'), ('saved value', 'src/expr/UserVariable.cc, ArrayVariable.cc, ArrayReference.cc saveCurrentValue/restoreSavedValue')],
     MON, 'After every step the value of every variable of every node is compared with the model, besides each reported assignment and retraction.',
     observe=['ExecListenerBase::notifyOfAssignment', 'values of local variables'])

prop('C05', 'A command is dispatched once per execution, and aborted when interrupted',
     'Each time a command node starts executing, exactly one command is sent to the external interface at the end of that step, with the name and argument values of that moment; handles and return values that arrive during that execution are the only ones that count, and late ones change nothing. '
     'When the node is interrupted while executing, exactly one abort is sent for that command, and the node stays failing until the abort is acknowledged or the command no longer needs it.',
     ['programs', 'histories', 'fault_sequences'], 'all command nodes, all sequences of handles, returns, abort acknowledgements, late and duplicate responses',
     'Tests use well-behaved interfaces that answer once and in order.',
     ['src/intfc/CommandImpl.cc', 'src/exec/CommandNode.cc', 'src/exec/PlexilExec.cc'],
     [('command activation and value fixing', 'src/intfc/CommandImpl.cc activate, fixValues'), ('outbound queues', 'src/exec/PlexilExec.cc executeOutboundQueue'), ('abort protocol', 'src/exec/CommandNode.cc')],
     MON, 'The dispatcher stand-in checks every command, argument and abort against what the model expects at that step and plays late, duplicate and missing responses.',
     observe=['Dispatcher::executeCommand', 'Dispatcher::invokeAbort', 'ExecListenerBase'])

prop('C06', 'Command resources are never oversubscribed and always given back',
     'Commands issued in one step are considered by priority, and one is accepted exactly when the resources it and the commands already accepted hold, including the resources below the requested ones in the resource hierarchy, stay within each resource\'s limits; otherwise it is denied and never dispatched. '
     'When an accepted command ends, in whatever way, exactly the releasable resources it holds become available again.',
     ['programs', 'histories', 'configurations'], 'all resource hierarchies, positive and negative requests, priorities, release settings and orders of completion, denial and abort',
     'The tests arbitrate one or two batches of commands on one hierarchy and never follow allocations over many steps.',
     ['src/intfc/ResourceArbiterInterface.cc', 'src/intfc/CommandImpl.cc', 'src/exec/PlexilExec.cc'],
     [('arbitration', 'src/intfc/ResourceArbiterInterface.cc arbitrateCommands'), ('release', 'src/intfc/ResourceArbiterInterface.cc releaseResourcesForCommand, src/intfc/CommandImpl.cc deactivate')],
     MON, 'Every acceptance and denial is predicted by an independent allocation model. Requests that name the same resource twice, or a resource reachable twice in the hierarchy, are not generated.',
     observe=['Dispatcher::executeCommand', 'Dispatcher::reportCommandArbitrationFailure'])

prop('C09', 'Updates to the planner are sent once and end only on acknowledgement',
     'Each time an update node starts executing, exactly one update is sent at the end of that step, carrying exactly its name-value pairs with the values of that moment. '
     'The node completes normally only after that update was acknowledged during the same execution; acknowledgements outside an execution have no effect.',
     ['programs', 'histories'], 'all update nodes and all orders and numbers of acknowledgements, including immediate, late and negative ones',
     'Tests acknowledge each update once, immediately.',
     ['src/exec/UpdateNode.cc', 'src/exec/PlexilExec.cc'],
     [('update node and acknowledgement variable', 'src/exec/UpdateNode.cc'), ('outbound queue', 'src/exec/PlexilExec.cc executeOutboundQueue')],
     MON, 'Every update, its pairs and the transitions that depend on its acknowledgement are compared with the model.',
     observe=['Dispatcher::executeUpdate', 'ExecListenerBase'])

prop('C10', 'A library call behaves as the called plan with its arguments in place',
     'A library call node runs the called plan so that each input parameter reads the current value of the argument given, each output parameter reads and assigns the caller\'s own variable, and an argument not given gets the declared default. '
     'Two calls of the same library plan share nothing but the variables passed to both, and nested calls resolve names as if the plans had been written in place.',
     ['programs', 'histories'], 'all library interfaces, arguments (literals, expressions, variables, arrays and elements), nesting and repeats',
     'The tests call a handful of library plans with simple arguments.',
     ['src/exec/LibraryCallNode.cc', 'src/xml-parser/parseLibraryCall.cc', 'src/xml-parser/planLibrary.cc', 'src/expr/Alias.cc'],
     [('alias map', 'src/exec/LibraryCallNode.cc'), ('library loading and linking', 'src/xml-parser/planLibrary.cc, src/xml-parser/parseLibraryCall.cc')],
     MON, 'Generated library plans are run in the executive and compared with the model, which resolves parameters by substitution.',
     observe=['ExecListenerBase', 'values of local variables'])

prop('C08', 'Expressions have the value PLEXIL gives them, by every route',
     'Every expression a plan can contain - arithmetic, comparison, logic, string, conversion and array operators nested in any way over literals, variables and array elements - is accepted with the right type and evaluates to the value the language defines, with unknown operands handled by the three-valued rules; a result that cannot be represented is unknown and never undefined behaviour. '
     'Reading the value by type, as a real, by pointer, as a generic value, as known-ness or as printed text always agrees, evaluating again changes nothing, and whenever the value changes those listening to the expression are told.',
     ['programs', 'inputs'], 'all expressions up to depth four over all types, all values including extremes, empty strings, unknowns and unknown array elements, and all sequences of changes of the variables',
     'Operator tests apply each operator to a few ordinary values through one route; extremes, nesting, mixed numeric types, unknown operands at one position and stale contents behind unknown elements are not sampled.',
     ['src/expr/ArithmeticOperators.cc', 'src/expr/ConversionOperators.cc', 'src/expr/Comparisons.cc', 'src/expr/BooleanOperators.cc', 'src/expr/StringOperators.cc', 'src/expr/ArrayOperators.cc', 'src/expr/Function.cc', 'src/expr/ArrayReference.cc', 'src/value/ArrayImpl.cc'],
     [('operators', 'src/expr/*Operators.cc, Comparisons.cc, OperatorImpl.hh'), ('function objects by argument count', 'src/expr/Function.cc'), ('operator tables and type checks', 'src/xml-parser/Operations.cc')],
     'differential monitor: the real parser and evaluator against an independent evaluator under AddressSanitizer + UndefinedBehaviorSanitizer', 'Tens of thousands of generated expressions, each evaluated over several rounds of variable changes. Integer overflow inside an expression may yield the exact result or unknown.',
     observe=['Expression::getValue/toValue/isKnown/valueString', 'ExpressionListener::notifyChanged'])

prop('C17', 'Values, arrays and states compare, copy and serialize faithfully',
     'Equality of values, arrays and states compares what they hold and nothing else (integers and reals by number, unknown elements only with unknown elements, whatever was stored before), ordering is total and agrees with that equality so states can be keys, and copying or assigning over any previous content gives an equal value that later changes to the original do not affect. '
     'A serialized value or state takes exactly the announced number of bytes and reads back equal into any previous content; printed integers, truth values, strings and node states read back as the same value and reals to fifteen digits, and malformed or out-of-range numerals are rejected.',
     ['inputs'], 'all values of all types including unknown ones, extremes, strings and arrays of hundreds of elements, and all orders of assigning over one another',
     'The unit tests compare a handful of short values; size-dependent encodings, stale contents behind unknown elements and mixed-type ordering need sizes and histories they do not contain.',
     ['src/value/Value.cc', 'src/value/Value.hh', 'src/value/ArrayImpl.cc', 'src/value/Array.cc', 'src/value/ValueType.cc', 'src/intfc/State.cc'],
     [('generic value', 'src/value/Value.cc'), ('arrays', 'src/value/ArrayImpl.cc'), ('states', 'src/intfc/State.cc'), ('text forms', 'src/value/ValueType.cc parseValue/printValue')],
     'differential monitor against a plain data model under AddressSanitizer + UndefinedBehaviorSanitizer; serialization into exactly sized buffers', 'Random values built by random histories; every pair and triple is compared with a data model. Reals print to 15 digits; not-a-number is outside the ordering claims.',
     observe=['Value/Array/State operators', 'serialize/deserialize', 'valueToString/parseValue'])

prop('C07', 'Lookups show the current value of the right state, within tolerance',
     'A lookup shows the last value the interface gave for the state its name and arguments now denote (unknown while any of them is unknown), asks the interface again when it becomes active in a later step, and tells its listeners of each change, whatever other lookups appear, move to another state or disappear at the same moment. '
     'A lookup with a tolerance keeps its value until the state differs from it by at least the tolerance or becomes known or unknown, then takes the new one; the thresholds given to the interface are always the tightest of all such active lookups on that state, so an interface that only reports values beyond them never leaves a lookup off by its tolerance or more.',
     ['histories', 'inputs'], 'all lookup expressions with nested, variable and computed names and arguments and any numeric tolerance, and all orders of activation, argument, tolerance and world changes and new steps',
     'Unit tests use a stub dispatcher, one or two lookups and constant tolerances; re-registration during a publication, changing tolerances, unknown phases and extreme values are not exercised.',
     ['src/intfc/Lookup.cc', 'src/intfc/StateCacheEntry.cc', 'src/intfc/StateCache.cc', 'src/intfc/CachedValueImpl.cc', 'src/xml-parser/LookupFactory.cc'],
     [('lookup expressions and thresholds', 'src/intfc/Lookup.cc'), ('state cache entries', 'src/intfc/StateCacheEntry.cc'), ('cached values', 'src/intfc/CachedValueImpl.cc')],
     'online monitor against a model of lookups and thresholds with a simulated interface, under AddressSanitizer + UndefinedBehaviorSanitizer', 'Tens of thousands of random histories; the interface is simulated in three modes (pushes all, honours thresholds, silent until asked).',
     observe=['Expression::toValue/getValue/isKnown', 'ExpressionListener::notifyChanged', 'Dispatcher::lookupNow/setThresholds/clearThresholds'])

prop('C13', 'Every plan document is either refused with a diagnostic or can be run',
     'Loading any XML document as a plan or as a library, however malformed, ends in a diagnostic or in a plan that runs in any environment without internal errors; it never crashes, leaks, reads freed memory or fails to end, and leaves nothing behind that disturbs the documents loaded afterwards. '
     'A document that breaks a rule of the language - undeclared or doubly declared names, operands, conditions, assignments, parameters or arguments of the wrong type or number, unreachable node references, malformed literals, missing, repeated or unknown parts, read-only parameters assigned, libraries missing or calling themselves - is refused. '
     'A well-formed one is accepted, and comments, source positions and layout make no difference.',
     ['inputs'], 'all XML documents: well-formed plans and libraries of every feature, documents breaking any one rule at any place, and arbitrary damage to either',
     'The tests load a few dozen fixed documents; what goes wrong depends on which part of an otherwise valid plan is damaged, and memory that is freed or lost on the refusal path is invisible to them.',
     ['src/xml-parser/parseNode.cc', 'src/xml-parser/createExpression.cc', 'src/xml-parser/OperationFactory.cc', 'src/xml-parser/commandXmlParser.cc', 'src/xml-parser/parseLibraryCall.cc', 'src/xml-parser/planLibrary.cc', 'src/xml-parser/parsePlan.cc', 'src/xml-parser/parseGlobalDeclarations.cc', 'src/xml-parser/LookupFactory.cc', 'src/xml-parser/parseNodeReference.cc', 'src/xml-parser/parseAssignment.cc', 'src/xml-parser/updateXmlParser.cc'],
     [('nodes and declarations', 'src/xml-parser/parseNode.cc'), ('expressions', 'src/xml-parser/createExpression.cc and the factories'), ('libraries', 'src/xml-parser/planLibrary.cc, parseLibraryCall.cc')],
     'mutation fuzzing of the real loader under AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer with a verdict oracle (rule-breaking and meaning-preserving changes), accepted plans being run in a hostile environment', 'Tens of thousands of documents derived from the plan generator and from 241 collected plans. Plan errors the language defines at run time (array index, unknown command name) are allowed. Elements beyond the expected ones inside a condition or after the plan\'s node are ignored by the loader and not claimed. One defect is recorded: a child starting in the very micro-step in which its parent ends.',
     observe=['parsePlan/loadLibraryDocument result', 'ParserException', 'Error/PlanError', 'LeakSanitizer'])

prop('C15', 'Events posted by interface threads are all applied, once and in order',
     'Whatever interface threads post while the executive runs - lookup values, command handles, returns and abort acknowledgements, update acknowledgements, messages and new plans - takes effect exactly once: nothing is lost, repeated, invented or torn, the events of one thread take effect in the order in which it posted them, and the executive reacts without waiting for a further event. '
     'No two threads ever step the executive at the same time or touch its data without synchronization, and an event that answers something already over is ignored.',
     ['schedules', 'histories'], 'all interleavings of any number of interface threads with the thread running the executive, and all kinds and numbers of events',
     'The tests never post events from a second thread; what goes wrong depends on the moment between dequeuing, stepping and going to sleep.',
     ['src/app-framework/ExecApplication.cc', 'src/app-framework/InterfaceManager.cc', 'src/app-framework/SerializedInputQueue.cc', 'src/app-framework/SimpleInputQueue.cc', 'src/utils/ThreadSemaphore.cc', 'src/utils/DebugMessage.cc'],
     [('input queue', 'src/app-framework/SerializedInputQueue.cc, SimpleInputQueue.cc'), ('posting and processing', 'src/app-framework/InterfaceManager.cc'), ('executive thread', 'src/app-framework/ExecApplication.cc')],
     'stress of the real application with several producer and responder threads under ThreadSanitizer and AddressSanitizer, with an exactly-once/order checker over what the plan and the listeners saw, and a queue history checker', 'Several thousand runs of the application; each run is one schedule. One defect is recorded: an answer to a command whose plan is already over and deleted.',
     observe=['ExecListenerBase', 'lookup values seen by plans', 'InputQueue contents', 'ThreadSanitizer reports'])

prop('C16', 'Waiting, suspending, resuming and stopping the application take effect',
     'A thread that waits for its posted events to be processed, for plans to finish or for shutdown is released when, and only when, that has happened; while suspended the executive takes no step and after resuming it catches up with everything posted meanwhile; stopping ends the execution thread and every waiter. '
     'This holds for any order of these calls, with the executive run by its own thread or by the notifying one, and for several applications one after the other in one process.',
     ['schedules', 'histories'], 'all orders and interleavings of wait, suspend, resume, add plan, mark, notify, stop and shutdown with running plans',
     'The applications the tests run start one application, wait once, and exit; suspend, resume and repeated use are not exercised at all.',
     ['src/app-framework/ExecApplication.cc', 'src/app-framework/InterfaceManager.cc', 'src/exec/PlexilExec.cc'],
     [('application state machine', 'src/app-framework/ExecApplication.cc'), ('marks', 'src/app-framework/InterfaceManager.cc'), ('finished plans', 'src/exec/PlexilExec.cc allPlansFinished')],
     'stress of the real application life cycle under ThreadSanitizer and AddressSanitizer with lifecycle monitors and a watchdog', 'Several thousand runs with random orders of calls; a call that has not returned after a generous time on an idle process counts as never returning.',
     observe=['return of waitForPlanFinished, waitForShutdown, notifyAndWaitForCompletion, suspend, resume, stop', 'ExecListenerBase::stepComplete'])

prop('C18', 'Plans that wait for a time are woken at that time',
     'A plan node that waits for a time of day, for a delay or for a duration since some timepoint, with any tolerance, proceeds no earlier than that time and, without any other event being needed, no later than that time plus the tolerance (and the adapter\'s tick where it has one); no such wait is ever lost, whatever other waits appear, change, end or expire at the same moment and whatever happened to the clock. '
     'A timer wakes up its client for every deadline set and not superseded, and at every tick, only while it is started, it can be stopped and started again, and its thread and the executive never use its data without synchronization. '
     'Arithmetic on times and conversion to and from seconds is exact to the resolution of the clock, ordered, and saturates out of range.',
     ['histories', 'schedules', 'inputs'], 'all sets of concurrent time waits with any deadlines and tolerances, all timer kinds and intervals, all moments of firing, and all times and durations',
     'Tests wait for one or two second-long delays on an idle machine; a deadline hit exactly, missed by a clock jump, re-set while firing or hours away is not sampled.',
     ['src/app-framework/TimeAdapter.cc', 'src/app-framework/Timebase.cc', 'src/app-framework/PosixTimebase.cc', 'src/app-framework/ItimerTimebase.cc', 'src/utils/timespec-utils.cc', 'src/utils/timeval-utils.cc', 'src/intfc/StateCacheEntry.cc'],
     [('time lookups and wakeups', 'src/app-framework/TimeAdapter.cc'), ('timers', 'src/app-framework/PosixTimebase.cc, ItimerTimebase.cc'), ('time arithmetic', 'src/utils/timespec-utils.cc, timeval-utils.cc')],
     'trace monitor over the real time adapter on a simulated kernel clock under AddressSanitizer + UndefinedBehaviorSanitizer, real timers under ThreadSanitizer, exact arithmetic oracle', 'Thousands of generated timed plans on a clock the harness advances to the programmed timer expirations only, with jumps, late firings and early ones; timers alone and time arithmetic by random operation sequences. The Darwin timer cannot be built here.',
     observe=['ExecListenerBase::notifyOfTransitions', 'timer_settime/setitimer/clock_gettime as seen by the adapter', 'Timebase wakeups'])

prop('C19', 'UDP messages are sent and received faithfully, once and in order',
     'A message command either succeeds, having sent exactly one datagram to its peer with its arguments encoded as configured (sizes, order, network byte order, zero padding), or fails having sent nothing: when an argument is unknown, of the wrong type, number or range, or the system refuses. '
     'While a message is being received, each datagram that arrives for it answers exactly one receive command, the oldest one waiting or else the next one issued, in order of arrival, and each of its parameters can then be fetched exactly once with the value the datagram holds; a command that failed or was aborted gets nothing, and what other commands wait for is unaffected. '
     'A datagram of the wrong length never shows data of another one, receiving can be aborted, repeated, stopped and started again without losing or leaking anything, and configurations that break the format are refused.',
     ['histories', 'inputs', 'schedules'], 'all message formats, argument values and datagram contents, all orders of sends, receives, fetches, aborts, restarts and failing system calls, and all interleavings with arriving datagrams',
     'The only test calls the encoding functions and opens one socket once; the adapter itself, a second receive of the same message, aborts, short datagrams and a datagram arriving while a receive is being set up are not exercised.',
     ['src/interfaces/UdpAdapter/UdpAdapter.cc', 'src/interfaces/UdpAdapter/UdpEventLoop.cc', 'src/interfaces/UdpAdapter/MessageQueueMap.cc', 'src/interfaces/UdpAdapter/udp-utils.cc'],
     [('commands, encoding and decoding', 'src/interfaces/UdpAdapter/UdpAdapter.cc, udp-utils.cc'), ('listeners and their thread', 'src/interfaces/UdpAdapter/UdpEventLoop.cc'), ('pairing of messages and commands', 'src/interfaces/UdpAdapter/MessageQueueMap.cc')],
     'trace monitor with exactly-once, order and byte-level codec oracles over the real adapter on an in-process network with injected faults, under AddressSanitizer + UndefinedBehaviorSanitizer and ThreadSanitizer', 'Tens of thousands of random histories; the socket calls are replaced by local sockets inside the process. Messages that share one local port are not claimed.',
     observe=['command handles, return values and abort acknowledgements', 'datagrams sent', 'open sockets'])

prop('C12', 'Listeners and the viewer are told of everything that happens, once and in order',
     'Every listener is told of each node transition, assignment, plan and library exactly once and in the order they happened, by the end of the step, except for what its own filter suppresses; what one listener does or suffers changes nothing for the others or for the plan, and an invalid filter is refused. '
     'A plan is announced before its first transition is, whichever threads add plans and libraries. '
     'The plan viewer receives a sequence of complete, well-formed messages holding the exact text of names and values, each plan preceded by its header and each message acknowledged before the next if the viewer blocks; partial writes and interrupted calls do not show, and a viewer that cannot be reached or goes away is done without.',
     ['histories', 'inputs', 'schedules'], 'all plans and environments, filter configurations and combinations of listeners, contents of names and values, points at which a viewer goes away or a call is cut short, and interleavings of threads adding plans',
     'No test registers a listener with a filter, connects a viewer, or adds plans from more than one thread.',
     ['src/app-framework/ExecListenerHub.cc', 'src/app-framework/ExecListener.cc', 'src/app-framework/ListenerFilters.cc', 'src/interfaces/LuvListener/LuvListener.cc', 'src/interfaces/LuvListener/LuvFormat.cc', 'src/interfaces/Sockets/Socket.cpp', 'src/app-framework/InterfaceManager.cc'],
     [('distribution to listeners and their filters', 'src/app-framework/ExecListenerHub.cc, ExecListener.cc, ListenerFilters.cc'), ('messages to the viewer', 'src/interfaces/LuvListener/LuvFormat.cc'), ('connection to the viewer', 'src/interfaces/LuvListener/LuvListener.cc, src/interfaces/Sockets/Socket.cpp'), ('announcing plans and libraries', 'src/app-framework/InterfaceManager.cc')],
     'trace monitor with exactly-once and order oracles at every listener and a protocol parser on the viewer byte stream, over the real executive and application on an in-process network with injected faults, under AddressSanitizer + UndefinedBehaviorSanitizer and ThreadSanitizer', 'Tens of thousands of random plan runs with random listeners; the socket calls are replaced inside the process.',
     observe=['calls to each listener', 'bytes sent to the viewer', 'open connections'])

prop('C20', 'Test scripts drive the executive exactly as written',
     'The test executive applies the initial states before its first step and then each event of the script, or each group of simultaneous events as a whole, before one step of its own, in the order written: states are seen by the plan under their exact name and parameters with exactly the written typed value, unknown included. '
     'Each command return, command acknowledgement, abort answer, update acknowledgement and sent plan reaches exactly the outstanding command, abort or update it names, or the executive, once, with the written value, while everything not mentioned is left as it was. '
     'A script, plan, library or command line that is malformed, has a value that is not of its type, or answers something that is not outstanding is refused with a message and a failure status before any later event takes effect.',
     ['histories', 'inputs'], 'all plans, scripts (events, groups, values of all types, parameters, answers) and command lines, well formed or not',
     'Every regression test is itself such a script, written to agree with what the plan did when it was recorded, and an unread value or a dropped event only shows when the plan happens to look at it; malformed scripts and sent plans are not tested at all.',
     ['src/apps/TestExec/TestExternalInterface.cc', 'src/apps/TestExec/exec-test-runner.cc', 'src/exec/plan-utils.cc', 'src/xml-parser/parsePlan.cc'],
     [('script interpreter', 'src/apps/TestExec/TestExternalInterface.cc'), ('main program', 'src/apps/TestExec/exec-test-runner.cc'), ('printing commands', 'src/exec/plan-utils.cc')],
     'trace monitor with a script-level reference model, over the real test executive, under AddressSanitizer + UndefinedBehaviorSanitizer', 'Thousands of random plans with random scripts, and as many broken scripts and command lines run in child processes.',
     observe=['states looked up by the plan', 'node states, handles and return values after every step', 'output', 'exit status and steps taken before a refusal'])

prop('C21', 'The simulator sends what its scripts say, when they say, and nothing else',
     'The stand-alone simulator sends every telemetry value of its scripts once, under its name and with the written typed value (unknown included), at the written delay after it starts, and answers each command at the written delay after it came in, with the answer scripted for that occurrence of that command or otherwise its default, addressed to that command, or not at all if there is none. '
     'Nothing is sent early, lost, repeated or out of time order, whatever the number, order, timing or concurrency of the commands, and a lookup gets the last telemetry sent under its name, or nothing before that; over IPC, every reply goes to the agent that asked, under the number of its request, and a lookup of something not yet sent gets unknown. '
     'A script that is malformed, or has a value that is not of its declared type, is refused with a message.',
     ['histories', 'inputs', 'schedules'], 'all scripts in the three script formats, command and lookup arrivals, timer latenesses and thread interleavings',
     'No test covers the simulator at all; its errors need a response that falls due while another is being sent or a command comes in, a time with no fractional part, or a script ending without a newline.',
     ['src/apps/StandAloneSimulator/Simulator.cc', 'src/apps/StandAloneSimulator/Agenda.cc', 'src/apps/StandAloneSimulator/TimingService.cc', 'src/apps/StandAloneSimulator/SimulatorScriptReader.cc', 'src/apps/StandAloneSimulator/ResponseFactory.cc', 'src/apps/StandAloneSimulator/CommandResponseManager.cc', 'src/apps/StandAloneSimulator/IpcCommRelay.cc', 'src/utils/timeval-utils.cc'],
     [('simulator loop', 'src/apps/StandAloneSimulator/Simulator.cc'), ('schedule', 'src/apps/StandAloneSimulator/Agenda.cc'), ('script reader', 'src/apps/StandAloneSimulator/SimulatorScriptReader.cc'), ('command replies', 'src/apps/StandAloneSimulator/CommandResponseManager.cc'), ('IPC relay', 'src/apps/StandAloneSimulator/IpcCommRelay.cc')],
     'trace monitor with a script-level reference model under a virtual clock, interval timer and signal wait, and on real threads and timers under ThreadSanitizer and AddressSanitizer + UndefinedBehaviorSanitizer', 'Hundreds of thousands of random scripts with random arrivals and late timer signals in virtual time, broken scripts, threads sending commands to a simulator on real timers, and the relay serving several agents on an in-process message bus.',
     observe=['messages sent: time, addressee, name, type, value', 'lookup answers', 'interval timer settings', 'refusals and their messages', 'messages published by the relay: addressee, request number, contents'])

prop('C22', 'Plans can start, watch, end and print through the executive itself',
     'A plan that starts another plan by command is told success and a new, unique name exactly when that plan exists and the parameters given are proper ones for it, and then exactly one such plan runs, with exactly the argument values given; otherwise it is told failure and nothing runs. '
     'The state, outcome and failure type of every top-level plan can be looked up by its name, always as they are now, unknown while there is none, and as they were at the end once it has finished, through repeats and reuse of names. '
     'Telling a plan to exit ends that plan if exactly one such plan is there and fails otherwise, and no other plan is ended; the print commands write or return exactly their arguments.',
     ['histories', 'inputs'], 'all plans, libraries, argument values and sequences of start, exit, print and plan events',
     'No test covers the launcher; its errors need array or unknown or long real arguments, a plan that repeats with another outcome, or a name used twice.',
     ['src/app-framework/Launcher.cc', 'src/app-framework/UtilityAdapter.cc', 'src/interfaces/Launcher/README', 'src/exec/plan-utils.cc'],
     [('start and exit commands, plan state lookups', 'src/app-framework/Launcher.cc'), ('print commands', 'src/app-framework/UtilityAdapter.cc')],
     'trace monitor on the command handler and on root node transitions of a real application running random plans that start, watch and end others, under AddressSanitizer + UndefinedBehaviorSanitizer', 'Thousands of random histories of up to 25 operations with hundreds of thousands of argument values and lookups.',
     observe=['plans that ran and the argument values they saw', 'answers and returned names', 'root node states, outcomes and failure types', 'lookup values', 'printed text'])

prop('C23', 'Messages reach plans once, in order and whole, under handles that never clash',
     'Every message a transport delivers, from whatever thread, can be taken exactly once by a plan asking for a message handle, in order of arrival, and every handle given is new; asking when no message waits gives an unknown handle. '
     'While a handle is held its text, sender, arrival time, parameter count and parameters are exactly those delivered, with nothing known for an anonymous sender or a parameter that is unknown or not there; once released, or for a handle never given, all of them are unknown. '
     'Whether a message waits, and the text and sender of the first one waiting, can be looked up at any time and change with the queue; every message command is answered exactly once and one with bad arguments fails without any other effect.',
     ['histories', 'schedules', 'inputs'], 'all sequences and interleavings of delivered messages, message commands and message lookups',
     'No test covers messages; its errors need several transport threads, a handle released while it is being watched, anonymous senders or malformed commands.',
     ['src/app-framework/MessageAdapter.cc', 'src/intfc/StateCache.cc', 'src/app-framework/Messaging.md'],
     [('message queue and commands', 'src/app-framework/MessageAdapter.cc'), ('message data under handles', 'src/intfc/StateCache.cc'), ('accept and release in order with lookups', 'src/app-framework/InterfaceManager.cc')],
     'trace monitor comparing every message lookup and command answer of a real application with a reference queue after each operation (AddressSanitizer + UndefinedBehaviorSanitizer), and a conservation and order check over several delivering threads (ThreadSanitizer)', 'Thousands of random histories, with standing and fresh lookups compared after every step, and hundreds of racing deliveries per case.',
     observe=['messages delivered, taken and released', 'handles given', 'standing and fresh lookup values', 'command answers'])

prop('C24', 'Every request goes to the adapter the interface configuration declares for it',
     'For every interface configuration, each command, lookup, tolerance and planner update of a running plan reaches exactly the adapter declared last for its name, else the declared default, else the built-in answer (command succeeds, lookup stays unknown, update is acknowledged); aborts and ends of tolerances go to the same place. '
     'A handler that reports an error gives exactly its own request an interface-error, unknown, or failed answer and harms no other. '
     'The declared adapters and listeners are built, initialised, started, stopped and destroyed once each, in the order written, library plans are found in the first declared directory that has them, and a configuration with a part that cannot be built, initialised or started is refused without leaving anything behind.',
     ['inputs', 'histories'], 'all interface configuration documents, and all plans run and application lifecycles under them',
     'No test builds an application with more than one adapter; errors need particular combinations of declarations, defaults, overrides, handler errors and moments of shutdown.',
     ['src/app-framework/AdapterConfiguration.cc', 'src/app-framework/InterfaceManager.cc', 'src/app-framework/ExecApplication.cc', 'src/intfc/StateCacheEntry.cc'],
     [('reads the configuration and registers handlers', 'src/app-framework/AdapterConfiguration.cc'), ('chooses the handler of each request', 'src/app-framework/InterfaceManager.cc'), ('application lifecycle', 'src/app-framework/ExecApplication.cc'), ('where tolerances begin and end', 'src/intfc/StateCacheEntry.cc')],
     'trace monitor in recording adapters and listeners of a real application, compared with the configuration document and the plan (AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer)', 'Thousands of random configurations with overrides, defaults, errors and mistakes, each with a random plan of requests and a stop at a random moment.',
     observe=['adapter and listener lifecycle events', 'requests, aborts and tolerances by adapter', 'answers seen by the plan', 'configurations accepted and refused'])

prop('C25', 'Every name denotes the innermost declaration it may see',
     'A name of a variable, array or mutex used in a node denotes the declaration in the closest node around the use, an interface declaration denotes the surrounding variable of that name, read-only unless declared in-out, or its own default when there is none, and a node referred to by name or by relation (self, parent, child, sibling) is the closest one of that name. '
     'This holds whatever the names are: names shadowed by inner declarations, shared by unrelated nodes, or equal to parameters of called library plans, whose own names never mix with those of their callers. ',
     ['programs', 'histories'], 'all plans, nestings, declarations, interfaces and choices of equal names',
     'The tests give nearly every variable and node a name of its own; a wrong binding shows only where an inner and an outer declaration have the same name and different values.',
     ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/LibraryCallNode.cc', 'src/exec/NodeVariableMap.cc', 'src/xml-parser/parseNode.cc', 'src/xml-parser/parseNodeReference.cc', 'src/xml-parser/findDeclarations.cc'],
     [('variables, mutexes and children by name', 'src/exec/NodeImpl.cc, src/exec/NodeVariableMap.cc'), ('what the children of a list or library call see', 'src/exec/ListNode.cc, src/exec/LibraryCallNode.cc'), ('interfaces', 'src/xml-parser/parseNode.cc'), ('node references', 'src/xml-parser/parseNodeReference.cc')],
     MON, 'Generated plans get equal names wherever that leaves every use with the same meaning; executions are compared with the model, which knows each use by its declaration and never by its name.',
     observe=['ExecListenerBase', 'values of local variables', 'names changed, interfaces, relative references'])

prop('C26', 'Whatever crosses IPC takes effect exactly once with the values sent',
     'What the executive publishes over IPC (messages, commands, queries, return values, telemetry, planner updates) appears there once, complete, in order, with exactly the values of that moment and the destination its name gives, and the request then succeeds; otherwise it fails and nothing else suffers. '
     'What other agents send (messages, commands with parameters, telemetry, replies to commands and queries, plans, libraries, notifications) takes effect exactly once with the values sent, for exactly the request, state or plan it names; published lookups answer queries with their last value, and anything malformed, unasked or for a command that is over changes nothing. '
     'However the pieces of messages of different agents interleave and whatever the threads of the adapter do, nothing is lost, repeated, mixed up or leaked, and the adapter can be stopped and started again.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all sequences and interleavings of commands, lookups, updates and incoming message pieces, all values, all failures of a publishing call',
     'No test runs the IPC adapter; its errors need interleaved multi-part messages, replies that are early, late or repeated, values that cannot be sent, a failing central server, or two threads.',
     ['src/interfaces/IpcAdapter/IpcAdapter.cc', 'src/interfaces/IpcAdapter/MessageQueueMap.cc', 'src/interfaces/IpcUtils/IpcFacade.cc'],
     [('commands, lookups, updates and incoming messages', 'src/interfaces/IpcAdapter/IpcAdapter.cc'), ('waiting messages and receivers', 'src/interfaces/IpcAdapter/MessageQueueMap.cc'), ('publishing and the dispatch thread', 'src/interfaces/IpcUtils/IpcFacade.cc')],
     'trace monitor on an in-process message bus and a recording executive interface, compared with a model of every queue, reply and published message (AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer), and conservation and order checks over several sending threads (ThreadSanitizer)', 'Thousands of random histories judged message by message with failing publish calls, interleaved and broken sequences, and hundreds of races between senders, the dispatch thread and the executive.',
     observe=['messages published, piece by piece', 'returns, handles, aborts, values, plans told to the executive', 'message buffers not released', 'orders of interleaved messages'])

prop('C27', 'The universal executive does what its command line and files say',
     'A run executes exactly the plan it is given, with the adapters, listeners and library path of the configuration file, the libraries and library directories, resource file and viewer of the command line, whatever the order of the options and whether files are named or found under their default names; a missing configuration leaves only the default one, and missing default files nothing. '
     'Exactly the debug messages the debug configuration asks for are printed, each once; the viewer receives each transition once; each adapter is started and stopped once; and the status is zero once the plan has finished. '
     'When options are unknown, contradictory or lack their value, or the plan, a library, the configuration or anything it names is missing, malformed or fails to start, the run says so, ends with a nonzero status, and nothing of the plan has happened.',
     ['inputs', 'configurations', 'fault_sequences'], 'all command lines, configurations, debug configurations, library and resource files and plans, complete or broken',
     'No test runs the program on more than one command line; its errors need options in another order, files that are absent, cut short or in other directories, interfaces that fail, or particular debug settings.',
     ['src/universal-exec/UniversalExec.cc', 'src/app-framework/AdapterConfiguration.cc', 'src/utils/DebugMessage.cc', 'src/app-framework/ExecListenerHub.cc'],
     [('command line and order of the phases', 'src/universal-exec/UniversalExec.cc'), ('construction and start of what the configuration names', 'src/app-framework/AdapterConfiguration.cc'), ('debug configuration and messages', 'src/utils/DebugMessage.cc')],
     'monitor of whole runs of the program in child processes: what an adapter, a listener and a viewer of the harness received, everything printed, and the exit status are compared with what the command line and files ask for (AddressSanitizer and UndefinedBehaviorSanitizer)', 'Hundreds of generated command lines with their files, each judged command by command, transition by transition and message by message, a third of them with one thing wrong.',
     observe=['commands and transitions seen by an adapter and a listener', 'debug messages printed, by marker', 'messages a viewer received', 'exit status and diagnostics'])
