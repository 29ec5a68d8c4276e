"""What each check runs. quick/thorough are numbers of generated cases."""
EXEC_ASSUME = ['external interface, resource file and world values are generated; the reference model of PLEXIL semantics is /verif/harness/pmodel.hh',
               'cases in which a child is left active below a parent that already ended (a documented oddity of the semantics) are discarded and counted']
EXEC_RULE = ('each case generates a random plan (profile %s), runs it for up to 60 steps in the real executive under AddressSanitizer+UBSan against a random '
             'environment, and compares every published transition, assignment, command, abort and update with a reference model; '
             'distinct_nontrivial counts distinct whole-run transition sequences plus distinct (node type, from, to, outcome, failure) tuples seen')


def ex(profile, quick, thorough, kinds, **kw):
    d = dict(h='h_exec', v='asan', args='--profile ' + profile, quick=quick, thorough=thorough, kinds=kinds, chunk=400, tmo=200)
    d.update(kw)
    return d

APP_RULE = ('each case starts the real application with random plans and runs producer, responder and control threads against it; monitors compare what plans and listeners saw '
            'with what was posted; distinct_nontrivial counts distinct (threads, actions, plans, outcome) profiles and distinct thread-switch patterns seen')
APP_ASSUME = ['each case is one schedule of the operating system, perturbed by random delays', 'a wait of 60 s on an otherwise finished application counts as a hang']


PROPS = {
    'C01': dict(jobs=[ex('life', 14000, 400000, 'state|missing|internal'), ex('cond', 8000, 200000, 'state|missing|internal'),
                      ex('big', 4000, 120000, 'state|missing|internal'), ex('cmd', 4000, 60000, 'state|missing|internal'),
                      ex('update', 2000, 30000, 'state|missing|internal'), ex('lib', 2000, 30000, 'state|missing|internal'), ex('assign', 2000, 30000, 'state|missing|internal')],
                rule=EXEC_RULE % 'life, cond, big, cmd, update, lib, assign', assumptions=EXEC_ASSUME, floor={'transitions': 100000}),
    'C02': dict(jobs=[ex('watch', 14000, 400000, 'quiesce|missing|internal'), ex('cond', 10000, 300000, 'quiesce|missing|internal'), ex('big', 5000, 150000, 'quiesce|missing|internal'),
                      ex('life', 6000, 100000, 'quiesce|missing|internal'), ex('cmd', 6000, 100000, 'quiesce|missing|internal'),
                      ex('resource', 3000, 50000, 'quiesce|missing|internal'), ex('update', 2000, 30000, 'quiesce|missing|internal'), ex('assign', 8000, 150000, 'quiesce|missing|internal')],
                rule=EXEC_RULE % 'watch, cond, big, life, cmd, resource, update, assign', assumptions=EXEC_ASSUME, floor={'idle': 10000, 'transitions': 100000}),
    'C03': dict(jobs=[ex('resource', 20000, 600000, 'resource|missing|quiesce|internal'), ex('assign', 10000, 200000, 'resource|missing|quiesce|internal')],
                rule=EXEC_RULE % 'resource, assign', assumptions=EXEC_ASSUME, floor={'contended': 2000, 'uncommon_sizes': 1500}),
    'C04': dict(jobs=[ex('watch', 6000, 100000, 'assign|retract|var|internal'), ex('assign', 20000, 600000, 'assign|retract|var|internal'), ex('lib', 4000, 60000, 'assign|retract|var|internal'), ex('life', 4000, 60000, 'assign|retract|var|internal'), ex('ret', 8000, 300000, 'assign|retract|var|internal')],
                rule=EXEC_RULE % 'watch, assign, lib, life, ret', assumptions=EXEC_ASSUME, floor={'assignments': 10000, 'retractions': 500, 'array_returns': 300, 'element_returns': 300}),
    'C05': dict(jobs=[ex('cmd', 26000, 700000, 'cmd|state|var|internal'), ex('lib', 3000, 60000, 'cmd|internal')],
                rule=EXEC_RULE % 'cmd, lib', assumptions=EXEC_ASSUME, floor={'commands': 10000, 'aborts': 500, 'handles': 5000, 'uncommon_sizes': 1500}),
    'C06': dict(jobs=[ex('arb', 28000, 800000, 'arb|cmd|internal')],
                rule=EXEC_RULE % 'arb', assumptions=EXEC_ASSUME, floor={'commands': 10000, 'rejections': 2000, 'deep_resources': 5000, 'shared_resources': 500}),
    'C09': dict(jobs=[ex('update', 26000, 700000, 'update|state|internal')],
                rule=EXEC_RULE % 'update', assumptions=EXEC_ASSUME, floor={'updates': 5000}),
    'C10': dict(jobs=[ex('lib', 24000, 600000, 'lib|load|state|missing|assign|var|cmd|update|internal')],
                rule=EXEC_RULE % 'lib', assumptions=EXEC_ASSUME, floor={'transitions': 100000, 'nested_calls': 2000, 'uncommon_sizes': 1000}),
    'C08': dict(jobs=[dict(h='h_expr', v='asan', args='', quick=60000, thorough=2500000, kinds='.*', chunk=1500, tmo=200)],
                rule='each case generates a random expression and random variables, evaluates it over six rounds of changes and compares with an independent evaluator; '
                     'distinct_nontrivial counts distinct (operator, arity, type, known) tuples plus distinct (expression, round, known) tuples',
                assumptions=['the reference evaluator in /verif/harness/h_expr.cc states the PLEXIL semantics of operators', 'real results are compared exactly'],
                floor={'evals': 100000, 'known': 50000, 'changes': 3000}),
    'C17': dict(jobs=[dict(h='h_value', v='asan', args='', quick=120000, thorough=4000000, kinds='.*', chunk=3000, tmo=200)],
                rule='each case compares five related random values pairwise and in triples, runs a random history of assignments, and round-trips values through serialization and text; '
                     'distinct_nontrivial counts distinct (types, known-ness, order, size) tuples and distinct numerals',
                assumptions=['the data model in /verif/harness/h_value.cc states what values mean'], floor={'comparisons': 500000, 'serialized': 100000, 'manyparameters': 5000}),
    'C07': dict(jobs=[dict(h='h_lookup', v='asan', args='', quick=60000, thorough=2500000, kinds='.*', chunk=1500, tmo=200)],
                rule='each case builds up to five lookup expressions (nested parameters, computed names, tolerances), runs up to 30 events (activation, parameter, tolerance, world and cycle changes) '
                     'against an interface that pushes every change, honours thresholds, or stays silent, and compares every lookup with a model after every event; distinct_nontrivial counts distinct (lookup, shown value) pairs',
                assumptions=['within a tree of lookups with tolerances one event reaches each lookup by one path only', 'real values and tolerances are multiples of 0.25'],
                floor={'checks': 500000, 'thresholdchecks': 50000, 'tolchecks': 10000}),
    'C13': dict(jobs=[dict(h='h_load', v='asan', args='--mode corpus', quick=250, thorough=250, kinds='.*', chunk=32, tmo=300),
                      dict(h='h_load', v='asan', args='--mode directed', quick=60, thorough=60, kinds='.*', chunk=4, tmo=120),
                      dict(h='h_load', v='asan', args='--mode bad', quick=12000, thorough=200000, kinds='.*', chunk=500, tmo=300),
                      dict(h='h_load', v='asan', args='--mode benign', quick=6000, thorough=60000, kinds='.*', chunk=200, tmo=300),
                      dict(h='h_load', v='asan', args='--mode mutate', quick=40000, thorough=1500000, kinds='.*', chunk=250, tmo=400),
                      dict(h='h_load', v='asan', args='--mode huge', quick=1500, thorough=60000, kinds='.*', chunk=50, tmo=300)],
                rule='each case loads one document - a collected plan, a hand-written one, a very deep or very wide one, a generated plan with one rule broken, a plan decorated with comments, or a randomly damaged one - into a fresh executive, compares the verdict with what is known about the document, '
                     'and runs what was accepted; distinct_nontrivial counts distinct (document, first change, verdict) tuples and distinct diagnostics',
                assumptions=['the list of collected plans that are ill formed, /verif/corpus/refused.txt, was reviewed by hand'], floor={'refused': 10000, 'accepted': 5000, 'rule_applied': 5000, 'completed': 5000, 'deep_documents': 500, 'wide_documents': 300}),
    'C15': dict(jobs=[dict(h='h_app', v='tsan', args='', quick=8000, thorough=200000, kinds='order|lost|exclusion|plan|hang|internal', chunk=50, tmo=300),
                      dict(h='h_app', v='asan', args='', quick=8000, thorough=200000, kinds='order|lost|exclusion|plan|hang|internal', chunk=50, tmo=300),
                      dict(h='h_queue', v='asan', args='', quick=6000, thorough=200000, kinds='.*', chunk=250, tmo=200),
                      dict(h='h_queue', v='tsan', args='', quick=2000, thorough=60000, kinds='.*', chunk=100, tmo=300),
                      dict(h='h_app', v='asan', args='--directed late-response', quick=1, thorough=1, kinds='.*', chunk=1, tmo=120)],
                rule=APP_RULE, assumptions=APP_ASSUME, floor={'events': 20000, 'switches': 1000}),
    'C16': dict(jobs=[dict(h='h_app', v='tsan', args='', quick=12000, thorough=300000, kinds='mark|lost|finished|suspend|shutdown|plan|addplan|hang|internal', chunk=50, tmo=300),
                      dict(h='h_app', v='asan', args='', quick=12000, thorough=300000, kinds='mark|lost|finished|suspend|shutdown|plan|addplan|hang|internal', chunk=50, tmo=300)],
                rule=APP_RULE, assumptions=APP_ASSUME, floor={'waits': 2000, 'suspends': 300, 'shutdowns': 1000}),
    'C18': dict(jobs=[dict(h='h_time', v='asan', args='--mode plan', quick=200000, thorough=1500000, kinds='.*', chunk=500, tmo=300),
                      dict(h='h_time', v='asan', args='--mode unit', quick=300000, thorough=2000000, kinds='.*', chunk=2000, tmo=200),
                      dict(h='h_time', v='asan', args='--mode arith', quick=60000, thorough=500000, kinds='.*', chunk=1000, tmo=200),
                      dict(h='h_time', v='tsan', args='--mode race', quick=2000, thorough=20000, kinds='.*', chunk=20, tmo=300)],
                rule='each plan case runs a random plan of time waits with the real time adapter on a simulated kernel clock that the harness moves to the programmed expirations (or past them, or makes jump), and compares every start and end with its due time; '
                     'unit cases drive a timer through random calls, arith cases compare random times with 128-bit arithmetic, race cases let real timers fire while deadlines are set; distinct_nontrivial counts distinct plan shapes with outcome, call sequences and value classes',
                assumptions=['clock_gettime, gettimeofday, timer_* and setitimer are replaced by a simulated kernel in the plan and unit modes'], floor={'thresholds': 50000, 'started': 5000, 'firings': 20000, 'settimers': 20000, 'racewakes': 5000}),
    'C19': dict(jobs=[dict(h='h_udp', v='asan', args='--mode seq', quick=120000, thorough=3000000, kinds='.*', chunk=2000, tmo=300),
                      dict(h='h_udp', v='tsan', args='--mode race', quick=2000, thorough=60000, kinds='.*', chunk=50, tmo=300),
                      dict(h='h_udp', v='asan', args='--mode race', quick=4000, thorough=60000, kinds='.*', chunk=100, tmo=300)],
                rule='each case makes a random adapter configuration (or a malformed one) and performs up to 40 random actions - send, receive, datagram, fetch, abort, stop, start, failing system calls - or lets a peer thread send numbered datagrams meanwhile; '
                     'every handle, value, acknowledgement, datagram and open socket is compared with a model; distinct_nontrivial counts distinct action histories with outcomes',
                assumptions=['socket, bind, connect, send, recvfrom, poll and close are replaced by local sockets of the process', 'each message has its own local port'],
                floor={'sends': 20000, 'received': 20000, 'parameters': 20000, 'aborts': 5000, 'raced': 20000, 'signals': 5000}),
    'C12': dict(jobs=[dict(h='h_listen', v='asan', args='--mode hub', quick=24000, thorough=600000, kinds='listen|luv', chunk=400, tmo=300),
                      dict(h='h_listen', v='tsan', args='--mode race', quick=1600, thorough=40000, kinds='listen|luv|internal', chunk=50, tmo=300),
                      dict(h='h_listen', v='asan', args='--mode race', quick=2400, thorough=40000, kinds='listen|luv|internal', chunk=100, tmo=300)],
                rule='each hub case runs a random plan in a random environment with one to four listeners (recording or viewer, unfiltered, filtered by state or at random, some misconfigured), adds events and documents with difficult text, and cuts writes short, interrupts calls, loses viewers and restarts; '
                     'each race case adds plans and libraries from up to three threads to the running application; every record and every byte sent is compared with the events; distinct_nontrivial counts distinct event histories with listener configurations',
                assumptions=['socket, connect, send, recv and close are replaced inside the process', 'the outcome and conditions in a viewer message are those at the end of the step'],
                floor={'delivered': 200000, 'viewer_messages': 50000, 'viewers_lost': 100, 'raced_plans': 5000, 'partial_writes': 10000}),
    'C20': dict(jobs=[dict(h='h_script', v='asan', args='--mode good', quick=24000, thorough=600000, kinds='.*', chunk=300, tmo=300),
                      dict(h='h_script', v='asan', args='--mode bad', quick=9000, thorough=100000, kinds='.*', chunk=100, tmo=300)],
                rule='each good case writes a random plan (commands with and without return values, updates, printing, a library call) and a random script, runs the real main program on them and compares what the plan sees after every step with the script so far; '
                     'each bad case breaks the script, a file or the command line in one place and requires a message, a failure status and no step beyond the break; distinct_nontrivial counts distinct event histories and distinct breakages with their exit status',
                assumptions=['where a step sends something out, node states are compared after the step that follows'],
                floor={'events': 50000, 'lookups': 500000, 'settled': 50000, 'ev_plan': 8000, 'ev_return': 2000, 'ev_abort': 2000, 'refusals': 8000}),
    'C21': dict(jobs=[dict(h='h_sim', v='asan', args='--mode clock', quick=400000, thorough=8000000, kinds='.*', chunk=5000, tmo=300),
                      dict(h='h_sim', v='asan', args='--mode bad', quick=20000, thorough=100000, kinds='.*', chunk=1000, tmo=300),
                      dict(h='h_sim', v='tsan', args='--mode race', quick=2400, thorough=40000, kinds='.*', chunk=60, tmo=300),
                      dict(h='h_sim', v='asan', args='--mode race', quick=800, thorough=10000, kinds='.*', chunk=60, tmo=300),
                      dict(h='h_ipc', v='asan', args='--mode relay', quick=6000, thorough=200000, kinds='.*', chunk=300, tmo=300),
                      dict(h='h_ipc', v='tsan', args='--mode relay', quick=600, thorough=20000, kinds='.*', chunk=60, tmo=300)],
                rule='each clock case writes random scripts, runs the real reader and loop in virtual time while commands and lookups come in, and matches every message sent with what the scripts say; each bad case breaks a script in one place and requires a refusal; each race case has 2-4 threads sending commands to a simulator on real timers; each relay case has agents send commands, lookups and rubbish over an in-process message bus to the real relay, with publish calls that fail, and compares everything asked of the simulator and published with a model; '
                     'distinct_nontrivial counts distinct histories of messages (name and 50 ms slot), distinct breakages, distinct send orders in races and distinct histories at the relay',
                assumptions=['the delay of a message is measured to the microsecond in virtual time with 2 ms allowed for injected timer lateness; on real timers only earliness and loss are judged', 'arrays and dates in scripts are not implemented and are refused', 'in relay cases the simulator is a stand-in and the IPC library an in-process bus; in all others the relay is a stand-in'],
                floor={'telemetry': 500000, 'replies': 300000, 'lookups_answered': 100000, 'refusals': 10000, 'race_replies': 30000, 'late_timers': 200000, 'relayreplies': 50000, 'relaylookups': 20000, 'relayunknown': 20000, 'relaytelemetry': 25000, 'relayunanswered': 25000}),
    'C22': dict(jobs=[dict(h='h_launch', v='asan', args='', quick=6000, thorough=400000, kinds='.*', chunk=150, tmo=300)],
                rule='each case is a history of start, exit, print, watch and world operations by plans run in a real application with random library plans, a third of the calls having one mistake; after each operation every answer, started plan, argument and watched lookup is compared with what the monitor saw; '
                     'distinct_nontrivial counts distinct histories of operations and answers',
                assumptions=['one thread; the thread safety of the queue between adapters and executive is C15', 'string arrays with unknown elements cannot be written in a plan and are refused by the launcher'],
                floor={'burst_starts': 5000, 'started': 30000, 'params': 100000, 'refused': 10000, 'exited': 2000, 'known_lookups': 300000, 'names_reused': 1500, 'prints': 5000}),
    'C23': dict(jobs=[dict(h='h_msg', v='asan', args='--mode plan', quick=4000, thorough=200000, kinds='.*', chunk=100, tmo=300),
                      dict(h='h_msg', v='tsan', args='--mode race', quick=600, thorough=20000, kinds='.*', chunk=25, tmo=300),
                      dict(h='h_msg', v='asan', args='--mode race', quick=300, thorough=10000, kinds='.*', chunk=25, tmo=300)],
                rule='each plan case is a history of deliveries, takes, looks and releases in a real application compared with a reference queue after every operation; each race case has several threads delivering while consumer plans take every message, compared with what was sent; '
                     'distinct_nontrivial counts distinct histories and distinct orders in which messages were taken',
                assumptions=['a transport gives a message to the adapter complete, with its time of arrival chosen by the adapter', 'sending and publishing have no transport here: only their argument checks are judged'],
                floor={'race_long': 10, 'received': 15000, 'accepted': 7000, 'released': 1800, 'refused': 2800, 'known_lookups': 300000, 'race_taken': 20000, 'race_switches': 4000}),
    'C24': dict(jobs=[dict(h='h_conf', v='asan', args='', quick=40000, thorough=1000000, kinds='.*', chunk=400, tmo=300)],
                rule='each case writes a random configuration document, builds an application from it, runs a random plan of commands, lookups, tolerances, updates and library calls, and stops it at once or at the end; every lifecycle event and every request is compared with what the document declares; '
                     'distinct_nontrivial counts distinct (configuration, plan) behaviours',
                assumptions=['an adapter that fails is one that says so: no failure half-way through starting is followed further', 'adapters register their handlers themselves, from their configuration element; the handler elements the configuration format only sketches are not used'],
                floor={'configurations_accepted': 25000, 'configurations_refused': 7000, 'requests_checked': 40000, 'lifecycle_events_checked': 500000, 'aborts_checked': 8000, 'thresholds_checked': 5000}),
    'C25': dict(jobs=[ex('scope', 20000, 700000, '.*'), dict(h='h_load', v='asan', args='--mode names', quick=10000, thorough=200000, kinds='.*', chunk=500, tmo=300)],
                rule=EXEC_RULE % 'scope' + '; each names case gives a generated plan one name that denotes nothing, or something the use may not touch, and expects it to be refused', assumptions=EXEC_ASSUME, floor={'transitions': 100000, 'renames': 100000, 'interfaces': 20000, 'omitted_arguments': 1000, 'relative_references': 10000, 'rule_applied': 3000}),
    'C26': dict(jobs=[dict(h='h_ipc', v='asan', args='--mode seq', quick=16000, thorough=800000, kinds='.*', chunk=200, tmo=300),
                      dict(h='h_ipc', v='tsan', args='--mode race', quick=1200, thorough=40000, kinds='.*', chunk=50, tmo=300),
                      dict(h='h_ipc', v='tsan', args='--mode seq', quick=800, thorough=20000, kinds='.*', chunk=100, tmo=300),
                      dict(h='h_ipc', v='asan', args='--mode race', quick=800, thorough=20000, kinds='.*', chunk=50, tmo=300)],
                rule='each seq case is a history of requests of the executive and of whole, broken and interleaved messages of several agents over a bus that replaces the IPC library, with publish calls that fail, and everything published and told to the executive is compared with a model after each operation; each race case has three sending threads and an answering agent while the executive sends, receives, looks up and aborts; '
                     'distinct_nontrivial counts distinct histories of effects and distinct orders of received commands',
                assumptions=['the IPC library itself is replaced by an in-process bus with its documented behaviour: messages of one agent arrive in order, publishing is complete or fails', 'agents give their messages serial numbers they do not reuse while a message is incomplete'],
                floor={'aborts': 15000, 'arrivals': 350000, 'commands': 35000, 'effects': 350000, 'faults': 6000, 'handles': 3000, 'interleaved': 60000, 'lookups': 20000, 'lookupupdates': 25000, 'malformed': 17000, 'queries': 25000, 'received': 35000, 'returns': 11000, 'raced': 11000, 'racelookups': 9000, 'racequeries': 65000, 'racereturns': 10000, 'racetelemetry': 80000}),
    'C27': dict(jobs=[dict(h='h_uexec', v='asan', args='', quick=1600, thorough=60000, kinds='.*', chunk=40, tmo=400)],
                rule='each case is a command line with its configuration, debug, resource, library and plan files, possibly with one thing missing, malformed, contradictory or failing; the real main program runs on it in a child process and what its adapter, listener, viewer, output and status showed is compared with what was asked for; '
                     'distinct_nontrivial counts distinct combinations of fault, number of files, arguments and commands',
                assumptions=['the default configuration of the build: adapters for time, utilities, launcher and messages, viewer and plan debug listeners, IPC and UDP adapters left out'],
                floor={'debug_clock': 1000, 'debug_transitions': 6000, 'denied': 240, 'granted': 260, 'markers': 3000, 'marks': 2600, 'runs': 1600, 'shadowed': 50, 'viewer_messages': 12000, 'wrong': 300}),
}
