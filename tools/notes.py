SEQ = "explicit-state model checking of the real code: "
NOTES = {
"F01": (SEQ + "breadth-first closure of all reachable buffer states, each transition compared with a reference multimap",
        "Exhaustive within the stated field/occurrence/value bounds; values outside the alphabet are covered only by data independence. Trusts the reference model and AddressSanitizer."),
"F02": (SEQ + "exhaustive enumeration of all pairs of buffers and field lists within bounds, each result compared with the operation's definition",
        "Exhaustive within <=3 fields of each type combination and <=4 occurrences; trusts the reference definitions."),
"F03": (SEQ + "closure of all reachable states of capacity-limited buffers under AddressSanitizer",
        "Exhaustive for the stated capacities and pairs of types; 'fits' is judged against the same operation on an ample buffer."),
"F04": (SEQ + "exhaustive enumeration of buffers, byte values, truncations and one-character corruptions through the writing and reading functions",
        "Exhaustive within the stated buffer universe; text round trip judged for fields with names and floating point values up to the printed precision."),
"F05": (SEQ + "exhaustive enumeration of type pairs over complete small domains and boundary sets, compared with independently computed C conversions",
        "Conversions C leaves undefined (out-of-range floating point to integer) are executed only for memory safety."),
"F06": (SEQ + "exhaustive enumeration of all token and character strings up to a length, compared with an independent recursive-descent evaluator",
        "Exhaustive up to the stated lengths; deep recursion beyond them is not explored."),
"F07": (SEQ + "exhaustive enumeration of small field tables, directory layouts and load/unload/lookup histories against a reference table; and stateless model checking of threads that look up, load and unload, in every schedule within a preemption bound, with data race detection",
        "Exhaustive within the bounds and preemptions; pointers to names are not used after another thread unloaded them (the interface does not allow it)."),
"M01": (SEQ + "exhaustive enumeration of allocation histories compared with a reference heap",
        "Exhaustive to the stated depth over the stated types and sizes; trusts AddressSanitizer for bounds."),
"M02": (SEQ + "exhaustive enumeration of lengths, output capacities, truncations and corruptions through export and import",
        "Corruptions of the content part of FML32 images that still form a valid buffer are not judged."),
"C01": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; every client result compared with the function of the request that the service computes",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
"C02": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; executions seen by the services matched one to one with accepted sends",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
"C03": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; results compared with a reference descriptor table; late replies must vanish",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
"C04": ("stateless model checking of the real code: every schedule of the compiled library's processes, the real supervisor among them, under a simulated kernel with simulated time; when each call returned and with what compared with its limit and the time of its reply",
        "Exhaustive within the stated programs, limits and phases. Processes take no time to compute except where the clock may advance while they run (1-2 times); trusts the simulated kernel and clock."),
"C05": ('stateless model checking of the real code: exhaustive enumeration of message sizes, types, sequences and of every failing system call, under a simulated kernel; what the receiver got compared with what was sent',
        'Exhaustive for the listed sizes and kinds; contents follow one pattern per message. Trusts the simulated kernel.'),
"C06": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; results compared with the intervals during which some server advertised the service",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
"C07": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; every outcome of a service and every placement of stop requests, results and shutdown routines compared with what was sent",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
"C08": ("stateless model checking of the real code: every schedule of the compiled library's processes under a simulated kernel (System V IPC, files, clock, threads), with state matching on observation histories; executions and replies of forwarding chains compared with the chain of the request",
        'Exhaustive within the stated programs and process counts. Scheduling points are kernel calls and locks (data accesses too where races are checked); trusts the simulated kernel, whose messages, semaphores and shared memory follow System V semantics.'),
}
NOTES["C10"] = ("stateless model checking of the real code: every schedule of processes attaching, joining and starting under a simulated kernel, at system call and at memory access granularity; tables compared with the configuration and with who is alive; plus explicit-state enumeration of all operation sequences on small tables against reference tables",
        "Exhaustive within the stated process counts; at memory access granularity up to 1-3 preemptions. Sequential consistency is assumed for shared memory; trusts the simulated kernel.")
NOTES["C09"] = ("stateless model checking of the real code: a kill of one process (thorough: two) at every system call, or at every access to shared memory, in every explored schedule under a simulated kernel; the survivors' results, the tables, the locks and the queues afterwards compared with who is alive",
        "Exhaustive within the stated process counts and preemptions; one kill per execution (two in the thorough tier for one scenario). Kills within the kernel are not modelled (a system call happens or not); a queue that a process created without having recorded it yet may stay behind.")
NOTES["C11"] = ("stateless model checking of the real code: every schedule of clients, servers and transaction managers under a simulated kernel, times every vector of answers of a resource manager that keeps its own record of branches and decisions; what was committed and rolled back compared with what the caller was told",
        "Exhaustive within the stated groups, answers and programs. The resource manager is a model of the XA rules in the checker; crashes of processes in the middle of a commit are not explored (there is no transaction log to recover from).")
NOTES["C12"] = ("stateless model checking of the real code: exhaustive enumeration of all sequences of calls to a depth, and of the answers of the resource manager, each step compared with a reference implementation of the X/Open state table; every XA call checked against the XA rules",
        "Exhaustive to the stated depths. Where the X/Open specification lets the implementation choose (which heuristic outcome is reported, tx_close while suspended) any permitted result is accepted.")
NOTES["C13"] = ("stateless model checking of the real code: every schedule of processes that begin and end transactions, at system call and at memory access granularity; plus explicit-state enumeration of identifiers, damaged texts and table operations against a reference",
        "Exhaustive within the stated process counts and preemptions. What a damaged text means is judged only for memory safety and for being accepted consistently.")
NOTES["C14"] = ("stateless model checking of the real code: every program of service calls, outcomes and suspensions to a depth in every schedule of the processes, compared with a reference of which branch each piece of work belongs to and how it must end",
        "Exhaustive within the stated programs. Suspending with outstanding replies and tx_close while suspended are not judged; one dispatch thread per server.")
NOTES["B01"] = ("stateless model checking of the real tmboot, tmshutdown, tmipcrm, BBL, server and client code in simulated processes (fork, exec, wait, kill and System V IPC simulated): every schedule within a preemption bound and every kill of one server while it boots, over histories of boot, failure, kill, shutdown, removal and boot again",
        "Exhaustive within 1-2 preemptions (2-3 thorough), up to 3 servers besides the supervisor. Two tmboots at the same time are not explored. exec replaces the process by one of the scenario's programs, so the search of the PATH and the redirection of standard streams are not covered.")
NOTES["A01"] = ("stateless model checking of the real tpadmcall, tmadmin, BBL and servers in simulated processes: all histories of advertising and withdrawing up to a depth, every schedule within a preemption bound (at every access to the shared tables) and every kill of one process, each answer compared with a reference model of the application",
        "Exhaustive within 4 (5) changes, 1-2 (3) preemptions, 1 kill. Only GET is covered: the SET of T_SERVER is a fragment (nothing uses it) and not claimed. Attributes that the library keeps constant (load of queues, statistics) are not judged.")
NOTES["M04"] = ("stateless model checking of the real code: every schedule of the system calls of real logging processes (ptrace), and of the system calls and memory accesses of logging threads to a preemption bound, the log read back and compared; plus exhaustive enumeration of lengths, contents, settings and histories under AddressSanitizer",
        "Exhaustive within the stated numbers of loggers, lines and lengths. Failing writes (full disk) are not judged; appending to a local file with one write is taken to be atomic, as Linux does.")
NOTES["M03"] = ("exhaustive enumeration of the real tools (tmloadcf, tmunloadcf and the code every process uses to load the configuration): every pair of deviations from a configuration, every damage of one character, every truncation, and every crash, failing and short system call of tmloadcf, against an independent reference",
        "Exhaustive within the stated grammar. Values whose treatment is not documented (over-long texts, parameters given twice, empty or signed numbers) may be refused or accepted, but consistently. Damaged texts are judged for consistency between check, load, use and unload only.")
NA = {}
