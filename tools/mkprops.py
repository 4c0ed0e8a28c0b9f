#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the list is edited here).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- messaging
prop("C01", "Every request gets its own reply, exactly once",
 "Whatever the interleaving of clients, servers and queues, a synchronous or asynchronous call returns the reply the service produced for that very request - its data, length, return code and success/failure verdict unchanged - and no reply is lost, delivered twice, or handed to another call or another client. Waiting for any reply returns the descriptor the reply belongs to, and a descriptor is valid from the moment the call is made until its reply is received or it is cancelled.",
 ["schedules", "histories"],
 "all interleavings (up to a preemption bound) of several clients issuing tpacall/tpcall/tpgetrply(cd or TPGETANY) against one or more servers sharing queues, and all operation orders of the client up to a depth",
 "the install tests run one client and one server with a fixed order of calls; out-of-order replies, several outstanding descriptors and concurrent clients on one request queue are never enumerated",
 ["src/client.cpp", "src/server.cpp", "src/resp.h", "src/ipc.cpp"],
 [("call descriptors and out-of-order reply buffering", "src/resp.h, src/client.cpp tpgetrply"), ("reply addressing (queue, mtype=cd)", "src/server.cpp tpreturn")],
 [("pending descriptors", "requests whose reply has not been consumed", "src/resp.h call_describtors")],
 ["tpcall/tpacall/tpgetrply return values and output buffers"])

prop("C02", "Each accepted request runs its service exactly once",
 "Every request the send call accepted is executed by exactly one server offering that service, once, with the request's data, length, service name and flags, and a request whose send call failed is never executed. A request sent without wanting a reply is executed like any other and produces no reply message at all.",
 ["schedules", "histories"],
 "all interleavings of clients with one server, two servers on a shared queue and two servers on separate queues, with and without TPNOREPLY, every combination of service results",
 "tests run a single request at a time, so two servers racing on a shared queue, queued backlogs and no-reply requests mixed with ordinary ones are never exercised",
 ["src/client.cpp", "src/server.cpp", "src/ipc.cpp", "src/svcrepo.h"],
 [("request queue receive and dispatch", "src/server.cpp handle/dispatch"), ("service-to-queue resolution and load balancing", "src/svcrepo.h")],
 None, ["TPSVCINFO seen by service routines", "messages left on queues"])

prop("C03", "A cancelled or abandoned call never disturbs later calls",
 "After a call is cancelled, or after a synchronous call failed with a timeout, its descriptor is invalid and its late reply - whenever it arrives, in whatever order with other replies - is discarded and never returned for another descriptor or as 'any' reply. Cancelling an unknown or already finished descriptor fails with a bad-descriptor error and changes nothing, and descriptors are always eventually reusable so that a client can make an unlimited number of calls.",
 ["schedules", "histories"],
 "all sequences of call / cancel / get-reply operations up to a depth, with every arrival order of the replies",
 "tests cancel one call in one order; the late reply racing with further calls is a matter of schedule",
 ["src/client.cpp", "src/resp.h"],
 [("descriptor allocation and release", "src/resp.h"), ("discarding of unexpected replies", "src/client.cpp tpgetrply")])

prop("C04", "Timeouts fire when due, and only then",
 "A call with a blocking time limit (per call, per thread, or configured) that gets no reply in time fails with a timeout no later than one scan interval of the running supervisor after the limit, and never before the limit; waiting for room in a full request queue and waiting for the reply are limited separately. A reply that was available before the limit is returned rather than a timeout, a call that asked for no time limit never times out, a non-blocking receive never waits, and one call's timeout never causes a later call to fail.",
 ["schedules", "histories"],
 "all interleavings, in simulated time, of clients, a slow server and the supervisor process for every setting of the block-time options and all flag combinations",
 "real-time tests check a few settings with sleeps; the race between the reply, the deadline and the supervisor's wake-up message cannot be sampled reliably",
 ["src/client.cpp", "src/BBL.cpp", "src/mib.cpp"],
 [("deadline registration in the bulletin board", "src/client.cpp tpgetrply"), ("supervisor unblocking of expired waits", "src/BBL.cpp")],
 None, ["tperrno and simulated time at return"])

prop("C05", "Messages arrive intact whatever their size, type and path",
 "A request or reply carries the buffer's type, subtype and exact contents and length to the other side for every buffer type and every size, including empty buffers, buffers just below, at and above the size that switches transport, and no-data calls. When sending fails at any system call the caller gets an error, nothing partial is delivered, and no temporary file is left behind; after a successful receive no temporary file is left either.",
 ["inputs", "fault_sequences"],
 "every payload size across the transport threshold (and around allocation boundaries), every buffer type, and every single failing system call on the send and receive paths",
 "tests send a handful of sizes and never inject failures of write, queue send or queue receive",
 ["src/ipc.cpp", "src/ipc.h", "src/mem.cpp"],
 [("message framing and file transport", "src/ipc.cpp qsend/qrecv"), ("typed buffer set/get", "src/ipc.cpp, src/mem.cpp")])

prop("C06", "Calls reach a service exactly while it is advertised",
 "A call to a service that some running server currently advertises is delivered to such a server, and a call begun after the last server withdrew it (or never advertised it) fails with a no-such-service error, even when the caller used the service before. Advertising the same name with the same routine again succeeds and changes nothing, with a different routine fails as a mismatch, withdrawing an unadvertised name fails as no entry, and a failed call changes nothing. A call that overlaps a withdrawal may see either outcome; servers that share a queue are assumed to offer the same services.",
 ["schedules", "histories"],
 "all sequences of advertise/unadvertise/call operations up to a depth over two services and two servers, and all interleavings of an advertising server with callers",
 "tests advertise and withdraw once in sequence; stale caller caches versus concurrent (re)advertisement need interleavings",
 ["src/server.cpp", "src/svcrepo.h", "src/mib.cpp"],
 [("advertisement table with revision counter", "src/mib.cpp advertise/unadvertise"), ("caller cache invalidation", "src/svcrepo.h")])

prop("C07", "Servers drain, isolate failures and stop cleanly",
 "For every sequence of messages and every outcome of service routines, a server keeps serving: a failing, forgetful or throwing service routine yields an error reply to its own caller and affects no other request. A stop request addressed to one server stops exactly that server, after the requests it accepted were answered, and its shutdown routines run once.",
 ["schedules", "histories"],
 "all interleavings of requests and stop messages for single-threaded and multi-threaded servers, alone and in groups sharing one queue, with every service outcome",
 "tests stop one idle server; stop messages fetched by the wrong server of a shared queue, or racing with requests and several dispatch threads, need interleavings",
 ["src/server.cpp", "src/tmshutdown.cpp"],
 [("dispatch loop and stop handling", "src/server.cpp")])

prop("C08", "Forwarded requests are answered once, to the original caller",
 "When a service forwards a request, the service it names executes once with the forwarded data, and the original caller receives exactly one reply - the one produced at the end of the chain - on its original descriptor; requests that want no reply, or run in a transaction, keep those attributes along the chain. Forwarding to a name nobody offers gives the caller a service error instead of silence.",
 ["schedules", "histories"],
 "all forwarding chains up to a depth over the available services, all interleavings with other callers, with and without transaction and reply",
 "tests forward once, from one service, with an ordinary call",
 ["src/server.cpp"],
 [("tpforward", "src/server.cpp tpforward")])

prop("C09", "A process may die anywhere without wedging the application",
 "If a client or server process is killed at any point, the others keep working: bulletin-board locks are released, entries are never left half-written so that others misread them, dead clients' slots are reclaimed by the supervisor and can be reused, dead servers are detected, and live participants' entries are never touched.",
 ["crash_points", "schedules"],
 "a kill at every shared-memory access or system call of one process, followed by all short schedules of the survivors and the supervisor",
 "no test kills a process inside an update of the shared tables",
 ["src/mib.cpp", "src/mib.h", "src/BBL.cpp"],
 [("semaphore with undo", "src/mib.cpp"), ("supervisor scans", "src/BBL.cpp")])

prop("C10", "Shared tables stay consistent, bounded and free of duplicates",
 "Concurrent processes that attach, register, advertise or look up entries in the bulletin board always see it initialised exactly once from the configuration and fully populated; no two live entities share an entry or identity, lookups by name find exactly what was entered, and counts never exceed the configured capacity - a full table is reported as an error to the caller and leaves everything unchanged.",
 ["schedules", "histories", "configurations"],
 "all operation sequences up to a depth on tables of every small capacity, and all interleavings of two or three processes performing them including the first attach",
 "the unit test makes a few sequential entries in one process",
 ["src/mib.cpp", "src/mib.h", "src/mibtypes.h"],
 [("one-time population handshake", "src/mib.cpp getmib"), ("table layout and bounds", "src/mib.cpp, src/mibtypes.h"), ("data lock", "src/mib.h")])

# ---------------------------------------------------------------- transactions
prop("C11", "A global transaction commits everywhere or nowhere",
 "For every combination of resource-manager answers, every placement of work in one or more groups and every interleaving, all branches of a global transaction end the same way: if the commit call reports success every branch was prepared and then committed, and if any branch refuses to prepare, or the transaction was marked for rollback, no branch is committed and every branch is rolled back. The caller is told which of the two happened, and of outcomes that resource managers decided on their own (mixed, hazard).",
 ["schedules", "fault_sequences", "histories"],
 "all vote/return-code vectors of the resource managers of up to three groups, all work placements, and all orders in which transaction managers answer",
 "tests use a null resource manager that always agrees",
 ["src/tx.cpp", "src/trx.h", "src/server.cpp"],
 [("two-phase commit driver", "src/tx.cpp command/tx_commit"), ("transaction manager service", "src/tx.cpp TM")])

prop("C12", "The transaction API follows the X/Open state rules",
 "For every sequence of demarcation calls (open, close, begin, commit, rollback, set-characteristics, info, suspend, resume; and their XATMI equivalents), each call succeeds or fails exactly as the X/Open TX state table says, a refused call changes nothing, the information call reports the true state and characteristics, and in chained mode a new transaction exists after completion. The resource manager sees only call sequences that the XA specification permits.",
 ["histories", "fault_sequences"],
 "all call sequences up to a depth, with every resource-manager return code at each XA call",
 "tests walk one path through the state table with a resource manager that always succeeds",
 ["src/tx.cpp", "src/trx.cpp"],
 [("state machine", "src/tx.cpp fn/change_state"), ("tp* mapping", "src/trx.cpp")])

prop("C13", "Transaction identities are unique and never leak",
 "Every live global transaction has an identity and a table entry different from every other live one, no matter how many processes begin concurrently, and its textual and binary forms convert into each other without loss. Finishing a transaction (or failing to begin it) frees its entry, so an unbounded number of consecutive transactions can run; when the table is full, beginning one fails with an error and disturbs no running transaction.",
 ["schedules", "histories", "inputs"],
 "all interleavings of concurrent beginners/finishers, all begin/end histories up to a depth on small tables, all branch qualifiers and identifier bytes",
 "the unit test starts transactions sequentially in one process and converts one identifier",
 ["src/trx.h", "src/trx.cpp", "src/tx.cpp"],
 [("transaction table", "src/trx.h transaction_table"), ("identifier generation", "src/trx.cpp")])

prop("C14", "Transaction context follows calls, and failures doom it",
 "A service called inside a caller's transaction works in that transaction, one called outside it (or with the no-transaction option) does not, and leaving the service always ends the association so the server's next request starts clean. A service that fails, breaks its rules or does not answer in time inside a transaction makes the transaction roll back, only the initiator can end it, suspend and resume preserve the association, and a non-transactional failure never harms the caller's transaction.",
 ["histories", "schedules"],
 "all call sequences mixing transactional and non-transactional calls, suspend/resume and service outcomes up to a depth",
 "tests make a single transactional call that succeeds",
 ["src/server.cpp", "src/tx.cpp", "src/trx.cpp", "src/client.cpp"],
 [("join/leave around dispatch", "src/server.cpp"), ("suspend/resume", "src/trx.cpp")])

# ---------------------------------------------------------------- FML32
prop("B01", "Booting starts what is configured, shutting down leaves nothing",
 "Booting starts every configured server that is not running - or, when a group or number is given, every such server - exactly once, in the configured order, as the configured program with its own group and number, and goes on to the next one only when the previous one is available or has ended; servers that are running are left alone. What is reported as started or failed is what happened, and a server that failed or was killed is started by the next boot. Asking only for the plan, or for help, starts nothing. Shutting down stops the servers so that those started earlier are still available to those that stop, every process ends normally, and afterwards (as after the removal of the resources of an application whose processes were all killed) no queue, semaphore or shared memory of the application is left, nobody else's is touched, and the application can be booted again and works. Declining the removal changes nothing.",
 ["schedules", "histories", "crash_points"],
 "all interleavings (to a preemption bound) of tmboot, tmshutdown and tmipcrm with the servers they start and stop and with clients, over histories of boot, failure, kill, shutdown, removal and boot again, for 1-3 servers that work, fail in their initialization, end at once or do not exist",
 "tests boot one application once and shut it down at the end; failures during the boot, repeated boots, kills and the races between the processes that end and the removal of what they use are not exercised",
 ["src/tmboot.cpp", "src/tmshutdown.cpp", "src/tmipcrm.cpp", "src/server.cpp", "src/mib.cpp", "src/client.cpp"],
 [("starting the servers one after the other", "src/tmboot.cpp start"), ("stopping them in reverse order, removing everything", "src/tmshutdown.cpp, src/mib.cpp remove"), ("removal of the resources of a dead application", "src/tmipcrm.cpp"), ("start and end of a server", "src/server.cpp _tmstartserver")],
 [("table of servers", "which configured servers run, with their process and state", "src/mib.h server")],
 ["programs executed and their arguments", "standard output of the tools", "queues, semaphores and segments left", "results of calls"])

prop("A01", "Administrative queries describe the application as it is",
 "A query of the administrative interface - by the library call, through the supervisor's service or by the administration tool's list of queues - for the domain, the machine, the groups, the servers, the services, the services that servers offer, or the queues succeeds and returns exactly one occurrence per existing object, each with the attributes it was configured with or advertised under, however many there are and however small the buffer for the answer was; a service that has been withdrawn is not listed as offered and one that was offered is, whatever was offered and withdrawn before, while other servers come and go and after processes were killed. A query that is not supported fails, and no query changes the application, ends the supervisor or disturbs later queries.",
 ["histories", "schedules", "crash_points"],
 "all histories of advertising and withdrawing by two servers up to a depth before the queries, all schedules (to a preemption bound, at every access to the shared tables) of queries against advertising and withdrawing, kills of a server and of the process that asks at every point, all sequences of unsupported queries",
 "no test calls the administrative interface",
 ["src/tpadmcall.cpp", "src/tmadmin.cpp", "src/BBL.cpp", "src/mib.cpp", "src/ubb2mib.cpp"],
 [("queries", "src/tpadmcall.cpp"), ("the supervisor's service .TMIB", "src/BBL.cpp TMIB"), ("list of queues", "src/tmadmin.cpp do_printqueue")],
 [("bulletin board", "which services are offered by which server under which queue", "src/mib.h")],
 ["contents of the answers", "results of the queries"])

prop("F01", "A fielded buffer behaves as an ordered multimap",
 "For every sequence of add, change, delete, delete-all, get, find, presence, count, length, find-last, find-occurrence and iterate operations, the buffer answers exactly as a map from field to its list of values: types, values and lengths come back unchanged, occurrences keep their order, other fields are untouched, and iteration visits every value once in field order. Absent occurrences and bad arguments are reported with the documented error.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over fields of all eight types, several occurrences and values of several lengths",
 "unit tests apply a few fixed sequences; offsets between type regions break only for particular combinations of types, occurrences and lengths",
 ["src/fbfr32.h", "src/fml32.cpp"],
 [("sorted flat layout with per-type offsets", "src/fbfr32.h chg/erase/shift/where")],
 [("offsets", "start of every type region", "src/fbfr32.h offsets_")])

prop("F02", "Whole-buffer operations equal their definition",
 "Copy, project, project-copy, delete-list, update, join, outer join and concatenate produce exactly the buffer their definition gives for every pair of input buffers and every field list, leave the source unchanged, always terminate, and the equality of checksums follows the equality of contents.",
 ["inputs", "histories"],
 "all pairs of small buffers (several types, 0-3 occurrences each) and all field lists over them",
 "unit tests use one pair of buffers per operation",
 ["src/fbfr32.h"],
 [("iterate-and-mutate loops", "src/fbfr32.h iterate/join/xdelete/proj")])

prop("F03", "Buffers never overflow and failed operations change nothing",
 "With a buffer of any capacity, an operation on one field either has its full effect or fails with a no-space (or other documented) error and leaves the contents as they were, an operation on whole buffers that runs out of space fails and leaves a valid buffer; no operation reads or writes outside the buffer. The reported size, used and unused figures always add up, an operation that fits is never refused, and growing a buffer keeps its contents.",
 ["inputs", "histories"],
 "all operation sequences up to a depth on buffers of every capacity from empty to ample, under address sanitising and guard bytes",
 "tests exercise no-space for two or three cases and do not compare the buffer after a failure",
 ["src/fbfr32.h", "src/fml32.cpp"],
 [("space check before move", "src/fbfr32.h chg")])

prop("F04", "Written and printed buffers read back the same",
 "Any buffer written in binary form and read back, or printed in text form and read back (fields with names, floating point values up to the printed precision), yields an equal buffer, for every field type, every byte value and nesting depth. A truncated or oversized binary form and a malformed text form are rejected with an error and leave the receiving buffer as it was or valid.",
 ["inputs", "crash_points"],
 "all small buffers including every byte value in text fields, all truncation points and every single-character corruption of the text form",
 "tests round-trip two buffers of printable text and never a truncated file",
 ["src/fbfr32.h", "src/extreader.h", "src/basic_parser.h"],
 [("binary form", "src/fbfr32.h read/write"), ("text form", "src/fbfr32.h fprint, src/extreader.h")])

prop("F05", "Field type conversions are faithful and safe",
 "Converting a value between any two field types gives the value C conversion rules give where they define one (numbers to text and back, characters, byte arrays), with the correct resulting length, and storing or fetching with conversion equals converting and then storing or fetching. Nothing outside the given value or the destination is touched, and unsupported conversions are refused.",
 ["inputs"],
 "all type pairs with all boundary values (and every 8/16-bit value), all lengths of byte arrays up to a bound",
 "tests convert a single value per pair",
 ["src/fml32.cpp"],
 [("conversion table", "src/fml32.cpp Ftypcvt32 and CF* functions")])

prop("F06", "Boolean expressions mean what their grammar says",
 "Every expression either compiles or is rejected with an error, and evaluating a compiled expression on any buffer gives the truth value or number defined by the grammar's precedence, associativity, field, occurrence and comparison rules. No expression and no buffer makes compilation, printing or evaluation crash, and printing a compiled expression gives an expression that evaluates the same (numbers up to the printed precision).",
 ["programs", "inputs"],
 "all expressions of the grammar up to a size over integer, float, string and field operands, all short token strings, on all small buffers",
 "tests try a list of expressions; operator precedence, string/number mixtures and malformed input are only sampled",
 ["src/expr.cpp"],
 [("parser and flat tree", "src/expr.cpp"), ("evaluator", "src/expr.cpp")])

prop("F07", "Field names and numbers map one-to-one and stay usable",
 "For every field table, the name lookup of an id and the id lookup of a name are inverse and give type and number exactly as the table (with its base offsets) defines, generated headers agree with them, and type and number packed into an id come back out for all legal values while illegal ones are refused. Lookups from several threads, including the first ones and ones racing with unloading, return correct answers.",
 ["inputs", "schedules"],
 "all small field tables (bases, types, several files and directories), all legal and boundary numbers, and all interleavings of two or three threads looking up and unloading",
 "tests load one table in one thread",
 ["src/fbfr32fld.h", "src/fieldtbl32.h", "src/mkfldhdr32.cpp"],
 [("table parser", "src/fieldtbl32.h"), ("lazy load under a lock", "src/fbfr32fld.h")])

# ---------------------------------------------------------------- typed buffers, misc
prop("M01", "Typed buffers keep their type and contents",
 "Allocation, reallocation, type query and free work for every type, size and order of operations: a buffer reports the type and subtype it was allocated with and a size at least the requested one, reallocation preserves the contents up to the smaller size, and bad types, pointers and sizes are refused with an error. No operation disturbs another live buffer.",
 ["histories", "inputs"],
 "all sequences of allocate/reallocate/free/query up to a depth over all buffer types and a range of sizes",
 "tests allocate and reallocate a few buffers once each",
 ["src/mem.cpp"],
 [("buffer header and type switch", "src/mem.cpp")])

prop("M02", "Exported buffers import back identical",
 "Exporting any typed buffer in binary or text-safe form and importing it - into a fresh buffer or an existing one of any size or type - yields a buffer of the same type and contents, the text-safe form contains only printable characters, and encode/decode are inverse on every byte string. Output space that is too small and malformed, truncated or unknown-type input is refused with an error without writing out of bounds.",
 ["inputs"],
 "all buffer types with all lengths up to a bound, all small byte strings, every truncation and single-byte corruption of the exported forms, every output capacity",
 "tests export and import one buffer per type; encoding tests use a few strings",
 ["src/mem.cpp", "src/base64.cpp"],
 [("export/import", "src/mem.cpp tpexport/tpimport"), ("codec", "src/base64.cpp")])

prop("M03", "Configuration files load as written, or are refused whole",
 "Every well-formed configuration compiles to a binary configuration that, once loaded, yields exactly the configured machines, groups, servers, services and limits, and unloading gives a text that loads to the same configuration. A malformed configuration (lines or sections that can not be understood, missing, non-numeric or out-of-range values, unknown groups, groups or servers defined twice, more servers, queues or groups than the limits) is refused with an error and does not replace the existing binary configuration, a syntax-check-only run never writes and comes to the same verdict, a load that is interrupted or whose system calls fail leaves the old or the new configuration whole, and a truncated binary file is refused.",
 ["inputs", "crash_points", "configurations"],
 "all configurations in a small grammar (sections, numeric limits, server ranges, quoting, comments), each line damaged or removed, every truncation point of the binary file",
 "tests load one or two valid configurations",
 ["src/ubbreader.h", "src/ubb2mib.cpp", "src/tmloadcf.cpp", "src/tmunloadcf.cpp", "src/ubb.h"],
 [("configuration parser", "src/ubbreader.h"), ("bulletin board population", "src/ubb2mib.cpp")])

prop("M04", "Every log call adds one whole line",
 "Every call to the user log appends exactly one complete line with its prefix and full formatted text, for every message length and content, and lines from processes or threads logging at the same time are neither mixed nor lost. The caller's error code (errno) is preserved, and nothing outside the log's own memory is touched.",
 ["inputs", "schedules"],
 "all message lengths across the internal buffer boundary, and all interleavings of two or three concurrent loggers",
 "tests log short lines from one thread and do not read them back",
 ["src/userlog.cpp"],
 [("line assembly and single append write", "src/userlog.cpp")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
