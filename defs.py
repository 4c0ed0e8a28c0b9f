# One function per property: builds the checkers it needs and runs them.
import os
from check import build, build_sim, Outcome, HERE, REPO, TIER

TH = TIER == "thorough"
CHECKS = {}
SETUP = []


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def fml_bin(src, name=None, **kw):
    name = name or src
    return build(name, ["checks/%s.cpp" % src], "asan", **kw)


def dist_bin():
    return build_sim("dist", ["checks/dist_main.cpp", "checks/dist_msg.cpp", "checks/dist_c05.cpp", "checks/dist_c04.cpp",
                               "checks/dist_c10.cpp", "checks/dist_c09.cpp", "checks/dist_trx.cpp", "checks/dist_f07.cpp", "checks/dist_b01.cpp", "checks/dist_a01.cpp"], {
        "app": (["checks/dist_actors.cpp", "checks/dist_sizes.cpp", "checks/dist_mib.cpp", "checks/dist_time.cpp", "checks/dist_tables.cpp", "checks/dist_crash.cpp", "checks/dist_tx.cpp", "checks/dist_fld.cpp", "checks/dist_boot.cpp", "checks/dist_admin.cpp"],
                [("src/tmloadcf.cpp", "tmloadcf_main"), ("src/tmshutdown.cpp", "tmshutdown_main"),
                 ("src/tmboot.cpp", "tmboot_main", "-Dfork=vfork"), ("src/tmipcrm.cpp", "tmipcrm_main"), ("src/tmadmin.cpp", "tmadmin_main"),
                 ("src/BBL.cpp", "bbl_main", "-Dtpsvrinit=bbl_tpsvrinit")]),
    })


def dist(o, sets, note):
    b = dist_bin()
    for s in sets:
        o.run("schedules " + s, [b[0], s] + b[1:], note=note)


@check("F01")
def f01(o):
    o.run("single-buffer operations, closed state space", [fml_bin("fml_ops"), "ops"],
          note="all reachable buffers over 1-8 fields of all 8 types, <=2-4 occurrences, 2-4 values per type; "
               "every operation from every state, every query in every new state")
    o.run("large buffers", [fml_bin("fml_large"), "ops"],
          note="1-4097 occurrences, 1-1025 fields, values to 1 MB (all lengths around powers of two), built in four orders; "
               "every kind of operation at every edge and power-of-two position from each")


@check("F03")
def f03(o):
    o.run("capacity-limited operations, closed state space", [fml_bin("fml_ops"), "cap"],
          note="every capacity in steps of 1-8 bytes from below the minimum; all pairs of types")
    o.run("large buffers", [fml_bin("fml_large"), "cap"],
          note="the states of F01's large buffers; every size-changing operation in exactly enough room, in less, and after growing")


@check("F02")
def f02(o):
    o.run("pairs of buffers x whole-buffer operations", [fml_bin("fml_pairs")],
          note="all pairs of buffers over 2-7 fields with <=1-4 occurrences; all field lists up to 3 ids; "
               "ample, exact and 8-bytes-short destinations")
    o.run("large buffers", [fml_bin("fml_large"), "pairs"],
          note="pairs with 0-257 occurrences, 8-257 fields (four overlaps, three id spreads), values to 1 MB; lists of up to 700 ids in three orders")


SETUP.append(lambda: fml_bin("fml_ops"))


@check("F04")
def f04(o):
    o.run("binary and text forms", [fml_bin("fml_io")],
          note="all buffers over three named fields with <=2-3 occurrences incl. nesting to depth 4; all byte values; "
               "all truncations; all one- (and for some texts two-) character corruptions")
    o.run("large buffers", [fml_bin("fml_large"), "io"],
          note="1-4097 occurrences, up to 1023 named fields, values to 1 MB of every byte value, in exact, ample and short rooms")


@check("F06")
def f06(o):
    o.run("all expressions of bounded universes", [fml_bin("fml_expr")],
          note="all token strings to 4 (5) tokens, all character strings to 5 (6) characters over the syntax alphabet, all chains of "
               "1-4 binary operators over representative operands, on 3 buffers, each also printed and recompiled")


@check("F05")
def f05(o):
    o.run("all type pairs", [fml_bin("fml_cvt")],
          note="complete 8/16-bit domains, powers of two +-3, all byte arrays to length 2, digit strings to 3000; "
               "every converting operation on 0-2 occurrences against convert-then-operate")


@check("B01")
def b01(o):
    dist(o, ["B01"], "histories of the real tmboot, tmshutdown, tmipcrm, BBL and 1-3 servers that work, fail, end at once, do not exist or are killed, "
         "with clients; the processes they start are simulated ones; every schedule with 1-2 (2-3) preemptions")


@check("A01")
def a01(o):
    dist(o, ["A01"], "all histories of 4 (5) changes by two servers, then every query in the calling process, with little room, and through BBL; all sequences of 3 (4) "
         "unsupported queries; queries in every schedule with 1-2 (3) preemptions at every access to the shared tables against withdrawing and offering; a "
         "server or who asks is killed at every point; tmadmin")


@check("F07")
def f07(o):
    o.run("field tables and headers", [build("fml_tables", ["checks/fml_tables.cpp", "checks/main_mkfldhdr32.cpp"],
                                             "asan", inc_repo_srcs=True)],
          note="all tables of up to 4 (5) lines over 12 line kinds, all placements of 2 files in 3 directories, "
               "all load/unload/lookup histories of length 4, all id numbers near every power of two")
    dist(o, ["F07"], "2-3 threads, every pair (triple) of 7 operations (look up known and unknown names and ids, unload names, unload ids) from tables "
         "not loaded, loaded, half loaded and unloaded, 2 threads with 2 operations each; at every access to memory that threads share with 1-2 (2-3) "
         "preemptions; data race detection; then all lookups again")


@check("M01")
def m01(o):
    o.run("allocation histories", [fml_bin("membuf"), "hist"],
          note="all sequences of 5 (6) allocate/reallocate/free/fill operations on two buffers of 4 types; every size to 1300")


@check("M02")
def m02(o):
    o.run("exported forms and codec", [fml_bin("membuf"), "xport"],
          note="every length to 700 (2000), every output capacity, every truncation and 9 corruptions of every byte of small "
               "images; all byte strings to length 2 (3); all encoded strings to 6 (8) characters over 10 symbols")


SETUP.append(lambda: dist_bin())


@check("C01")
def c01(o):
    dist(o, ["C01"], "every schedule of 1-2 clients and 1-2 servers (own queues and a shared queue); every client program of 5-7 operations "
         "(call, send, receive this, receive any) over a succeeding and a failing service")


@check("C02")
def c02(o):
    dist(o, ["C02"], "every schedule of 1-2 clients and 1-2 servers; every client program of 4-6 operations with and without replies, "
         "to existing and unknown services; a service calling a service")


@check("C03")
def c03(o):
    dist(o, ["C03"], "every schedule of 1-2 clients and 1-2 servers; every client program of 5-10 operations that sends, receives, cancels "
         "live, finished and unknown descriptors")


@check("C04")
def c04(o):
    dist(o, ["C04"], "calls with limits of 0.1-15 s set per call, per thread and configured, replies before, at and after the limit, at 10 (20) phases "
         "of the supervisor's scans; all programs of 4-5 (5-6) limited, unlimited, asynchronous and non-blocking operations; full request "
         "queues; two clients; clients that end; every bulletin board access with 2 (3) preemptions; clock advancing while processes run")


@check("C05")
def c05(o):
    dist(o, ["C05"], "requests, replies and forwarded requests of every size 0-70, around powers of two, 3780-4110, 8-131 kB in every buffer "
         "type and into every type of reply buffer; all sequences of 3 calls over 6 kinds of buffers; full queues; each single system call "
         "failing (thorough: two) on the send and receive paths of callers and services")


@check("C06")
def c06(o):
    dist(o, ["C06"], "every sequence of 5-6 operations advertise/withdraw/advertise other routine/call on 1-2 servers; every schedule of two "
         "clients doing this; servers that stop; two dispatch threads with up to 2-3 preemptions and data race detection")


@check("C07")
def c07(o):
    dist(o, ["C07"], "every sequence of 3-4 service outcomes (success, failure, exit, bad code, no reply, exception, bad flags, no data); every "
         "schedule of stop requests (the real tmshutdown) and calls for 1-2 servers and 2 dispatch threads, with data race detection")


@check("C08")
def c08(o):
    dist(o, ["C08"], "every schedule of 1-2 clients sending synchronous, asynchronous and no-reply requests through chains of 1-2 forwards, "
         "to failing and unknown services, 3 servers")


@check("C10")
def c10(o):
    o.run("operation sequences on small tables", [build("mib_ops", ["checks/mib_ops.cpp"], "asan", inc_repo_srcs=True)],
          note="all sequences of 5 (6) of 32 table operations on tables of 5 capacities, compared with reference tables")
    dist(o, ["C10"], "2-3 processes attaching to a bulletin board that does not exist (every schedule of system calls; every access with 1-2 (2-3) "
         "preemptions), 2-3 clients joining and leaving 1-2 entries, 2-3 servers starting together on own and shared queues, tables too small "
         "for their services, then a look at all tables and a call of every service")

@check("C09")
def c09(o):
    dist(o, ["C09"], "one kill at every system call / shared memory access of a client, a server (running, advertising, starting, alone or one of two "
         "on a queue), the supervisor, tmshutdown, or one of 2-3 processes that attach; then the process is started again, survivors call, "
         "newcomers join, and tables, locks, queues and results are compared with who is alive")


@check("C12")
def c12(o):
    dist(o, ["C12"], "every sequence of 4 (5) of 22 calls from four states, of 6-7 (7-9) demarcation calls, by servers and by clients without a resource "
         "manager; the same with one or two unusual answers of the resource manager at any of its calls; the same with services that succeed or fail in "
         "the transactions")


@check("C11")
def c11(o):
    dist(o, ["C11"], "work in 1-3 groups by a client or a server, every vector of answers to prepare, commit, rollback, start, join and end, every order in "
         "which servers and transaction managers work, failing services, missing transaction managers, work twice in a group, services at the same "
         "time, two clients")


@check("C13")
def c13(o):
    o.run("identifiers and tables", [build("xid_text", ["checks/xid_text.cpp"], "asan", inc_repo_srcs=True)],
          note="every length of identifier and qualifier x patterns, every value of every byte, format numbers at every boundary, converted to text "
               "and back; every damaged text of one or two characters; every sequence of 6-9 operations on tables of 1-3 entries")
    dist(o, ["C13"], "250 transactions one after another; every schedule of 2-3 clients (and a service) that begin and end 1-3 transactions, at system "
         "calls and at every shared memory access with 2-3 (3-4) preemptions; the table filled to its last entry while another client works; "
         "transactions that fail to begin; then the table has to be empty")


@check("C14")
def c14(o):
    dist(o, ["C14"], "every program of 1-6 calls of 15 kinds of services (that work, fail, return errors, are stopped, call others in and outside of the "
         "transaction, forward, try to end the transaction), synchronous and asynchronous, transactional and not, with begin, end, suspend and "
         "resume between them; time-outs; services that leave calls without replies; two clients")


@check("M04")
def m04(o):
    o.run("lines of one logger", [build("ulog_seq", ["checks/ulog_seq.cpp"], "asan")],
          note="every message length to 20 kB (140 kB) and around powers of two to 4 MB, every length of program name and file prefix, every "
               "character, every history of 4 (5) of 9 operations (lines of 3 lengths, settings, removal of the log, the next day)")
    o.run("schedules of loggers", [build("ulog_sched", ["checks/ulog_sched.cpp"], "tsan", harness_variant="clang")],
          note="every interleaving of system calls of 2-3 processes that log 1-2 lines of 20-40000 bytes; every interleaving of system calls and "
               "memory accesses of 2-3 threads with up to 2 (3) preemptions; real processes scheduled with ptrace")


@check("M03")
def m03(o):
    o.run("configurations", [build("config", ["checks/config.cpp", "checks/main_tmloadcf.cpp", "checks/main_tmunloadcf.cpp"], "asan", inc_repo_srcs=True, link=("-Wl,--wrap=calloc",))],
          note="every pair (and some triples) of ~345 deviations from a base configuration: layout, quoting, comments, every limit below, at and above its "
               "range, texts that are no numbers, lengths, groups, servers and queues; a line that can not be understood before every line; lines removed, "
               "doubled and exchanged; every damage of one character; every truncation of the binary file; a crash, a failing and a short call at every "
               "system call of tmloadcf")
