// Interface between the simulated processes ("actors", compiled together with
// the code under test into shared objects) and the simulation core.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
// End of the deterministic setup phase of the calling task.
void sim_ready(void);
// During the setup: between history(1) and history(0) any number of steps, the clock advances when nobody can run.
void sim_history(int on);
// During the setup: every such system call fails (NULL: none).
void sim_failing(const char *what);
// A non-deterministic choice 0..n-1, explored exhaustively.
int sim_choose(int n, const char *what);
// Appends to the calling process's log (what the oracles judge).
void sim_log(const char *what, long a, long b, const char *s);
// Same, but the order among processes is significant to the oracle: it becomes a part of the state.
void sim_event(const char *what, long a, long b, const char *s);
// A violation seen by the actor itself.
void sim_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Simulated time in milliseconds (observed: becomes a part of the history).
long sim_now(void);
// A scheduling point without an effect.
void sim_pause(void);
// Blocks until the process with this index ended or crashed (an oracle-side helper).
void sim_wait_done(int proc);
// Raise / wait for a flag 0..63; once 63 is raised nobody is killed any more (to order programs; the code under test does not see it)
void sim_signal(int n);
void sim_wait(int n);
// Argument i the calling process was started with (NULL: no more)
const char *sim_argv(int i);
// Index of the calling process
int sim_self(void);
// Message queues: number of messages waiting / alive queues (observed)
int sim_queue_len(int msqid);
int sim_in_sim(void);
// Between quiet(1) and quiet(0) accesses to memory are no scheduling points (for looking at tables)
void sim_quiet(int on);
// instrumentation used by shim.c
void sim_mem_read(const void *p, unsigned long n);
void sim_mem_write(void *p, unsigned long n);
void sim_vlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#ifdef __cplusplus
}
#endif
