/* Explicit-state model checker for real C/C++ code: see DESIGN.md.
 * The program under test and its harness run in coroutines; every source of
 * nondeterminism is a choice point at which the whole program state is
 * snapshotted, hashed and, if new, explored with every alternative. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- choices and verdicts ---- */
/** Nondeterministic choice in 0..n-1. @label must be a static string. */
int mc_choose(int n, const char * label);
/** Report a violation of the property and stop. */
__attribute__((noreturn, format(printf, 1, 2)))
void mc_fail(const char * fmt, ...);
#define mc_assert(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/** Abandon the current path (not an error, not counted as execution). */
__attribute__((noreturn)) void mc_prune(void);
/** End the current path as a complete execution. */
__attribute__((noreturn)) void mc_end(void);
/** Remark, only shown on replay. */
__attribute__((format(printf, 1, 2)))
void mc_note(const char * fmt, ...);
/** Record an observed outcome (distinct ones are counted). */
void mc_outcome(const char * kind, uint64_t value);
/** Count one input evaluated inside a path, nontrivial by the harness' rule. */
void mc_eval(bool nontrivial);
/** Write out a sample of an evaluated input (only the first few are kept) */
__attribute__((format(printf, 1, 2)))
void mc_sample(const char * fmt, ...);
/** A known finding (listed in known_findings.txt) was reproduced here. */
void mc_known(const char * key);
/** true if @key is listed as known finding of this property */
bool mc_is_known(const char * key);
/** Harness parameters from the command line: key=value */
long mc_param(const char * key, long def);
const char * mc_param_str(const char * key, const char * def);
/** verbose replay? */
bool mc_verbose(void);
/** prevents pruning by state hash (for stateless exploration) */
void mc_set_stateless(bool on);
/** memory region that does not count as state (not hashed, but restored) */
void mc_ignore(void * p, size_t len);
/** To be provided by the harness: body of the initial thread */
void mc_harness(void);

/* ---- memory ---- */
void * mc_malloc(size_t n);
void * mc_calloc(size_t n, size_t m);
void * mc_realloc(void * p, size_t n);
void mc_free(void * p);
char * mc_strdup(const char * s);
/** number of live blocks / bytes in the arena */
unsigned mc_heap_blocks(void);
size_t mc_heap_bytes(void);
/** allocation failures still to be injected (each is a choice) */
extern int mc_malloc_budget;
/** total number of allocations that were failed */
extern unsigned mc_malloc_failed;
/** is the address inside a live block? */
bool mc_heap_valid(const void * p);
/** start of the live block containing p, or NULL */
const void * mc_heap_base(const void * p);

/* ---- threads ---- */
enum { MC_MAX_THREADS = 10 };
/** remaining preemptions, -1: unlimited */
extern int mc_preempt_budget;
/** timeouts may fire any time (true) or only if nothing else can run */
extern bool mc_timeouts_eager;
/** also schedule after unlock */
extern bool mc_sched_on_unlock;
/** may timed waits expire at all */
extern bool mc_timeouts_on;
/** called if no thread can run; default: deadlock violation. Return to end the path. */
extern void (*mc_on_deadlock)(void);
/** Start a harness thread */
int mc_thread(void (*fn)(void *), void * arg, const char * name);
/** Scheduling point */
void mc_sched(const char * what);
/** Block until pred(arg); if cancelable, also a cancellation point. */
void mc_block(bool (*pred)(void *), void * arg, bool cancelable, const char * what);
/** like mc_block, but can time out. @return false on timeout */
bool mc_block_timed(bool (*pred)(void *), void * arg, bool cancelable, const char * what);
/** Cancellation point */
void mc_testcancel(void);
/** Current thread, number of live threads */
int mc_self(void);
int mc_live_threads(void);
bool mc_thread_done(int t);
/** is thread t blocked in a wait of that name (see mc_block), NULL: any */
const char * mc_thread_wait(int t);
bool mc_thread_enabled(int t);
/** like mc_thread_enabled, but neither timeouts nor spurious wakeups count */
bool mc_thread_ready(int t);
/** number of timeouts that may still fire early (with mc_timeouts_eager), -1: unlimited */
extern int mc_timeout_budget;
void mc_cancel(int t);
/** all other threads vanish, as in the child after fork() */
void mc_kill_others(void);
/** The process ends (called by the initial thread): all other threads vanish, the
 * heap is released and the program's global variables get their initial
 * values again (jobs with restart=True), as in a new process. */
void mc_process_end(void);
/** thread switches are no choices: the next enabled thread runs */
extern bool mc_fixed_schedule;
/** number of mutexes held by a thread */
int mc_locks_held(int t);
bool mc_cancel_pending(int t);
/** suppress scheduling while > 0 */
extern int mc_atomic;
struct mc_cleanup_;
void mc_cleanup_push_(struct mc_cleanup_ * c);
void mc_cleanup_pop_(struct mc_cleanup_ * c, int execute);
/** spurious wakeups of condition variables still to be injected */
extern int mc_spurious_budget;
/** further thread creations that may fail */
extern int mc_thread_budget;
/** number of cleanup handlers installed by the current thread */
int mc_cleanup_depth(void);

/* ---- time ---- */
extern int64_t mc_time_s;
extern int64_t mc_time_ns;
/** called for sleep()/usleep() in us; default: cancelable timed block */
extern void (*mc_on_sleep)(uint64_t us);

/* ---- process ---- */
/** called if the code under test wants to terminate the process
 * (abort, exit, EMERG log message). Default: violation. Must not return. */
extern void (*mc_on_abort)(const char * why);
/** called upon each log message, may be NULL */
extern void (*mc_on_log)(int level, const char * prefix, const char * msg);

/* ---- data races (only with tsan.c) ---- */
extern bool mc_race_on;
/** in code compiled with -fsanitize=thread: each access to memory outside the stacks is a point to switch threads */
extern bool mc_access_on;
void mc_mem_access(const void * p, size_t n, bool write, const void * pc);

uint64_t mc_hash(const void * p, size_t n, uint64_t seed);
#ifdef __cplusplus
}
#endif
#endif
