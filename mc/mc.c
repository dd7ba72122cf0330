/* Explicit-state model checker for real code, see mc.h and DESIGN.md.
 * Compiled without sanitizers; everything in this file that is an ordinary
 * global variable is part of the explored state, the checker's own data lives
 * in the mapping E. */
#define _GNU_SOURCE
#include "mc.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
struct mc_cleanup_ { void (*fn)(void *); void * arg; struct mc_cleanup_ * next; };

extern void __asan_poison_memory_region(void const volatile *, size_t);
extern void __asan_unpoison_memory_region(void const volatile *, size_t);
extern void __asan_set_error_report_callback(void (*)(const char *));
extern char __data_start[], _end[];

const char * __asan_default_options(void);
const char * __asan_default_options(void)
{
	return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:"
		"handle_sigbus=0:handle_sigill=0:detect_stack_use_after_return=0:"
		"use_sigaltstack=0:check_initialization_order=0:allocator_may_return_null=1:"
		"replace_intrin=1:print_summary=0:detect_odr_violation=0:strict_string_checks=0";
}
/* ASAN does not know our stacks; dead frames are unpoisoned elsewhere */
void __asan_handle_no_return(void);
void __asan_handle_no_return(void) {}

#define SHADOW(p) ((char *)(((uintptr_t)(p) >> 3) + 0x7fff8000UL))

/* ---- fixed address layout ---- */
#define ARENA_BASE ((char *)0x200000000000UL)
#define ARENA_SIZE (64UL << 20)
#define STACK_BASE ((char *)0x210000000000UL)
#define STACK_SIZE (256UL << 10)
#define STACK_STRIDE (STACK_SIZE + 65536UL)
#define ENGINE_BASE ((char *)0x220000000000UL)
#define DEAD_ZERO 6144UL
#define N_STACK (MC_MAX_THREADS)

struct Snapshot {
	size_t n_total;
	char data[];
};

struct Frame {
	int n, next;
	const char * label;
	struct Snapshot * snap;
	uint64_t obs;
	int cur;
	uint32_t run;
};

struct Trace {
	size_t len;
	uint16_t * ch;
	uint64_t obs;
};

enum { MAX_SNAP_KB = 5 << 19, MAX_DEPTH = 1 << 20, N_TRACES = 24, MAX_OUT = 4096, N_SAMPLE = 6,
	N_LABEL = 256 };

struct Engine {
	/* request from coroutine */
	int req; int req_n; const char * req_label; int req_res;
	void * engine_sp;
	int cur_out;
	/* exploration */
	struct Frame * st; size_t depth; size_t maxdepth;
	uint64_t * vis; size_t vis_n, vis_cap;
	uint64_t states, transitions, executions, pruned, evals, evals_nt, revisits;
	uint64_t obs;
	bool stateless, stop, capped;
	double t0; double max_s; uint64_t max_states;
	uint64_t progress; uint64_t last_progress; int stuck;
	uint32_t run;
	/* replay */
	bool replay, verbose; uint16_t * rep; size_t rep_n, rep_i;
	/* reporting */
	char * out_path; char * replay_path;
	char msg[8192];
	char report[16384];
	struct Trace tr[N_TRACES]; size_t n_tr;
	uint64_t outc[MAX_OUT]; const char * outk[MAX_OUT]; size_t n_out; uint64_t out_over;
	char samples[N_SAMPLE][600]; size_t n_sample;
	const char * lab[N_LABEL]; uint64_t lab_cnt[N_LABEL]; size_t n_lab;
	char known[16][128]; bool known_hit[16]; size_t n_known;
	int argc; char ** argv;
	struct { char * p; size_t len; } ign[8]; size_t n_ign;
	size_t snap_bytes;
	uint16_t * path_tmp;
	char * pdata, * pbss;
};
#define E ((struct Engine *)ENGINE_BASE)
enum { REQ_CHOOSE = 1, REQ_END, REQ_PRUNE };

/* ---- snapshotted engine state ---- */
enum TState { T_FREE, T_RUN, T_BLOCKED, T_DONE, T_JOINED };
struct Thread {
	void * sp;
	enum TState st;
	int saved_errno;
	void (*fn)(void *);
	void * arg;
	const char * name;
	void * (*pfn)(void *);
	void * retval;
	bool (*pred)(void *);
	void * parg;
	bool cancelable, timed, is_cond;
	const char * wait;
	bool cancel_pending, cancel_disabled, cancelling;
	bool detached;
	struct mc_cleanup_ * cleanup;
	int cleanup_n;
	int locks;
	unsigned gen;
	void * cond; bool signaled;
};
static struct Thread T[MC_MAX_THREADS];
static int cur;
static int nthreads;
static size_t arena_top;
int mc_malloc_budget, mc_preempt_budget = -1, mc_atomic, mc_spurious_budget;
int mc_thread_budget, mc_timeout_budget = -1;
unsigned mc_malloc_failed;
bool mc_access_on, mc_timeouts_eager, mc_sched_on_unlock, mc_timeouts_on = true, mc_fixed_schedule;
int64_t mc_time_s = 1500000000, mc_time_ns;
void (*mc_on_deadlock)(void);
void (*mc_on_sleep)(uint64_t us);
void (*mc_on_abort)(const char * why);
void (*mc_on_log)(int level, const char * prefix, const char * msg);
static uint64_t mc_rand_state;

/* race detection, only linked in if wanted (tsan.c) */
__attribute__((weak)) void mc_hb_release(const void * o) { (void)o; }
__attribute__((weak)) void mc_hb_acquire(const void * o) { (void)o; }
__attribute__((weak)) void mc_hb_create(int t) { (void)t; }
__attribute__((weak)) void mc_hb_join(int t) { (void)t; }
__attribute__((weak)) void mc_mem_access(const void * p, size_t n, bool w, const void * pc) { (void)p; (void)n; (void)w; (void)pc; }
__attribute__((weak)) void mc_race_forget(const void * p, size_t n) { (void)p; (void)n; }

/* ---- low level ---- */
static inline void cpy(void * d, const void * s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
}
static inline void zero(void * d, size_t n)
{
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory");
}
static inline void fill(void * d, int v, size_t n)
{
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
void mc_switch_(void ** save, void * to);
__asm__(".text\n.globl mc_switch_\nmc_switch_:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static inline uint64_t rd64(const char * p) { uint64_t v; __builtin_memcpy(&v, p, 8); return v; }
static inline uint64_t mum(uint64_t a, uint64_t b)
{
	unsigned __int128 r = (unsigned __int128)a * b;
	return (uint64_t)r ^ (uint64_t)(r >> 64);
}
struct H { uint64_t a, b; };
static void hash_add(struct H * h, const char * p, size_t n)
{
	static const uint64_t K0 = 0xa0761d6478bd642fULL, K1 = 0xe7037ed1a0b428dbULL,
		K2 = 0x8ebc6af09c88c6e3ULL, K3 = 0x589965cc75374cc3ULL;
	uint64_t a = h->a ^ n, b = h->b ^ mum(n ^ K3, K1), c = a ^ K2, d = b ^ K0;
	while (n >= 32) {
		uint64_t w0 = rd64(p), w1 = rd64(p + 8), w2 = rd64(p + 16), w3 = rd64(p + 24);
		a = mum(w0 ^ K0 ^ a, w1 ^ K1);
		b = mum(w1 ^ K2 ^ b, w0 ^ K3 ^ 0x1234567);
		c = mum(w2 ^ K1 ^ c, w3 ^ K3);
		d = mum(w3 ^ K0 ^ d, w2 ^ K2 ^ 0x7654321);
		a += w2; b += w3 * K0; c += w0 ; d += w1 * K1;
		p += 32; n -= 32;
	}
	char buf[32] = { 0 };
	if (n) {
		__builtin_memcpy(buf, p, n);
		uint64_t w0 = rd64(buf), w1 = rd64(buf + 8), w2 = rd64(buf + 16), w3 = rd64(buf + 24);
		a = mum(w0 ^ K0 ^ a, w1 ^ K1);
		b = mum(w1 ^ K2 ^ b, w0 ^ K3 ^ 0x1234567);
		c = mum(w2 ^ K1 ^ c, w3 ^ K3);
		d = mum(w3 ^ K0 ^ d, w2 ^ K2 ^ 0x7654321);
		a += w2; b += w3 * K0; c += w0 ; d += w1 * K1;
	}
	h->a = mum(a ^ K1, d ^ K2) + c;
	h->b = mum(b ^ K3, c ^ K0) ^ d;
}
uint64_t mc_hash(const void * p, size_t n, uint64_t seed)
{
	struct H h = { seed ^ 0x9e3779b97f4a7c15ULL, ~seed };
	hash_add(&h, p, n);
	return mum(h.a ^ 0xa0761d6478bd642fULL, h.b ^ 0xe7037ed1a0b428dbULL);
}
static void obs_add(uint64_t v) { E->obs = mum(E->obs ^ 0xa0761d6478bd642fULL ^ v, 0xe7037ed1a0b428dbULL + E->obs); }

static double now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* ---- memory regions of the state ---- */
struct Reg { char * p; size_t n; };
enum { MAX_REG = 8 + 2 * MC_MAX_THREADS };
static int regions(struct Reg * r)
{
	int k = 0;
	char * g0 = (char *)((uintptr_t)__data_start & ~7UL);
	r[k++] = (struct Reg) { g0, (size_t)(_end - g0) };
	if (arena_top) {
		r[k++] = (struct Reg) { ARENA_BASE, arena_top };
		r[k++] = (struct Reg) { SHADOW(ARENA_BASE), arena_top >> 3 };
	}
	for (int i = 0; i < MC_MAX_THREADS; ++i) {
		if (T[i].st == T_RUN || T[i].st == T_BLOCKED || i == cur) {
			char * top = STACK_BASE + i * STACK_STRIDE + STACK_SIZE;
			char * sp = (char *)((uintptr_t)T[i].sp & ~7UL);
			r[k++] = (struct Reg) { sp, (size_t)(top - sp) };
			char * ss = SHADOW(sp);
			r[k++] = (struct Reg) { ss, (size_t)(SHADOW(top) - ss) };
		}
	}
	return k;
}

static struct Snapshot * snap_take(void)
{
	struct Reg r[MAX_REG];
	int k = regions(r);
	size_t tot = 0;
	for (int i = 0; i < k; ++i)
		tot += ((r[i].n + 7) & ~7UL) + sizeof(struct Reg);
	struct Snapshot * s = malloc(sizeof *s + tot + sizeof(struct Reg));
	if (!s) { fprintf(stderr, "mc: out of memory\n"); _exit(2); }
	s->n_total = tot;
	E->snap_bytes = tot;
	char * q = s->data;
	for (int i = 0; i < k; ++i) {
		*(struct Reg *)q = r[i]; q += sizeof(struct Reg);
		cpy(q, r[i].p, r[i].n); q += (r[i].n + 7) & ~7UL;
	}
	*(struct Reg *)q = (struct Reg) { NULL, 0 };
	return s;
}
static void snap_restore(const struct Snapshot * s)
{
	size_t oldtop = arena_top;
	const char * q = s->data;
	for (;;) {
		const struct Reg * r = (const struct Reg *)q;
		if (!r->p)
			break;
		q += sizeof *r;
		cpy(r->p, q, r->n);
		q += (r->n + 7) & ~7UL;
	}
	/* everything above the arena's top is unused: poisoned and zero */
	if (oldtop > arena_top)
		zero(ARENA_BASE + arena_top, oldtop - arena_top), fill(SHADOW(ARENA_BASE + arena_top), 0xf7, (oldtop - arena_top) >> 3);
	/* dead part of stacks */
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (T[i].st == T_RUN || T[i].st == T_BLOCKED || i == cur) {
			char * sp = (char *)((uintptr_t)T[i].sp & ~7UL);
			zero(sp - DEAD_ZERO, DEAD_ZERO);
			zero(SHADOW(sp - DEAD_ZERO), DEAD_ZERO >> 3);
		}
}
static bool visited(int n, const char * label)
{
	struct H h = { 0x243f6a8885a308d3ULL ^ (uint64_t)n, 0x13198a2e03707344ULL ^ (uint64_t)(uintptr_t)label };
	struct Reg r[MAX_REG];
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (i != cur && T[i].st != T_RUN && T[i].st != T_BLOCKED)
			T[i].sp = NULL;
	int k = regions(r);
	/* zero ignored regions while hashing */
	char * keep[8]; size_t kk = E->n_ign;
	for (size_t i = 0; i < kk; ++i) {
		keep[i] = malloc(E->ign[i].len);
		cpy(keep[i], E->ign[i].p, E->ign[i].len);
		zero(E->ign[i].p, E->ign[i].len);
	}
	for (int i = 0; i < k; ++i)
		hash_add(&h, r[i].p, r[i].n);
	for (size_t i = 0; i < kk; ++i) {
		cpy(E->ign[i].p, keep[i], E->ign[i].len);
		free(keep[i]);
	}
	if (!h.a && !h.b)
		h.a = 1;
	if (E->vis_n * 2 >= E->vis_cap) {
		size_t nc = E->vis_cap ? E->vis_cap * 4 : 1 << 14;
		uint64_t * nv = mmap(NULL, nc * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (nv == MAP_FAILED) { E->capped = true; E->stop = true; return true; }
		for (size_t i = 0; i < E->vis_cap; ++i)
			if (E->vis[2 * i] | E->vis[2 * i + 1]) {
				size_t j = E->vis[2 * i] & (nc - 1);
				while (nv[2 * j] | nv[2 * j + 1])
					j = (j + 1) & (nc - 1);
				nv[2 * j] = E->vis[2 * i]; nv[2 * j + 1] = E->vis[2 * i + 1];
			}
		if (E->vis)
			munmap(E->vis, E->vis_cap * 16);
		E->vis = nv; E->vis_cap = nc;
	}
	size_t j = h.a & (E->vis_cap - 1);
	while (E->vis[2 * j] | E->vis[2 * j + 1]) {
		if (E->vis[2 * j] == h.a && E->vis[2 * j + 1] == h.b)
			return true;
		j = (j + 1) & (E->vis_cap - 1);
	}
	E->vis[2 * j] = h.a; E->vis[2 * j + 1] = h.b;
	++E->vis_n;
	return false;
}

/* ---- reporting ---- */
static void jstr(FILE * f, const char * s)
{
	fputc('"', f);
	for (; *s; ++s) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void write_path(FILE * f, const uint16_t * ch, size_t n)
{
	fputc('[', f);
	for (size_t i = 0; i < n; ++i)
		fprintf(f, "%s%u", i ? "," : "", ch[i]);
	fputc(']', f);
}
static size_t cur_path(uint16_t * out)
{
	if (E->replay) {
		for (size_t i = 0; i < E->rep_i && i < E->rep_n; ++i)
			out[i] = E->rep[i];
		return E->rep_i < E->rep_n ? E->rep_i : E->rep_n;
	}
	for (size_t i = 0; i < E->depth; ++i)
		out[i] = E->st[i].next - 1;
	return E->depth;
}
static void write_result(const char * status)
{
	FILE * f = E->out_path ? fopen(E->out_path, "w") : stdout;
	if (!f) { perror("mc: out"); _exit(2); }
	fprintf(f, "{\"status\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,"
		"\"revisits\":%llu,\"pruned\":%llu,\"evals\":%llu,\"evals_nontrivial\":%llu,\"complete\":%s,\"max_depth\":%zu,"
		"\"snapshot_bytes\":%zu,\"wall_s\":%.3f,\"obs\":\"%016llx\",",
		status, (unsigned long long)E->states, (unsigned long long)E->transitions,
		(unsigned long long)E->executions, (unsigned long long)E->revisits,
		(unsigned long long)E->pruned, (unsigned long long)E->evals, (unsigned long long)E->evals_nt,
		E->capped ? "false" : "true", E->maxdepth, E->snap_bytes, now() - E->t0,
		(unsigned long long)E->obs);
	fprintf(f, "\"outcomes\":%zu,\"outcomes_truncated\":%s,\"message\":", E->n_out, E->out_over ? "true" : "false");
	jstr(f, E->msg);
	fprintf(f, ",\"report\":");
	jstr(f, E->report);
	fprintf(f, ",\"samples\":[");
	for (size_t i = 0; i < E->n_sample; ++i) { if (i) fputc(',', f); jstr(f, E->samples[i]); }
	fprintf(f, "],\"choice_labels\":{");
	for (size_t i = 0; i < E->n_lab; ++i) {
		if (i) fputc(',', f);
		jstr(f, E->lab[i]); fprintf(f, ":%llu", (unsigned long long)E->lab_cnt[i]);
	}
	fprintf(f, "},\"known\":[");
	bool first = true;
	for (size_t i = 0; i < E->n_known; ++i)
		if (E->known_hit[i]) { if (!first) fputc(',', f); first = false; jstr(f, E->known[i]); }
	fprintf(f, "],\"traces\":[");
	for (size_t i = 0; i < E->n_tr; ++i) {
		fprintf(f, "%s{\"obs\":\"%016llx\",\"choices\":", i ? "," : "", (unsigned long long)E->tr[i].obs);
		write_path(f, E->tr[i].ch, E->tr[i].len);
		fprintf(f, "}");
	}
	fprintf(f, "],\"path\":");
	uint16_t * p = E->path_tmp;
	size_t n = cur_path(p);
	write_path(f, p, n);
	fprintf(f, "}\n");
	if (E->out_path) fclose(f); else fflush(f);
}
static void die_violation(void) __attribute__((noreturn));
static void die_violation(void)
{
	if (E->verbose)
		printf("VIOLATED: %s\n", E->msg), fflush(stdout);
	write_result("violation");
	_exit(1);
}
void mc_fail(const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(E->msg, sizeof E->msg, fmt, ap);
	va_end(ap);
	die_violation();
}
static void on_asan(const char * rep)
{
	size_t n = strnlen(rep, sizeof E->report - 1);
	memcpy(E->report, rep, n);
	E->report[n] = 0;
	const char * e = strstr(E->report, "ERROR:");
	if (!e) e = E->report;
	size_t l = strcspn(e, "\n");
	snprintf(E->msg, sizeof E->msg, "memory error: %.*s", (int)(l > 300 ? 300 : l), e);
	die_violation();
}
static void on_sig(int sig, siginfo_t * si, void * u)
{
	(void)u;
	if (sig == SIGVTALRM) {
		if (E->progress != E->last_progress) {
			E->last_progress = E->progress;
			E->stuck = 0;
			return;
		}
		if (++E->stuck < 10)
			return;
		snprintf(E->msg, sizeof E->msg, "no progress: endless loop without any blocking call");
		die_violation();
	}
	uintptr_t a = (uintptr_t)si->si_addr;
	if (sig == SIGSEGV && a >= (uintptr_t)STACK_BASE && a < (uintptr_t)STACK_BASE + N_STACK * STACK_STRIDE)
		snprintf(E->msg, sizeof E->msg, "stack overflow");
	else
		snprintf(E->msg, sizeof E->msg, "signal %d (%s) at address 0x%lx", sig, strsignal(sig), (unsigned long)a);
	die_violation();
}
void mc_note(const char * fmt, ...)
{
	if (!E->verbose)
		return;
	va_list ap;
	va_start(ap, fmt);
	printf("        ");
	vprintf(fmt, ap);
	putchar('\n');
	va_end(ap);
}
void mc_outcome(const char * kind, uint64_t value)
{
	uint64_t v = mc_hash(kind, strlen(kind), value);
	obs_add(v);
	size_t j = v % MAX_OUT;
	for (size_t i = 0; i < MAX_OUT; ++i, j = (j + 1) % MAX_OUT) {
		if (!E->outk[j]) { E->outc[j] = v; E->outk[j] = kind; ++E->n_out; return; }
		if (E->outc[j] == v) return;
		if (E->n_out > MAX_OUT * 3 / 4) { ++E->out_over; return; }
	}
}
void mc_eval(bool nt) { ++E->evals; if (nt) ++E->evals_nt; ++E->progress; }
void mc_sample(const char * fmt, ...)
{
	if (E->n_sample >= N_SAMPLE)
		return;
	/* spread the samples: evaluation numbers 1, 8, 64, ... */
	uint64_t want = 1ULL << (3 * E->n_sample);
	uint64_t have = E->evals > E->executions ? E->evals : E->executions + 1;
	if (have < want)
		return;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(E->samples[E->n_sample++], sizeof E->samples[0], fmt, ap);
	va_end(ap);
}
void mc_known(const char * key)
{
	for (size_t i = 0; i < E->n_known; ++i)
		if (!strcmp(E->known[i], key)) { E->known_hit[i] = true; return; }
	mc_fail("finding '%s' is not listed as known", key);
}
bool mc_is_known(const char * key)
{
	for (size_t i = 0; i < E->n_known; ++i)
		if (!strcmp(E->known[i], key))
			return true;
	return false;
}
static const char * param(const char * key)
{
	size_t l = strlen(key);
	for (int i = 1; i < E->argc; ++i)
		if (!strncmp(E->argv[i], key, l) && E->argv[i][l] == '=')
			return E->argv[i] + l + 1;
	return NULL;
}
long mc_param(const char * key, long def) { const char * v = param(key); return v ? atol(v) : def; }
const char * mc_param_str(const char * key, const char * def) { const char * v = param(key); return v ? v : def; }
bool mc_verbose(void) { return E->verbose; }
void mc_set_stateless(bool on) { E->stateless = on; }
void mc_ignore(void * p, size_t len)
{
	for (size_t i = 0; i < E->n_ign; ++i)
		if (E->ign[i].p == p)
			return;
	if (E->n_ign < 8) { E->ign[E->n_ign].p = p; E->ign[E->n_ign++].len = len; }
}

/* ---- coroutines ---- */
static void to_engine(int req)
{
	E->req = req;
	T[cur].saved_errno = errno;
	mc_switch_(&T[cur].sp, E->engine_sp);
	errno = T[cur].saved_errno;
}
int mc_choose(int n, const char * label)
{
	++E->progress;
	if (n <= 0)
		mc_fail("mc_choose(%d, %s)", n, label);
	if (n == 1) {
		if (++E->run > 2000000)
			mc_fail("livelock: %u steps without any alternative (at %s)", E->run, label);
		return 0;
	}
	E->req_n = n;
	E->req_label = label;
	to_engine(REQ_CHOOSE);
	return E->req_res;
}
void mc_prune(void) { to_engine(REQ_PRUNE); __builtin_trap(); }
void mc_end(void) { to_engine(REQ_END); __builtin_trap(); }

static void thread_switch(int to)
{
	if (to == cur)
		return;
	int me = cur;
	T[me].saved_errno = errno;
	cur = to;
	mc_switch_(&T[me].sp, T[to].sp);
	errno = T[cur].saved_errno;
}
static bool t_enabled(int i)
{
	struct Thread * t = &T[i];
	if (t->st == T_RUN)
		return true;
	if (t->st != T_BLOCKED)
		return false;
	if (t->pred(t->parg))
		return true;
	if (t->cancelable && t->cancel_pending && !t->cancel_disabled && !t->cancelling)
		return true;
	if (t->timed && mc_timeouts_on && mc_timeouts_eager && mc_timeout_budget)
		return true;
	if (t->is_cond && mc_spurious_budget > 0)
		return true;
	return false;
}
bool mc_thread_enabled(int i) { return t_enabled(i); }
bool mc_thread_ready(int i)
{
	struct Thread * t = &T[i];
	return t->st == T_RUN || (t->st == T_BLOCKED && (t->pred(t->parg)
		|| (t->cancelable && t->cancel_pending && !t->cancel_disabled && !t->cancelling)));
}
/** select the next thread although the current one cannot continue */
static void reschedule(void)
{
	int en[MC_MAX_THREADS], n = 0;
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (i != cur && t_enabled(i))
			en[n++] = i;
	bool self = T[cur].st == T_BLOCKED && t_enabled(cur);
	if (self)
		en[n++] = cur;
	if (n == 0 && mc_timeouts_on) {
		/* nothing else can happen: timeouts expire */
		for (int i = 0; i < MC_MAX_THREADS; ++i)
			if (T[i].st == T_BLOCKED && T[i].timed)
				en[n++] = i;
	}
	if (n == 0) {
		if (mc_on_deadlock) {
			mc_on_deadlock();
			mc_end();
		}
		char buf[1024]; size_t l = 0;
		buf[0] = 0;
		for (int i = 0; i < MC_MAX_THREADS; ++i)
			if (T[i].st == T_BLOCKED && l < sizeof buf - 100)
				l += snprintf(buf + l, sizeof buf - l, " %s:%s", T[i].name, T[i].wait);
		mc_fail("deadlock: no thread can run:%s", buf);
	}
	if (mc_fixed_schedule && (++E->progress, ++E->run > 2000000))
		mc_fail("livelock: %u steps without any alternative", E->run);
	int r = mc_fixed_schedule ? 0 : mc_choose(n, "switch");
	thread_switch(en[r]);
}
void mc_sched(const char * what)
{
	++E->progress;
	if (++E->run > 2000000)
		mc_fail("livelock: %u steps without any alternative (at %s)", E->run, what);
	if (mc_atomic || nthreads < 2 || mc_preempt_budget == 0)
		return;
	int en[MC_MAX_THREADS], n = 0;
	en[n++] = cur;
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (i != cur && t_enabled(i))
			en[n++] = i;
	if (n == 1)
		return;
	int r = mc_choose(n, what);
	if (r) {
		if (mc_preempt_budget > 0)
			--mc_preempt_budget;
		thread_switch(en[r]);
	}
}
static void thread_exit_(void) __attribute__((noreturn));
static void do_cancel(void) __attribute__((noreturn));
static void run_cleanups(void)
{
	while (T[cur].cleanup) {
		struct mc_cleanup_ * c = T[cur].cleanup;
		T[cur].cleanup = c->next;
		--T[cur].cleanup_n;
		c->fn(c->arg);
	}
}
static void do_cancel(void)
{
	T[cur].cancelling = true;
	if (E->verbose)
		mc_note("[%s] cancelled", T[cur].name);
	run_cleanups();
	T[cur].retval = PTHREAD_CANCELED;
	thread_exit_();
}
static void thread_exit_(void)
{
	if (T[cur].locks)
		mc_fail("thread %s terminated while holding %d lock(s)", T[cur].name, T[cur].locks);
	T[cur].st = T[cur].detached ? T_FREE : T_DONE;
	if (T[cur].detached)
		++T[cur].gen;
	T[cur].sp = NULL;
	T[cur].cleanup = NULL;
	--nthreads;
	reschedule();
	__builtin_trap();
}
static bool cancel_due(void)
{
	return T[cur].cancel_pending && !T[cur].cancel_disabled && !T[cur].cancelling;
}
void mc_testcancel(void)
{
	if (cancel_due())
		do_cancel();
}
/* returns 0: predicate true, 1: timed out, 2: cancelled, 3: spurious */
static int block(bool (*pred)(void *), void * arg, bool cancelable, bool timed, bool is_cond, const char * what)
{
	if (pred(arg))
		return 0;
	struct Thread * t = &T[cur];
	t->pred = pred; t->parg = arg; t->cancelable = cancelable; t->timed = timed;
	t->is_cond = is_cond; t->wait = what;
	t->st = T_BLOCKED;
	reschedule();
	t->st = T_RUN;
	t->wait = NULL; t->pred = NULL; t->parg = NULL; t->timed = false;
	bool canc = cancelable && cancel_due();
	t->cancelable = false;
	t->is_cond = false;
	if (pred(arg)) {
		if (canc && mc_choose(2, "cancel vs. wakeup"))
			return 2;
		return 0;
	}
	if (canc)
		return 2;
	if (is_cond && mc_spurious_budget > 0 && !(timed && mc_timeouts_on && mc_timeouts_eager && mc_timeout_budget && mc_choose(2, "timeout vs. spurious") == 0)) {
		--mc_spurious_budget;
		return 3;
	}
	if (timed) {
		if (mc_timeouts_eager && mc_timeout_budget > 0)
			--mc_timeout_budget;
		return 1;
	}
	mc_fail("engine: thread %s woken without reason in %s", t->name, what);
}
void mc_block(bool (*pred)(void *), void * arg, bool cancelable, const char * what)
{
	mc_sched(what);
	if (cancelable)
		mc_testcancel();
	if (block(pred, arg, cancelable, false, false, what) == 2)
		do_cancel();
}
bool mc_block_timed(bool (*pred)(void *), void * arg, bool cancelable, const char * what)
{
	mc_sched(what);
	if (cancelable)
		mc_testcancel();
	int r = block(pred, arg, cancelable, true, false, what);
	if (r == 2)
		do_cancel();
	return r == 0;
}
static void thread_main(void)
{
	struct Thread * t = &T[cur];
	errno = 0;
	if (t->pfn)
		t->retval = t->pfn(t->arg);
	else
		t->fn(t->arg);
	if (T[cur].cleanup)
		mc_fail("thread %s ended with active cleanup handlers", T[cur].name);
	if (cur == 0)
		mc_end();
	thread_exit_();
}
static int thread_new(const char * name)
{
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (T[i].st == T_FREE) {
			unsigned g = T[i].gen;
			memset(&T[i], 0, sizeof T[i]);
			T[i].gen = g;
			T[i].st = T_RUN;
			T[i].name = name;
			char * base = STACK_BASE + i * STACK_STRIDE;
			zero(SHADOW(base), STACK_SIZE >> 3);
			char * top = base + STACK_SIZE;
			zero(top - DEAD_ZERO, DEAD_ZERO);
			void ** sp = (void **)(top - 64);
			*--sp = NULL; /* fake return address, aligns the stack */
			*--sp = (void *)&thread_main;
			for (int k = 0; k < 6; ++k)
				*--sp = NULL;
			T[i].sp = sp;
			++nthreads;
			return i;
		}
	mc_fail("engine: too many threads");
}
int mc_thread(void (*fn)(void *), void * arg, const char * name)
{
	int i = thread_new(name);
	T[i].fn = fn;
	T[i].arg = arg;
	mc_hb_create(i);
	return i;
}
int mc_self(void) { return cur; }
int mc_live_threads(void) { return nthreads; }
void mc_kill_others(void)
{
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (i != cur && (T[i].st == T_RUN || T[i].st == T_BLOCKED))
			T[i].st = T_DONE, T[i].sp = NULL, T[i].cleanup = NULL, --nthreads;
}
extern char __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak));
extern char __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak));
static char * pristine(char * a, char * b)
{
	char * p = malloc(b - a + 1);
	if (!p) { fprintf(stderr, "mc: out of memory\n"); _exit(2); }
	cpy(p, a, b - a);
	return p;
}
static void pristine_take(void)
{
	if (__start_repo_data) E->pdata = pristine(__start_repo_data, __stop_repo_data);
	if (__start_repo_bss) E->pbss = pristine(__start_repo_bss, __stop_repo_bss);
}
void mc_process_end(void)
{
	if (cur != 0)
		mc_fail("engine: mc_process_end called by another thread");
	for (int i = 1; i < MC_MAX_THREADS; ++i) {
		unsigned g = T[i].gen + (T[i].st != T_FREE);
		if (T[i].st == T_RUN || T[i].st == T_BLOCKED)
			--nthreads;
		zero(&T[i], sizeof T[i]);
		T[i].gen = g;
	}
	zero(ARENA_BASE, arena_top);
	fill(SHADOW(ARENA_BASE), 0xf7, arena_top >> 3);
	arena_top = 0;
	if (E->pdata) cpy(__start_repo_data, E->pdata, __stop_repo_data - __start_repo_data);
	if (E->pbss) cpy(__start_repo_bss, E->pbss, __stop_repo_bss - __start_repo_bss);
	if (!E->pdata && !E->pbss)
		mc_fail("engine: mc_process_end without restart=True");
}
bool mc_thread_done(int t) { return T[t].st == T_DONE || T[t].st == T_JOINED || T[t].st == T_FREE; }
const char * mc_thread_wait(int t) { return T[t].st == T_BLOCKED ? T[t].wait : NULL; }
int mc_locks_held(int t) { return T[t].locks; }
bool mc_cancel_pending(int t) { return T[t].cancel_pending; }
void mc_cancel(int t) { T[t].cancel_pending = true; }
int mc_cleanup_depth(void) { return T[cur].cleanup_n; }
void mc_cleanup_push_(struct mc_cleanup_ * c)
{
	c->next = T[cur].cleanup;
	T[cur].cleanup = c;
	++T[cur].cleanup_n;
}
void mc_cleanup_pop_(struct mc_cleanup_ * c, int execute)
{
	if (T[cur].cleanup != c)
		mc_fail("cleanup handlers not properly nested (left a cleanup scope by a jump)");
	T[cur].cleanup = c->next;
	--T[cur].cleanup_n;
	if (execute)
		c->fn(c->arg);
}

/* ---- pthread ---- */
struct Mtx { int owner; int count; int recursive; };
#define M(m) ((struct Mtx *)(m))
static bool p_mtx(void * m) { return M(m)->owner == 0; }
static void mtx_take(pthread_mutex_t * m) { M(m)->owner = cur + 1; ++T[cur].locks; mc_hb_acquire(m); }
int mc_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
	memset(m, 0, sizeof *m);
	if (a && *(const int *)a == 77) M(m)->recursive = 1;
	return 0;
}
int mc_pthread_mutexattr_init(pthread_mutexattr_t * a) { *(int *)a = 0; return 0; }
int mc_pthread_mutexattr_settype(pthread_mutexattr_t * a, int t) { *(int *)a = t == PTHREAD_MUTEX_RECURSIVE ? 77 : 0; return 0; }
int mc_pthread_mutexattr_destroy(pthread_mutexattr_t * a) { (void)a; return 0; }
int mc_pthread_mutexattr_setprotocol(pthread_mutexattr_t * a, int p) { (void)a; (void)p; return 0; }
int mc_pthread_mutex_destroy(pthread_mutex_t * m)
{
	if (M(m)->owner) mc_fail("destroying a locked mutex");
	return 0;
}
static bool mtx_recursive(pthread_mutex_t * m)
{
	/* PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP sets __kind */
	return M(m)->recursive || ((int *)m)[4] == PTHREAD_MUTEX_RECURSIVE_NP;
}
int mc_pthread_mutex_lock(pthread_mutex_t * m)
{
	mc_sched("lock");
	if (M(m)->owner == cur + 1) {
		if (mtx_recursive(m)) { ++M(m)->count; return 0; }
		mc_fail("deadlock: thread %s locks a mutex it already holds", T[cur].name);
	}
	block(&p_mtx, m, false, false, false, "mutex");
	mtx_take(m);
	return 0;
}
int mc_pthread_mutex_trylock(pthread_mutex_t * m)
{
	mc_sched("trylock");
	if (M(m)->owner) {
		if (M(m)->owner == cur + 1 && mtx_recursive(m)) { ++M(m)->count; return 0; }
		return EBUSY;
	}
	mtx_take(m);
	return 0;
}
int mc_pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts)
{
	(void)ts;
	mc_sched("timedlock");
	int r = block(&p_mtx, m, false, true, false, "mutex");
	if (r) return ETIMEDOUT;
	mtx_take(m);
	return 0;
}
int mc_pthread_mutex_unlock(pthread_mutex_t * m)
{
	if (M(m)->owner != cur + 1)
		mc_fail("thread %s unlocks a mutex it does not hold", T[cur].name);
	if (M(m)->count) { --M(m)->count; return 0; }
	M(m)->owner = 0;
	--T[cur].locks;
	mc_hb_release(m);
	if (mc_sched_on_unlock)
		mc_sched("unlock");
	return 0;
}
int mc_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int mc_pthread_cond_destroy(pthread_cond_t * c)
{
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (T[i].cond == c) mc_fail("destroying a condition variable with waiters");
	return 0;
}
static bool p_cond(void * a) { return ((struct Thread *)a)->signaled; }
static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed)
{
	mc_sched("cond_wait");
	mc_testcancel();
	if (M(m)->owner != cur + 1)
		mc_fail("thread %s waits for a condition without holding its mutex", T[cur].name);
	struct Thread * t = &T[cur];
	t->cond = c;
	t->signaled = false;
	M(m)->owner = 0;
	--t->locks;
	mc_hb_release(m);
	int r = block(&p_cond, t, true, timed, true, timed ? "cond_timedwait" : "cond_wait");
	t->cond = NULL;
	if (r == 2 && t->signaled) {
		/* cancelled although signalled: pass the signal on */
		for (int i = 0; i < MC_MAX_THREADS; ++i)
			if (T[i].cond == c && !T[i].signaled) { T[i].signaled = true; break; }
	}
	t->signaled = false;
	block(&p_mtx, m, false, false, false, "mutex");
	mtx_take(m);
	if (r == 2)
		do_cancel();
	return r == 1 ? ETIMEDOUT : 0;
}
int mc_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait(c, m, false); }
int mc_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts);
void (*mc_on_timedwait)(const struct timespec * abstime, bool timedout);
int mc_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	struct timespec t = *ts;
	int r = cond_wait(c, m, true);
	if (mc_on_timedwait)
		mc_on_timedwait(&t, r == ETIMEDOUT);
	return r;
}
int mc_pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, int clk, const struct timespec * ts) { (void)clk; return mc_pthread_cond_timedwait(c, m, ts); }
int mc_pthread_cond_broadcast(pthread_cond_t * c)
{
	mc_sched("broadcast");
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (T[i].cond == c)
			T[i].signaled = true;
	return 0;
}
int mc_pthread_cond_signal(pthread_cond_t * c)
{
	mc_sched("signal");
	int w[MC_MAX_THREADS], n = 0;
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		if (T[i].cond == c && !T[i].signaled)
			w[n++] = i;
	if (n)
		T[w[mc_choose(n, "signal whom")]].signaled = true;
	return 0;
}
static pthread_t handle(int i) { return (pthread_t)(0x1000 + ((unsigned long)T[i].gen << 16) + i); }
static int thr(pthread_t h, const char * what)
{
	int i = (int)(h & 0xfff);
	if ((h & 0xf000) != 0x1000 || i >= MC_MAX_THREADS || T[i].st == T_FREE || T[i].gen != (unsigned)(h >> 16))
		mc_fail("%s of a thread that does not exist (never created, or already joined)", what);
	return i;
}
void (*mc_on_thread)(const char * op, int t, int result);
int mc_pthread_create(pthread_t * h, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
	(void)a;
	mc_sched("pthread_create");
	if (mc_thread_budget > 0 && mc_choose(2, "pthread_create fails")) {
		--mc_thread_budget;
		if (mc_on_thread) mc_on_thread("create", -1, EAGAIN);
		return EAGAIN;
	}
	int i = thread_new("thread");
	T[i].pfn = fn;
	T[i].arg = arg;
	*h = handle(i);
	mc_hb_create(i);
	if (mc_on_thread) mc_on_thread("create", i, 0);
	return 0;
}
int mc_pthread_setname_np(pthread_t h, const char * name)
{
	T[thr(h, "pthread_setname_np")].name = name;
	return 0;
}
static bool p_done(void * t) { return ((struct Thread *)t)->st == T_DONE; }
static int join(pthread_t h, void ** rv, bool timed)
{
	mc_sched("join");
	mc_testcancel();
	int i = thr(h, "joining");
	if (i == cur)
		mc_fail("thread joins itself");
	int r = block(&p_done, &T[i], true, timed, false, timed ? "timedjoin" : "join");
	if (r == 2)
		do_cancel();
	if (mc_on_thread) mc_on_thread(timed ? "timedjoin" : "join", i, r ? ETIMEDOUT : 0);
	if (r)
		return ETIMEDOUT;
	mc_hb_join(i);
	if (rv)
		*rv = T[i].retval;
	unsigned g = T[i].gen;
	memset(&T[i], 0, sizeof T[i]);
	T[i].gen = g + 1;
	return 0;
}
int mc_pthread_join(pthread_t h, void ** rv) { return join(h, rv, false); }
int mc_pthread_timedjoin_np(pthread_t h, void ** rv, const struct timespec * ts);
void (*mc_on_timedjoin)(const struct timespec * ts);
int mc_pthread_timedjoin_np(pthread_t h, void ** rv, const struct timespec * ts)
{
	if (mc_on_timedjoin) mc_on_timedjoin(ts);
	return join(h, rv, true);
}
int mc_pthread_tryjoin_np(pthread_t h, void ** rv)
{
	int i = thr(h, "joining");
	if (T[i].st != T_DONE) return EBUSY;
	return join(h, rv, false);
}
int mc_pthread_cancel(pthread_t h)
{
	mc_sched("cancel");
	int i = thr(h, "cancelling");
	if (mc_on_thread) mc_on_thread("cancel", i, 0);
	if (T[i].st == T_RUN || T[i].st == T_BLOCKED)
		T[i].cancel_pending = true;
	return 0;
}
int mc_pthread_detach(pthread_t h)
{
	int i = thr(h, "detaching");
	T[i].detached = true;
	if (T[i].st == T_DONE) { T[i].st = T_FREE; ++T[i].gen; }
	return 0;
}
void mc_pthread_exit(void * rv)
{
	T[cur].cancelling = true;
	run_cleanups();
	T[cur].retval = rv;
	thread_exit_();
}
pthread_t mc_pthread_self(void) { return handle(cur); }
int mc_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int mc_pthread_kill(pthread_t h, int sig) { (void)sig; thr(h, "signalling"); return 0; }
int mc_pthread_setcancelstate(int st, int * old)
{
	if (old)
		*old = T[cur].cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
	T[cur].cancel_disabled = st == PTHREAD_CANCEL_DISABLE;
	return 0;
}
int mc_pthread_setcanceltype(int t, int * old) { (void)t; if (old) *old = PTHREAD_CANCEL_DEFERRED; return 0; }
void mc_pthread_testcancel(void) { mc_sched("testcancel"); mc_testcancel(); }
__attribute__((weak)) int mc_pthread_sigmask(int how, const sigset_t * s, sigset_t * o) { (void)how; (void)s; if (o) sigemptyset(o); return 0; }
int mc_pthread_once(pthread_once_t * o, void (*fn)(void)) { if (!*(int *)o) { *(int *)o = 1; fn(); } return 0; }
int mc_pthread_attr_init(pthread_attr_t * a) { (void)a; return 0; }
int mc_pthread_attr_destroy(pthread_attr_t * a) { (void)a; return 0; }
int mc_pthread_attr_setdetachstate(pthread_attr_t * a, int s) { (void)a; (void)s; return 0; }
int mc_pthread_attr_setstacksize(pthread_attr_t * a, size_t s) { (void)a; (void)s; return 0; }

/* ---- memory ---- */
struct Blk { uint32_t size; uint32_t total; uint32_t magic; uint32_t seq; };
enum { B_USED = 0x55534544, B_FREE = 0x46524545 };
static void poison_all(char * p, size_t n) { fill(SHADOW(p), 0xf7, n >> 3); }
static void * alloc(size_t n)
{
	if (n > ARENA_SIZE / 2)
		return NULL;
	size_t total = 16 + ((n + 15) & ~15UL) + 16;
	size_t o = 0;
	struct Blk * b = NULL;
	while (o < arena_top) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		if (c->magic == B_FREE && c->total >= total) {
			b = c;
			if (c->total >= total + 48) {
				struct Blk * r = (struct Blk *)(ARENA_BASE + o + total);
				zero(r, sizeof *r);
				r->total = c->total - total;
				r->magic = B_FREE;
				c->total = total;
			}
			break;
		}
		o += c->total;
	}
	if (!b) {
		if (arena_top + total > ARENA_SIZE)
			return NULL;
		b = (struct Blk *)(ARENA_BASE + arena_top);
		b->total = total;
		poison_all((char *)b, total);
		arena_top += total;
	}
	b->size = n;
	b->magic = B_USED;
	b->seq = 0;
	char * p = (char *)(b + 1);
	fill(p, 0xa5, n);
	if (((n + 15) & ~15UL) != n)
		zero(p + n, ((n + 15) & ~15UL) - n);
	__asan_unpoison_memory_region(p, n);
	mc_race_forget(p, n);
	return p;
}
static struct Blk * find(const void * p)
{
	size_t o = 0;
	while (o < arena_top) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		if ((char *)(c + 1) == p)
			return c;
		o += c->total;
	}
	return NULL;
}
void mc_free(void * p)
{
	if (!p)
		return;
	struct Blk * b = find(p);
	if (!b)
		mc_fail("free of a pointer that is no heap block");
	if (b->magic != B_USED)
		mc_fail("double free");
	mc_mem_access(b + 1, b->size, true, __builtin_return_address(0));
	b->magic = B_FREE;
	b->size = 0;
	poison_all((char *)b, b->total);
	/* coalesce */
	size_t o = 0;
	struct Blk * prev = NULL;
	while (o < arena_top) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		o += c->total;
		if (c->magic == B_FREE) {
			if (prev) { prev->total += c->total; c = prev; }
			prev = c;
		} else
			prev = NULL;
	}
	if (prev) {
		size_t off = (char *)prev - ARENA_BASE, n = prev->total;
		zero(prev, n);
		arena_top = off;
	} else {
		/* canonical contents of free memory */
		o = 0;
		while (o < arena_top) {
			struct Blk * c = (struct Blk *)(ARENA_BASE + o);
			if (c->magic == B_FREE)
				zero(c + 1, c->total - sizeof *c);
			o += c->total;
		}
	}
}
static bool inject(void)
{
	if (mc_malloc_budget > 0 && mc_choose(2, "malloc fails")) {
		--mc_malloc_budget;
		++mc_malloc_failed;
		errno = ENOMEM;
		if (E->verbose) mc_note("malloc fails");
		return true;
	}
	return false;
}
void * mc_malloc(size_t n)
{
	++E->progress;
	if (inject())
		return NULL;
	void * p = alloc(n);
	if (!p) errno = ENOMEM;
	return p;
}
void * mc_calloc(size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	char * p = mc_malloc(t);
	if (p)
		zero(p, t);
	return p;
}
void * mc_realloc(void * p, size_t n)
{
	if (!p)
		return mc_malloc(n);
	struct Blk * b = find(p);
	if (!b || b->magic != B_USED)
		mc_fail("realloc of a pointer that is no heap block");
	if (inject())
		return NULL;
	void * q = alloc(n);
	if (!q) { errno = ENOMEM; return NULL; }
	cpy(q, p, b->size < n ? b->size : n);
	mc_free(p);
	return q;
}
void * mc_reallocarray(void * p, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	return mc_realloc(p, t);
}
char * mc_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = mc_malloc(n);
	if (p)
		cpy(p, s, n);
	return p;
}
char * mc_strndup(const char * s, size_t m)
{
	size_t n = strnlen(s, m);
	char * p = mc_malloc(n + 1);
	if (p) { cpy(p, s, n); p[n] = 0; }
	return p;
}
void * mc__Znwm(size_t n) { void * p = mc_malloc(n); if (!p) mc_fail("operator new without memory"); return p; }
void * mc__Znam(size_t n) { return mc__Znwm(n); }
void mc__ZdlPv(void * p) { mc_free(p); }
void mc__ZdaPv(void * p) { mc_free(p); }
void mc__ZdlPvm(void * p, size_t n) { (void)n; mc_free(p); }
void mc__ZdaPvm(void * p, size_t n) { (void)n; mc_free(p); }
char * mc___strdup(const char * s) { return mc_strdup(s); }
unsigned mc_heap_blocks(void)
{
	unsigned n = 0;
	for (size_t o = 0; o < arena_top;) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		n += c->magic == B_USED;
		o += c->total;
	}
	return n;
}
size_t mc_heap_bytes(void)
{
	size_t n = 0;
	for (size_t o = 0; o < arena_top;) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		if (c->magic == B_USED)
			n += c->size;
		o += c->total;
	}
	return n;
}
const void * mc_heap_base(const void * p)
{
	for (size_t o = 0; o < arena_top;) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		if (c->magic == B_USED && (const char *)p >= (char *)(c + 1) && (const char *)p < (char *)(c + 1) + c->size)
			return c + 1;
		o += c->total;
	}
	return NULL;
}
bool mc_heap_valid(const void * p)
{
	for (size_t o = 0; o < arena_top;) {
		struct Blk * c = (struct Blk *)(ARENA_BASE + o);
		if (c->magic == B_USED && (const char *)p >= (char *)(c + 1) && (const char *)p < (char *)(c + 1) + c->size)
			return true;
		o += c->total;
	}
	return false;
}

/* ---- time ---- */
static bool p_never(void * a) { (void)a; return false; }
static void do_sleep(uint64_t us, const char * what)
{
	if (mc_on_sleep) {
		mc_on_sleep(us);
		return;
	}
	mc_block_timed(&p_never, NULL, true, what);
}
unsigned mc_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000, "sleep"); return 0; }
int mc_usleep(unsigned us) { do_sleep(us, "usleep"); return 0; }
int mc_nanosleep(const struct timespec * ts, struct timespec * rem)
{
	(void)rem;
	do_sleep((uint64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000, "nanosleep");
	return 0;
}
time_t mc_time(time_t * t) { if (t) *t = mc_time_s; return mc_time_s; }
int mc_clock_gettime(clockid_t c, struct timespec * ts)
{
	(void)c;
	ts->tv_sec = mc_time_s;
	ts->tv_nsec = mc_time_ns;
	return 0;
}
int mc_gettimeofday(struct timeval * tv, void * tz)
{
	(void)tz;
	tv->tv_sec = mc_time_s;
	tv->tv_usec = mc_time_ns / 1000;
	return 0;
}
void mc_srand(unsigned s) { mc_rand_state = s; }
__attribute__((weak)) int mc_rand(void) { return 0; }
long mc_random(void) { return mc_rand(); }
void mc_srandom(unsigned s) { mc_rand_state = s; }

/* ---- process ---- */
static void aborting(const char * why) __attribute__((noreturn));
static void aborting(const char * why)
{
	if (E->verbose)
		mc_note("process terminates: %s", why);
	if (mc_on_abort)
		mc_on_abort(why);
	mc_fail("process terminated: %s", why);
}
void mc_abort(void) { aborting("abort()"); }
void mc_exit(int c) { char b[32]; snprintf(b, sizeof b, "exit(%d)", c); aborting(b); }
void mc__Exit(int c) { char b[32]; snprintf(b, sizeof b, "_Exit(%d)", c); aborting(b); }
void mc__exit(int c) { char b[32]; snprintf(b, sizeof b, "_exit(%d)", c); aborting(b); }
void mc___assert_fail(const char * e, const char * f, unsigned l, const char * fn)
{
	char b[512];
	(void)f; (void)l;
	snprintf(b, sizeof b, "assertion '%s' failed in %s()", e, fn);
	aborting(b);
}
void mc_log_(int level, const char * prefix, const char * msg)
{
	obs_add(mc_hash(msg, strlen(msg), level));
	if (E->verbose)
		printf("        {%s} [%d] [%s] %s\n", T[cur].name ? T[cur].name : "?", level, prefix ? prefix : "-", msg);
	if (mc_on_log)
		mc_on_log(level, prefix, msg);
	if (level == 4 /* LOG_LEVEL_EMERG */) {
		char b[512];
		snprintf(b, sizeof b, "emergency log message '%s: %s'", prefix ? prefix : "", msg);
		aborting(b);
	}
}

/* ---- exploration ---- */
static void count_label(const char * l)
{
	for (size_t i = 0; i < E->n_lab; ++i)
		if (E->lab[i] == l || !strcmp(E->lab[i], l)) {
			++E->lab_cnt[i];
			if (i && E->lab_cnt[i] > E->lab_cnt[i - 1]) {
				const char * tl = E->lab[i]; uint64_t tc = E->lab_cnt[i];
				E->lab[i] = E->lab[i - 1]; E->lab_cnt[i] = E->lab_cnt[i - 1];
				E->lab[i - 1] = tl; E->lab_cnt[i - 1] = tc;
			}
			return;
		}
	if (E->n_lab < N_LABEL) { E->lab[E->n_lab] = l; E->lab_cnt[E->n_lab++] = 1; }
}
static void resume(void)
{
	E->run = 0;
	mc_switch_(&E->engine_sp, T[cur].sp);
}
static void zero_dead(void)
{
	char * sp = (char *)((uintptr_t)T[cur].sp & ~7UL);
	zero(sp - DEAD_ZERO, DEAD_ZERO);
}
static void record_trace(void)
{
	/* keep terminal paths number 1, 2, 4, 8, ... */
	if (E->n_tr < N_TRACES && (E->executions & (E->executions - 1)) == 0) {
		struct Trace * t = &E->tr[E->n_tr++];
		t->ch = malloc(sizeof(uint16_t) * (E->depth + 1));
		t->len = cur_path(t->ch);
		t->obs = E->obs;
	}
}
static void take(int v)
{
	E->req_res = v;
	++E->transitions;
	obs_add(mc_hash(E->req_label, strlen(E->req_label), ((uint64_t)E->req_n << 32) | v));
}
static void explore(void)
{
	bool end;
	resume();
	while (true) {
		end = true;
		switch (E->req) {
		case REQ_CHOOSE:
			zero_dead();
			if (!E->stateless && visited(E->req_n, E->req_label)) {
				++E->revisits;
				break;
			}
			++E->states;
			count_label(E->req_label);
			if (E->depth >= MAX_DEPTH || E->depth * (E->snap_bytes >> 10) > MAX_SNAP_KB)
				mc_fail("endless execution: %zu choices without coming to an end or to a known state", E->depth);
			struct Frame * f = &E->st[E->depth++];
			if (E->depth > E->maxdepth)
				E->maxdepth = E->depth;
			f->n = E->req_n; f->next = 1; f->label = E->req_label;
			f->obs = E->obs; f->cur = cur;
			f->snap = snap_take();
			take(0);
			resume();
			end = false;
			break;
		case REQ_END:
			++E->executions;
			record_trace();
			break;
		case REQ_PRUNE:
			++E->pruned;
			break;
		}
		if (!end)
			continue;
		/* backtrack */
		if (now() - E->t0 > E->max_s) { E->capped = true; return; }
		if (E->states > E->max_states) { E->capped = true; return; }
		if (E->stop) return;
		while (E->depth && E->st[E->depth - 1].next >= E->st[E->depth - 1].n) {
			free(E->st[--E->depth].snap);
			E->st[E->depth].snap = NULL;
		}
		if (!E->depth)
			return;
		struct Frame * f = &E->st[E->depth - 1];
		snap_restore(f->snap);
		E->obs = f->obs;
		E->req_n = f->n; E->req_label = f->label;
		int v = f->next++;
		if (f->next >= f->n) { free(f->snap); f->snap = NULL; }
		take(v);
		resume();
	}
}
static void replay(void)
{
	resume();
	while (E->req == REQ_CHOOSE) {
		zero_dead();
		++E->states;
		int v = 0;
		if (E->rep_i < E->rep_n)
			v = E->rep[E->rep_i];
		++E->rep_i;
		if (v >= E->req_n) {
			fprintf(stderr, "mc: replay diverged: choice %zu = %d of %d (%s)\n", E->rep_i - 1, v, E->req_n, E->req_label);
			write_result("diverged");
			_exit(3);
		}
		if (E->verbose)
			printf("#%zu {%s} %s: %d of %d\n", E->rep_i - 1, T[cur].name ? T[cur].name : "?", E->req_label, v, E->req_n);
		take(v);
		resume();
	}
	++E->executions;
}
static void init_thread(void * a) { (void)a; mc_harness(); }

int main(int argc, char ** argv)
{
	if (!getenv("MC_NOREEXEC")) {
		setenv("MC_NOREEXEC", "1", 1);
		setenv("TZ", "UTC", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1 || true)
			execv("/proc/self/exe", argv);
	}
	if (mmap(ENGINE_BASE, sizeof(struct Engine) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED
		|| mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) {
		perror("mc: mmap");
		return 2;
	}
	for (int i = 0; i < N_STACK; ++i)
		if (mmap(STACK_BASE + i * STACK_STRIDE, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) {
			perror("mc: mmap stack");
			return 2;
		}
	poison_all(ARENA_BASE, 1 << 20);
	E->argc = argc; E->argv = argv;
	E->t0 = now();
	E->max_s = 1e9; E->max_states = ULLONG_MAX;
	E->st = mmap(NULL, sizeof(struct Frame) * MAX_DEPTH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	E->path_tmp = mmap(NULL, sizeof(uint16_t) * MAX_DEPTH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	const char * v;
	mc_access_on = (v = param("access")) && atoi(v);
	if ((v = param("max_s"))) E->max_s = atof(v);
	if ((v = param("max_states"))) E->max_states = strtoull(v, NULL, 10);
	if ((v = param("out"))) E->out_path = (char *)v;
	if ((v = param("verbose"))) E->verbose = atoi(v);
	if ((v = param("known"))) {
		char buf[4096];
		snprintf(buf, sizeof buf, "%s", v);
		for (char * t = strtok(buf, ","); t && E->n_known < 16; t = strtok(NULL, ","))
			snprintf(E->known[E->n_known++], sizeof E->known[0], "%s", t);
	}
	if ((v = param("replay"))) {
		E->replay = true;
		E->rep = malloc(sizeof(uint16_t) * (strlen(v) + 2));
		if (*v == '@') {
			FILE * f = fopen(v + 1, "r");
			if (!f) { perror("mc: replay"); return 2; }
			E->rep = realloc(E->rep, sizeof(uint16_t) * MAX_DEPTH);
			int x;
			while (fscanf(f, "%d%*[, ]", &x) == 1)
				E->rep[E->rep_n++] = x;
			fclose(f);
		} else
			while (*v) {
				E->rep[E->rep_n++] = strtoul(v, (char **)&v, 10);
				if (*v == ',') ++v;
				else break;
			}
	}
	stack_t ss = { .ss_sp = malloc(1 << 17), .ss_size = 1 << 17 };
	sigaltstack(&ss, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = &on_sig;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
	sigaction(SIGABRT, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
	sigaction(SIGVTALRM, &sa, NULL);
	struct itimerval it = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
	__asan_set_error_report_callback(&on_asan);

	pristine_take();
	cur = mc_thread(&init_thread, NULL, "main");
	if (E->replay)
		replay();
	else
		explore();
	if (E->verbose)
		printf("states %llu transitions %llu executions %llu revisits %llu depth %zu snap %zu wall %.2f %s\n",
			(unsigned long long)E->states, (unsigned long long)E->transitions, (unsigned long long)E->executions,
			(unsigned long long)E->revisits, E->maxdepth, E->snap_bytes, now() - E->t0, E->capped ? "CAPPED" : "complete");
	fflush(stdout);
	write_result(E->replay && E->req == REQ_PRUNE ? "pruned" : "ok");
	_exit(0);
}
