/* Happens-before race detection on the accesses of code compiled with
 * -fsanitize=thread: byte-wise last write and last reads with vector clocks.
 * All of it is part of the explored state. */
#include "mc.h"
#include <string.h>

enum { NT = MC_MAX_THREADS, NOBJ = 32, NSH = 8192 };
bool mc_race_on;
static uint8_t vc[NT][NT];
static struct { const void * obj; uint8_t vc[NT]; } objs[NOBJ];
struct Sh { uint64_t addr; uint8_t wt, wc, rc[NT]; };
static struct Sh sh[NSH];
static unsigned nsh;

static uint8_t * obj(const void * o)
{
	for (int i = 0; i < NOBJ; ++i) {
		if (objs[i].obj == o)
			return objs[i].vc;
		if (!objs[i].obj) {
			objs[i].obj = o;
			return objs[i].vc;
		}
	}
	mc_fail("engine: too many synchronisation objects");
}
void mc_hb_release(const void * o)
{
	if (!mc_race_on) return;
	uint8_t * v = obj(o), * me = vc[mc_self()];
	for (int i = 0; i < NT; ++i) if (me[i] > v[i]) v[i] = me[i];
	if (++me[mc_self()] == 255) mc_fail("engine: vector clock overflow");
}
void mc_hb_acquire(const void * o)
{
	if (!mc_race_on) return;
	uint8_t * v = obj(o), * me = vc[mc_self()];
	for (int i = 0; i < NT; ++i) if (v[i] > me[i]) me[i] = v[i];
}
void mc_hb_create(int t)
{
	if (!mc_race_on) return;
	int s = mc_self();
	uint8_t own = vc[t][t];
	memcpy(vc[t], vc[s], NT);
	vc[t][t] = own + 1;
	++vc[s][s];
}
void mc_hb_join(int t)
{
	if (!mc_race_on) return;
	uint8_t * me = vc[mc_self()];
	for (int i = 0; i < NT; ++i) if (vc[t][i] > me[i]) me[i] = vc[t][i];
}
static struct Sh * get(uint64_t a)
{
	uint64_t h = (a * 0x9e3779b97f4a7c15ULL) >> 51;
	for (unsigned i = 0; i < NSH; ++i) {
		struct Sh * s = &sh[(h + i) % NSH];
		if (s->addr == a) return s;
		if (!s->addr) {
			if (++nsh > NSH * 3 / 4) mc_fail("engine: race detector's memory exhausted");
			s->addr = a;
			return s;
		}
	}
	mc_fail("engine: race detector");
}
void mc_mem_access(const void * p, size_t n, bool write, const void * pc)
{
	if (!mc_race_on && !mc_access_on) return;
	uint64_t a = (uint64_t)p;
	/* stacks are private here */
	if (a >= 0x210000000000ULL && a < 0x220000000000ULL) return;
	if (mc_access_on) mc_sched("access");
	if (!mc_race_on) return;
	int t = mc_self();
	for (size_t i = 0; i < n; ++i) {
		struct Sh * s = get(a + i);
		if (s->wc && s->wt != t && vc[t][s->wt] < s->wc)
			mc_fail("data race: %s of %p by thread %d (at %p) is not ordered after a write by thread %d", write ? "write" : "read", (void *)(a + i), t, pc, s->wt);
		if (write) {
			for (int j = 0; j < NT; ++j)
				if (j != t && s->rc[j] && vc[t][j] < s->rc[j])
					mc_fail("data race: write of %p by thread %d (at %p) is not ordered after a read by thread %d", (void *)(a + i), t, pc, j);
			s->wt = t; s->wc = vc[t][t] ? vc[t][t] : (vc[t][t] = 1);
			memset(s->rc, 0, sizeof s->rc);
		} else
			s->rc[t] = vc[t][t] ? vc[t][t] : (vc[t][t] = 1);
	}
}
void mc_race_forget(const void * p, size_t n)
{
	if (!mc_race_on) return;
	for (size_t i = 0; i < n; ++i) {
		struct Sh * s = get((uint64_t)p + i);
		s->wt = s->wc = 0;
		memset(s->rc, 0, sizeof s->rc);
	}
}
#define PC __builtin_return_address(0)
#define RW(n) \
void __tsan_read##n(void * p) { mc_mem_access(p, n, false, PC); } \
void __tsan_write##n(void * p) { mc_mem_access(p, n, true, PC); } \
void __tsan_unaligned_read##n(void * p) { mc_mem_access(p, n, false, PC); } \
void __tsan_unaligned_write##n(void * p) { mc_mem_access(p, n, true, PC); } \
void __tsan_volatile_read##n(void * p) { mc_mem_access(p, n, false, PC); } \
void __tsan_volatile_write##n(void * p) { mc_mem_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { mc_mem_access(p, n, false, PC); }
void __tsan_write_range(void * p, unsigned long n) { mc_mem_access(p, n, true, PC); }
void __tsan_func_entry(void * p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
/* atomics: synchronising accesses */
#define ATOMIC(bits, type) \
type __tsan_atomic##bits##_load(const volatile type * p, int mo) { (void)mo; mc_sched("atomic"); mc_hb_acquire((void *)p); return *p; } \
void __tsan_atomic##bits##_store(volatile type * p, type v, int mo) { (void)mo; mc_sched("atomic"); mc_hb_acquire((void *)p); *p = v; mc_hb_release((void *)p); } \
type __tsan_atomic##bits##_exchange(volatile type * p, type v, int mo) { (void)mo; mc_sched("atomic"); mc_hb_acquire((void *)p); type o = *p; *p = v; mc_hb_release((void *)p); return o; } \
type __tsan_atomic##bits##_fetch_add(volatile type * p, type v, int mo) { (void)mo; mc_sched("atomic"); mc_hb_acquire((void *)p); type o = *p; *p = o + v; mc_hb_release((void *)p); return o; } \
type __tsan_atomic##bits##_fetch_sub(volatile type * p, type v, int mo) { (void)mo; mc_sched("atomic"); mc_hb_acquire((void *)p); type o = *p; *p = o - v; mc_hb_release((void *)p); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type * p, type * e, type v, int mo, int mo2) { (void)mo; (void)mo2; mc_sched("atomic"); mc_hb_acquire((void *)p); int ok = *p == *e; if (ok) *p = v; else *e = *p; mc_hb_release((void *)p); return ok; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void * mc_memcpy(void * d, const void * s, size_t n) { mc_mem_access(s, n, false, PC); mc_mem_access(d, n, true, PC); return memcpy(d, s, n); }
void * mc_memmove(void * d, const void * s, size_t n) { mc_mem_access(s, n, false, PC); mc_mem_access(d, n, true, PC); return memmove(d, s, n); }
void * mc_memset(void * d, int c, size_t n) { mc_mem_access(d, n, true, PC); return memset(d, c, n); }
int mc_memcmp(const void * a, const void * b, size_t n) { mc_mem_access(a, n, false, PC); mc_mem_access(b, n, false, PC); return memcmp(a, b, n); }
