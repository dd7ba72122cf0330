/* B01, B02: every history of buffer operations against a reference model.
 * The model knows frames by their address and increments by the heap block
 * the frame lives in; it does not prescribe in which order free frames are
 * reused. */
#include "common.h"
#include "core/buffer.h"

enum { MAXQ = 16, MAXP = 8 };
struct MFrame { const struct OPENSKY_RawFrame * p; uint8_t id; };
struct MPool { const void * base; unsigned size, used, collected; };

static struct {
	struct MFrame q[MAXQ]; unsigned nq;
	struct OPENSKY_RawFrame * prod;
	const struct OPENSKY_RawFrame * cons; uint8_t consId;
	struct MPool pool[MAXP]; unsigned npool; /* [0]: static */
	uint8_t nextId;
	struct BUFFER_Statistics st; /* expected */
} m;
static unsigned cStat, cDyn, cInc, cGcLevel;
static bool cHist;
static unsigned baseBlocks, perPool; /* allocated blocks without increments, and by each increment */
static bool tick;
static int macro;
static int gcThread = -1;


static void fillFrame(struct OPENSKY_RawFrame * f, uint8_t id)
{
	memset(f->raw, id, sizeof f->raw);
	f->raw[1] = ~id;
	f->rawLen = 10 + id % 30;
}
static void checkFrame(const struct OPENSKY_RawFrame * f, uint8_t id)
{
	struct OPENSKY_RawFrame r;
	fillFrame(&r, id);
	mc_assert(f->rawLen == r.rawLen && !memcmp(f->raw, r.raw, sizeof r.raw),
		"delivered frame is not the expected frame %u (first byte %u, length %zu)", id, f->raw[0], f->rawLen);
}
static struct MPool * poolOf(const void * p)
{
	const void * b = mc_heap_base(p);
	mc_assert(b, "frame is not in allocated memory");
	for (unsigned i = 0; i < m.npool; ++i)
		if (m.pool[i].base == b)
			return &m.pool[i];
	return NULL;
}
static unsigned freeIn(const struct MPool * p) { return p->size - p->used - p->collected; }
static unsigned totalFree(void)
{
	unsigned n = 0;
	for (unsigned i = 0; i < m.npool; ++i)
		n += freeIn(&m.pool[i]);
	return n;
}
static unsigned totalCollected(void)
{
	unsigned n = 0;
	for (unsigned i = 0; i < m.npool; ++i)
		n += m.pool[i].collected;
	return n;
}
static bool inUse(const void * p)
{
	if (p == m.prod || p == m.cons)
		return true;
	for (unsigned i = 0; i < m.nq; ++i)
		if (m.q[i].p == p)
			return true;
	return false;
}
static void checkStats(void)
{
	struct BUFFER_Statistics s;
	memset(&s, 0x55, sizeof s);
	BUFFER_getStatistics(&s);
	m.st.queueSize = m.nq;
	m.st.poolSize = totalFree();
	m.st.dynPools = m.npool - 1;
#define C(f) mc_assert(s.f == m.st.f, "statistics: " #f " is %lu, should be %lu", (unsigned long)s.f, (unsigned long)m.st.f)
	C(queueSize); C(maxQueueSize); C(discardedCur); C(discardedAll); C(discardedMax);
	C(poolSize); C(dynPools); C(dynPoolsAll); C(dynPoolsMax); C(uncollectedPools);
	C(flushes); C(GCruns);
	mc_outcome("queue", m.nq); mc_outcome("pools", m.npool); mc_outcome("free", totalFree());
	mc_outcome("lost", m.st.discardedAll);
}
static void queueGrew(void)
{
	if (m.nq > m.st.maxQueueSize)
		m.st.maxQueueSize = m.nq;
}
static void drop(unsigned i)
{
	--poolOf(m.q[i].p)->used;
	memmove(m.q + i, m.q + i + 1, (m.nq - i - 1) * sizeof *m.q);
	--m.nq;
	memset(m.q + m.nq, 0, sizeof *m.q);
}
static void opNew(void)
{
	unsigned failed = mc_malloc_failed, blocks = mc_heap_blocks();
	bool hadFree = totalFree() > 0, hadColl = totalCollected() > 0;
	struct OPENSKY_RawFrame * f = BUF_newFrame();
	mc_assert(f, "no frame for production");
	failed = mc_malloc_failed - failed;
	if (!hadFree && !hadColl && (!cHist || m.npool - 1 >= cInc || failed)) {
		/* nothing left: the oldest frame is lost */
		mc_assert(m.nq, "model: no frame to be sacrificed");
		mc_assert(f == m.q[0].p, "a frame other than the oldest one was sacrificed");
		mc_assert(mc_heap_blocks() == blocks, "memory leaked or grew beyond its limit");
		drop(0);
		++m.st.discardedCur;
		++m.st.discardedAll;
		if (m.st.discardedCur > m.st.discardedMax)
			m.st.discardedMax = m.st.discardedCur;
		++poolOf(f)->used;
	} else {
		mc_assert(!failed, "memory was requested although there were free frames");
		mc_assert(!inUse(f), "a frame in use was handed out for production");
		struct MPool * p = poolOf(f);
		if (hadFree) {
			mc_assert(p, "a frame of a new increment was handed out although there were free frames");
			mc_assert(freeIn(p), "a collected frame was handed out although there were free frames");
		} else if (hadColl) {
			mc_assert(p && p->collected, "new memory taken although collected increments could be reused");
			p->collected = 0;
			++m.st.uncollectedPools;
		} else {
			mc_assert(!p, "frame from an exhausted pool");
			mc_assert(m.npool < MAXP, "model: too many pools");
			p = &m.pool[m.npool++];
			p->base = mc_heap_base(f);
			p->size = cDyn;
			if (!perPool) perPool = mc_heap_blocks() - baseBlocks;
			++m.st.dynPoolsAll;
			if (m.npool - 1 > m.st.dynPoolsMax)
				m.st.dynPoolsMax = m.npool - 1;
		}
		++p->used;
		m.st.discardedCur = 0;
		mc_assert(mc_heap_blocks() == baseBlocks + perPool * (m.npool - 1), "unexpected number of allocations");
	}
	m.prod = f;
	memset(f, 0xee, sizeof *f);
}
static bool idUsed(uint8_t id)
{
	for (unsigned i = 0; i < m.nq; ++i)
		if (m.q[i].id == id)
			return true;
	return m.cons && m.consId == id;
}
static void opCommit(void)
{
	uint8_t id = m.nextId;
	if (macro) {
		/* smallest unused number, such that histories meet again */
		for (id = 0; idUsed(id); ++id) {}
	} else
		m.nextId = (m.nextId + 1) % 13;
	fillFrame(m.prod, id);
	BUF_commitFrame(m.prod);
	mc_assert(m.nq < MAXQ, "model: queue overflow");
	m.q[m.nq].p = m.prod;
	m.q[m.nq++].id = id;
	m.prod = NULL;
	queueGrew();
}
static void opAbort(void)
{
	memset(m.prod, 0xdd, sizeof *m.prod);
	BUF_abortFrame(m.prod);
	--poolOf(m.prod)->used;
	m.prod = NULL;
}
static void took(const struct OPENSKY_RawFrame * f)
{
	if (!m.nq) {
		mc_assert(!f, "a frame was delivered from an empty queue");
		return;
	}
	mc_assert(f, "nothing delivered although the queue is not empty");
	mc_assert(f == m.q[0].p, "not the oldest frame was delivered");
	checkFrame(f, m.q[0].id);
	m.cons = f;
	m.consId = m.q[0].id;
	memmove(m.q, m.q + 1, (m.nq - 1) * sizeof *m.q);
	memset(m.q + --m.nq, 0, sizeof *m.q);
}
static struct timespec wantTs;
static void onTimed(const struct timespec * ts, bool to)
{
	mc_assert(ts->tv_sec == wantTs.tv_sec && ts->tv_nsec == wantTs.tv_nsec,
		"waits until %ld.%09ld instead of %ld.%09ld", ts->tv_sec, ts->tv_nsec, wantTs.tv_sec, wantTs.tv_nsec);
	mc_assert(to, "woken up without frame");
}
extern void (*mc_on_timedwait)(const struct timespec *, bool);
static void opGetTimeout(void)
{
	static const unsigned ms[] = { 0, 1500, 2001 };
	unsigned t = 0;
	if (!m.nq) {
		t = ms[mc_choose(3, "timeout")];
		mc_time_ns = mc_choose(2, "clock") ? 999000000 : 0;
	}
	uint64_t ns = mc_time_ns + (uint64_t)t * 1000000;
	wantTs.tv_sec = mc_time_s + ns / 1000000000;
	wantTs.tv_nsec = ns % 1000000000;
	mc_on_timedwait = &onTimed;
	took(BUF_getFrameTimeout(t));
	mc_on_timedwait = NULL;
	mc_time_ns = 0;
	memset(&wantTs, 0, sizeof wantTs);
}
static void opRelease(void)
{
	checkFrame(m.cons, m.consId);
	memset((void *)m.cons, 0xdd, sizeof *m.cons);
	BUF_releaseFrame(m.cons);
	--poolOf(m.cons)->used;
	m.cons = NULL;
	m.consId = 0;
}
static void opPut(void)
{
	checkFrame(m.cons, m.consId);
	BUF_putFrame(m.cons);
	memmove(m.q + 1, m.q, m.nq * sizeof *m.q);
	m.q[0].p = m.cons;
	m.q[0].id = m.consId;
	++m.nq;
	m.cons = NULL;
	m.consId = 0;
	queueGrew();
}
static void opFlush(bool unless)
{
	if (unless) {
		BUF_flushUnlessHistoryEnabled();
		if (cHist)
			return;
	} else
		BUF_flush();
	while (m.nq) {
		if (macro)
			memset((void *)m.q[0].p, 0xdd, sizeof *m.q[0].p);
		drop(0);
	}
	++m.st.flushes;
}
static void modelGC(void)
{
	++m.st.GCruns;
	for (unsigned i = 1; i < m.npool; ++i) {
		struct MPool * p = &m.pool[i];
		p->collected = p->size - p->used;
		if (!p->used) {
			mc_assert(!mc_heap_valid(p->base), "a completely unused increment was not freed");
			memmove(p, p + 1, (m.npool - i - 1) * sizeof *p);
			memset(&m.pool[--m.npool], 0, sizeof *p);
			--i;
		}
	}
	mc_assert(mc_heap_blocks() == baseBlocks + perPool * (m.npool - 1), "memory of increments not freed correctly");
	/* frames in use must still be there, unchanged */
	for (unsigned i = 0; i < m.nq; ++i) {
		mc_assert(mc_heap_valid(m.q[i].p), "a queued frame was freed");
		checkFrame(m.q[i].p, m.q[i].id);
	}
	mc_assert(!m.prod || mc_heap_valid(m.prod), "the frame being produced was freed");
	mc_assert(!m.cons || mc_heap_valid(m.cons), "the frame being consumed was freed");
}
/* garbage collector thread */
static bool p_tick(void * a) { (void)a; return tick; }
static void onSleep(uint64_t us)
{
	mc_assert(us == 77000000, "garbage collector sleeps %lu us instead of its interval", (unsigned long)us);
	mc_block(&p_tick, NULL, true, "gc interval");
	tick = false;
}
static void gcMain(void * a) { (void)a; BUF_comp.main(); }
static bool p_idle(void * a) { (void)a; return !tick && mc_thread_wait(gcThread); }
static void opTick(void)
{
	bool expect = m.nq < ((m.npool - 1) * cDyn) / cGcLevel;
	tick = true;
	mc_block(&p_idle, NULL, false, "gc done");
	if (expect)
		modelGC();
}
static void opReset(void)
{
	BUF_comp.onReset();
	memset(&m.st, 0, sizeof m.st);
}
static void construct(void)
{
	mc_assert(BUF_comp.onConstruct(), "construction failed");
	memset(m.pool, 0, sizeof m.pool);
	m.npool = 1;
	m.pool[0].size = cStat;
	/* find the static pool's block */
	struct OPENSKY_RawFrame * f = BUF_newFrame();
	m.pool[0].base = mc_heap_base(f);
	mc_assert(m.pool[0].base, "static frames are not on the heap");
	baseBlocks = mc_heap_blocks();
	memset(f, 0xdd, sizeof *f);
	BUF_abortFrame(f);
	m.st.discardedCur = 0;
}
static void destruct(void)
{
	BUF_comp.onDestruct();
	mc_assert(mc_heap_blocks() == 0, "destruction left %u blocks allocated", mc_heap_blocks());
	m.nq = 0;
	memset(m.q, 0, sizeof m.q);
	m.prod = NULL; m.cons = NULL; m.consId = 0;
}
/* large buffers: filled until the first loss, drained and collected, twice */
static void fill(void)
{
	unsigned cap = cStat + (cHist ? cInc * cDyn : 0);
	struct BUFFER_Statistics s;
	unsigned incs = cHist ? cInc : 0;
	for (unsigned round = 0; round < 2; ++round) {
		BUF_comp.onReset();
		for (unsigned i = 0; i <= cap; ++i) {
			struct OPENSKY_RawFrame * f = BUF_newFrame();
			mc_assert(f, "no frame for production");
			BUFFER_getStatistics(&s);
			mc_assert(s.discardedAll == (i == cap), "%lu frames lost after %u of %u", (unsigned long)s.discardedAll, i, cap);
			f->rawLen = 4;
			memcpy(f->raw, &i, 4);
			BUF_commitFrame(f);
		}
		BUFFER_getStatistics(&s);
		mc_assert(s.queueSize == cap && s.poolSize == 0, "the full buffer counts %lu frames and %lu free ones instead of %u", (unsigned long)s.queueSize, (unsigned long)s.poolSize, cap);
		mc_assert(s.maxQueueSize == cap, "longest queue is %lu instead of %u", (unsigned long)s.maxQueueSize, cap);
		mc_assert(s.dynPools == incs, "%lu increments instead of %u", (unsigned long)s.dynPools, incs);
		mc_assert((!round || mc_heap_blocks() == baseBlocks + perPool * incs), "unexpected number of allocations");
		if (incs) perPool = (mc_heap_blocks() - baseBlocks) / incs;
		/* collection of a full buffer changes nothing */
		BUF_runGC();
		for (unsigned i = 1; i <= cap; ++i) {
			const struct OPENSKY_RawFrame * f = BUF_getFrame();
			unsigned v;
			memcpy(&v, f->raw, 4);
			mc_assert(f->rawLen == 4 && v == i, "frame %u delivered instead of %u", v, i);
			BUF_releaseFrame(f);
		}
		BUFFER_getStatistics(&s);
		mc_assert(s.queueSize == 0 && s.poolSize == cap, "the empty buffer counts %lu frames and %lu free ones", (unsigned long)s.queueSize, (unsigned long)s.poolSize);
		BUF_runGC();
		BUFFER_getStatistics(&s);
		mc_assert(s.dynPools == 0 && s.poolSize == cStat, "after collection there are %lu increments and %lu free frames", (unsigned long)s.dynPools, (unsigned long)s.poolSize);
		mc_assert(mc_heap_blocks() == baseBlocks, "memory of increments not freed");
	}
	mc_eval(true);
	mc_outcome("capacity", cap);
	mc_sample("%u static frames and %u increments of %u", cStat, incs, cDyn);
	/* destroyed while it is full */
	for (unsigned i = 0; i <= cap; ++i) BUF_commitFrame(BUF_newFrame());
}

void mc_harness(void)
{
	const struct CFG_Section * c = BUF_comp.config;
	int depth = mc_param("depth", 8);
	cStat = mc_param("stat", 2); cDyn = mc_param("dyn", 1); cInc = mc_param("inc", 2);
	macro = mc_param("macro", 0);
	cHist = mc_param("hist", 0); cGcLevel = mc_param("gclevel", 2);
	bool gcOps = mc_param("gc", 0), cycle = mc_param("cycle", 0), times = mc_param("times", 0);
	cfg_int(c, "StaticBacklog", cStat); cfg_int(c, "DynamicBacklog", cDyn);
	cfg_int(c, "DynamicIncrements", cInc); cfg_bool(c, "History", cHist);
	cfg_bool(c, "GC", gcOps && cHist); cfg_int(c, "GCInterval", 77); cfg_int(c, "GCLevel", cGcLevel);
	unsigned gStat = cStat, gDyn = cDyn, gInc = cInc, gLevel = cGcLevel;
	mc_assert(cfg_accept(c), "configuration refused");
	cStat = *(uint32_t *)cfg_opt(c, "StaticBacklog")->var;
	cDyn = *(uint32_t *)cfg_opt(c, "DynamicBacklog")->var;
	cInc = *(uint32_t *)cfg_opt(c, "DynamicIncrements")->var;
	cGcLevel = *(uint32_t *)cfg_opt(c, "GCLevel")->var;
	mc_assert(cStat == (gStat < 2 ? 2 : gStat), "%u static frames configured, %u used", gStat, cStat);
	mc_assert(cDyn == (gDyn < 1 ? 1 : gDyn), "%u frames per increment configured, %u used", gDyn, cDyn);
	mc_assert(cInc == gInc, "%u increments configured, %u used", gInc, cInc);
	mc_assert(cGcLevel == (gLevel < 1 ? 1 : gLevel), "fraction 1/%u configured for the garbage collector, 1/%u used", gLevel, cGcLevel);
	mc_assert(*(bool *)cfg_opt(c, "History")->var == cHist, "history is not what is configured");
	mc_assert(*(uint32_t *)cfg_opt(c, "GCInterval")->var == 77, "interval of the garbage collector is not what is configured");
	if (cHist) mc_assert((!BUF_comp.start || *BUF_comp.start) == gcOps, "garbage collector is %sstarted", gcOps ? "not " : "");
	mc_preempt_budget = 0;
	if (mc_param("nomem0", 0)) {
		/* construction without memory must fail cleanly */
		mc_malloc_budget = 1;
		if (!BUF_comp.onConstruct()) {
			mc_assert(mc_malloc_failed, "construction failed although there is memory");
			mc_assert(mc_heap_blocks() == 0, "failed construction leaks memory");
		} else {
			mc_assert(!mc_malloc_failed, "construction claims success without memory");
			destruct();
		}
		mc_malloc_budget = 0;
	}
	construct();
	if (mc_param("fill", 0)) {
		fill();
		destruct();
		return;
	}
	if (gcOps && cHist) {
		mc_on_sleep = &onSleep;
		gcThread = mc_thread(&gcMain, NULL, "gc");
		/* let it reach its first sleep */
		mc_block(&p_idle, NULL, false, "gc started");
	}
	mc_malloc_budget = mc_param("nomem", 0);
	for (int d = 0; d < depth; ++d) {
		void * ops[16]; int n = 0;
		enum { NEW, COMMIT, ABORT, GET, RELEASE, PUT, FLUSH, FLUSHU, GC, TICK, RESET, CYCLE, PUSH, POP };
		int op[16];
		(void)ops;
		if (macro) {
			op[n++] = PUSH;
			if (m.cons) { op[n++] = RELEASE; op[n++] = PUT; }
			else if (m.nq) { op[n++] = POP; if (mc_param("hold", 0)) op[n++] = GET; }
			if (m.nq && macro == 1) op[n++] = FLUSH;
			op[n++] = GC;
			if (gcThread >= 0 && macro == 1) op[n++] = TICK;
		} else {
		if (m.prod) { op[n++] = COMMIT; op[n++] = ABORT; }
		else op[n++] = NEW;
		if (m.cons) { op[n++] = RELEASE; op[n++] = PUT; }
		else if (m.nq || times) op[n++] = GET;
		if (m.nq) op[n++] = FLUSH;
		op[n++] = FLUSHU;
		if (gcOps) { op[n++] = GC; if (gcThread >= 0) op[n++] = TICK; }
		op[n++] = RESET;
		if (cycle) op[n++] = CYCLE;
		}
		int o = op[mc_choose(n, "operation")];
		static const char * const names[] = { "new", "commit", "abort", "get", "release", "put", "flush", "flushU", "gc", "tick", "reset", "cycle", "push", "pop" };
		mc_note("%s", names[o]);
		switch (o) {
		case NEW: opNew(); break;
		case COMMIT: opCommit(); break;
		case ABORT: opAbort(); break;
		case GET: opGetTimeout(); break;
		case RELEASE: opRelease(); break;
		case PUT: opPut(); break;
		case FLUSH: opFlush(false); break;
		case FLUSHU: opFlush(true); break;
		case GC: BUF_runGC(); modelGC(); break;
		case TICK: opTick(); break;
		case RESET: opReset(); break;
		case PUSH: opNew(); opCommit(); break;
		case POP: opGetTimeout(); opRelease(); break;
		case CYCLE: destruct(); construct(); break;
		}
		checkStats();
		if (macro == 1) /* such that histories meet again */
			opReset();
	}
	destruct();
}
