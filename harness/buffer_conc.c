/* B03: producer, consumer, a third thread and cancellation on the real buffer,
 * all interleavings of their lock operations. */
#include "common.h"
#include "core/buffer.h"
#include <pthread.h>

__attribute__((weak)) bool mc_race_on;
static int nP, nC, xop, mode, doAbort, doPut, canceller;
static int tP = -1, tC = -1, tX = -1;
static unsigned committed, released, lastId, putId, flushBound, nflush;
static uint8_t fate[32]; /* 1: delivered and released */
static bool holding;

static void fill(struct OPENSKY_RawFrame * f, unsigned id)
{
	mc_mem_access(f, sizeof *f, true, 0);
	memset(f->raw, id * 7, sizeof f->raw);
	f->raw[0] = id;
	f->rawLen = id + 3;
}
static unsigned check(const struct OPENSKY_RawFrame * f)
{
	mc_mem_access(f, sizeof *f, false, 0);
	unsigned id = f->raw[0];
	mc_assert(id >= 1 && id <= 31 && f->rawLen == id + 3, "a corrupted frame was delivered");
	for (unsigned i = 1; i < sizeof f->raw; ++i)
		mc_assert(f->raw[i] == (uint8_t)(id * 7), "a corrupted frame was delivered");
	return id;
}
static void producer(void * a)
{
	(void)a;
	if (doAbort) {
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		fill(f, 31);
		BUF_abortFrame(f);
	}
	for (int i = 0; i < nP; ++i) {
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		mc_assert(f, "no frame for production");
		fill(f, i + 1);
		committed = i + 1;
		BUF_commitFrame(f);
	}
}
extern void (*mc_on_timedwait)(const struct timespec *, bool);
static bool timeIsUp;
static void onTimed(const struct timespec * ts, bool to) { (void)ts; timeIsUp |= to; }
static void putBack(void * p)
{
	const struct OPENSKY_RawFrame ** f = p;
	if (*f)
		BUF_putFrame(*f);
	holding = false;
}
static void consumer(void * a)
{
	(void)a;
	static const struct OPENSKY_RawFrame * f;
	f = NULL;
	pthread_cleanup_push(&putBack, &f);
	int puts = doPut;
	for (int i = 0; i < nC || nC < 0; ++i) {
		timeIsUp = false;
		f = mode ? BUF_getFrameTimeout(100) : BUF_getFrame();
		if (!f) {
			mc_assert(mode, "no frame returned");
			mc_assert(timeIsUp, "the consumer gives up before its time is over");
			mc_outcome("timeout", 0);
			continue;
		}
		holding = true;
		unsigned id = check(f);
		mc_outcome("got", id);
		mc_assert(id > lastId, "frame %u delivered again or after a later one (%u)", id, lastId);
		mc_assert(id >= putId, "frame %u delivered after the later frame %u was put back", id, putId);
		mc_assert(id != 31, "an aborted frame was delivered");
		mc_sched("consume");
		mc_testcancel();
		mc_assert(check(f) == id, "frame changed while it was consumed");
		if (puts) {
			--puts;
			putId = id;
			const struct OPENSKY_RawFrame * g = f;
			f = NULL;
			BUF_putFrame(g);
			holding = false;
		} else {
			lastId = id;
			fate[id] = 1;
			++released;
			const struct OPENSKY_RawFrame * g = f;
			f = NULL;
			BUF_releaseFrame(g);
			holding = false;
		}
	}
	pthread_cleanup_pop(0);
}
static int nreset;
static unsigned gcRounds;
static void onSleep(uint64_t us)
{
	mc_assert(us == 5000000, "garbage collector sleeps %lu us instead of its interval", (unsigned long)us);
	mc_assert(mc_locks_held(mc_self()) == 0, "the garbage collector sleeps with a lock held");
	mc_sched("gc interval");
	if (!gcRounds--) mc_cancel(mc_self());
	mc_testcancel();
}
static void third(void * a)
{
	(void)a;
	struct BUFFER_Statistics s;
	for (int x = xop; x; x /= 10)
		switch (x % 10) {
		case 1:
			BUF_flush();
			flushBound = committed;
			++nflush;
			break;
		case 2: BUF_runGC(); break;
		case 3:
			BUFFER_getStatistics(&s);
			mc_assert(s.queueSize <= s.maxQueueSize || s.flushes || nreset, "statistics are inconsistent");
			mc_assert(s.queueSize <= (unsigned)nP, "more frames queued than committed");
			break;
		case 4: BUF_flushUnlessHistoryEnabled(); flushBound = committed; ++nflush; break;
		case 6: gcRounds = 2; BUF_comp.main(); mc_fail("the garbage collector ended");
		case 7: ++nreset; BUF_comp.onReset(); break;
		case 5: mc_cancel(tC); mc_outcome("cancelled holding", holding); break;
		}
}
static bool p_quiet(void * a)
{
	(void)a;
	if (!mc_thread_done(tP) || (tX >= 0 && !mc_thread_done(tX)))
		return false;
	return mc_thread_done(tC) || (mc_thread_wait(tC) && !mc_thread_ready(tC));
}
static bool p_cdone(void * a) { (void)a; return mc_thread_done(tC); }

void mc_harness(void)
{
	const struct CFG_Section * c = BUF_comp.config;
	nP = mc_param("p", 3); nC = mc_param("c", -1); xop = mc_param("x", 0); mode = mc_param("mode", 0);
	doAbort = mc_param("abort", 0); doPut = mc_param("put", 0);
	bool hist = mc_param("hist", 0);
	cfg_int(c, "StaticBacklog", mc_param("stat", 2)); cfg_int(c, "DynamicBacklog", mc_param("dyn", 1));
	cfg_int(c, "DynamicIncrements", mc_param("inc", 1)); cfg_bool(c, "History", hist);
	cfg_bool(c, "GC", false); cfg_int(c, "GCInterval", 5); cfg_int(c, "GCLevel", 2);
	mc_assert(cfg_accept(c), "configuration refused");
	mc_race_on = mc_param("race", 0);
	mc_assert(BUF_comp.onConstruct(), "construction failed");
	mc_preempt_budget = mc_param("preempt", 2);
	mc_on_timedwait = &onTimed;
	mc_on_sleep = &onSleep;
	mc_timeouts_eager = mode;
	mc_timeout_budget = mc_param("timeouts", 2);
	mc_spurious_budget = mc_param("spurious", 0);
	tC = mc_thread(&consumer, NULL, "consumer");
	tP = mc_thread(&producer, NULL, "producer");
	if (xop)
		tX = mc_thread(&third, NULL, "third");
	mc_timeouts_on = true;
	mc_block(&p_quiet, NULL, false, "end");
	mc_preempt_budget = 0;
	mc_timeouts_on = false;
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	if (!mc_thread_done(tC)) {
		/* the consumer waits: there must be nothing to consume */
		mc_assert(s.queueSize == 0, "the consumer sleeps although %lu frame(s) are queued", (unsigned long)s.queueSize);
		mc_cancel(tC);
		mc_block(&p_cdone, NULL, false, "consumer cancelled");
	}
	BUFFER_getStatistics(&s);
	/* the remaining ones */
	unsigned left = 0;
	mc_timeouts_on = true;
	while (true) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		if (!f)
			break;
		unsigned id = check(f);
		mc_assert(id > lastId && id >= putId, "frame %u left in the queue after %u", id, lastId);
		lastId = id;
		fate[id] = 1;
		++left;
		BUF_releaseFrame(f);
	}
	mc_assert(left == s.queueSize, "queue length %lu, but %u frames queued", (unsigned long)s.queueSize, left);
	/* accounting */
	unsigned lost = 0;
	for (unsigned i = 1; i <= (unsigned)nP; ++i)
		if (!fate[i]) {
			++lost;
			mc_assert(i <= flushBound || s.discardedAll || nreset, "frame %u was lost although nothing was discarded", i);
		}
	mc_assert(committed == (unsigned)nP, "producer did not finish");
	mc_assert(!holding, "frame still in use");
	if (nflush + nreset == 0)
		mc_assert(lost == s.discardedAll, "%u frames lost, but %lu reported as discarded", lost, (unsigned long)s.discardedAll);
	else
		mc_assert(lost >= s.discardedAll, "%u frames lost, but %lu reported as discarded", lost, (unsigned long)s.discardedAll);
	if (hist)
		mc_assert(!s.discardedAll || nreset || s.dynPoolsMax == (unsigned)mc_param("inc", 1), "frames discarded although the buffer could grow");
	mc_outcome("lost", lost);
	mc_outcome("left", left);
	struct BUFFER_Statistics e;
	BUF_runGC();
	BUFFER_getStatistics(&e);
	mc_assert(e.queueSize == 0 && e.poolSize == (unsigned)mc_param("stat", 2) && e.dynPools == 0,
		"frames got lost for the buffer: %lu free static frames, %lu increments", (unsigned long)e.poolSize, (unsigned long)e.dynPools);
	BUF_comp.onDestruct();
	mc_assert(mc_heap_blocks() == 0, "memory leaked");
}
