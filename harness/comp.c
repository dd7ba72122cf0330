/* C01, C02: component management for all dependency graphs */
#include "common.h"
#include <stdlib.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>

enum { MAXN = 5 };
enum Phase { IDLE, REG, FIXUP, INIT, START, STOP, DESTRUCT, RESET };
static enum Phase phase;
static int N, fails, defers;
static struct Component * comp[MAXN];
static struct CFG_Section sect[MAXN];
static char * desc[MAXN];
static bool dep[MAXN][MAXN], reg[MAXN], closure[MAXN];
static bool enabledV[MAXN], startV[MAXN];
static bool constructed[MAXN], started[MAXN];
static unsigned nReg[MAXN], nSect[MAXN], nReset[MAXN];
static int stack[MAXN], nStack;   /* constructed, in this order */
static bool failed;               /* a construct or start callback failed */
static bool pThreads, pAll;
/* threads */
static int tid[MAXN];             /* thread of a component, 0: none */
static bool cancelled[MAXN];
static int behaviour[MAXN];
static unsigned nThreads;
extern void (*mc_on_thread)(const char * op, int t, int result);
extern void (*mc_on_timedjoin)(const struct timespec * ts);
/* stop passes */
static int pass, pIdx, plist[MAXN], nPlist;
static bool progress, leftover[MAXN];

static bool enabled(int i) { return !comp[i]->enabled || *comp[i]->enabled; }
static bool startable(int i) { return !comp[i]->start || *comp[i]->start; }
static bool threaded(int i) { return comp[i]->main && !comp[i]->onStart; }
static bool stopSeen(int i) { return comp[i]->onStop || (comp[i]->main && !comp[i]->onStop); }

static void on_register(int i)
{
	mc_assert(phase == REG || phase == FIXUP, "component %d registered at the wrong time", i);
	++nReg[i];
	mc_assert(nReg[i] == 1, "component %d is registered twice", i);
	mc_assert(closure[i], "component %d is registered although nothing depends on it", i);
}
void CFG_registerSection(const struct CFG_Section * s)
{
	int i = s - sect;
	mc_assert(i >= 0 && i < N, "unknown section registered");
	mc_assert(++nSect[i] == 1, "configuration of component %d registered twice", i);
}
static bool construct(int i)
{
	mc_assert(phase == INIT && !failed, "component %d constructed at the wrong time", i);
	mc_assert(enabled(i), "component %d is disabled, but constructed", i);
	mc_assert(!constructed[i], "component %d constructed twice", i);
	for (int d = 0; d < N; ++d)
		mc_assert(!dep[i][d] || constructed[d] || !comp[d]->onConstruct, "component %d constructed before component %d, on which it depends", i, d);
	if (fails > 0 && mc_choose(2, "constructing fails")) { --fails; failed = true; return false; }
	constructed[i] = true;
	stack[nStack++] = i;
	return true;
}
static void destruct(int i)
{
	mc_assert((phase == INIT && failed) || phase == DESTRUCT, "component %d destructed at the wrong time", i);
	mc_assert(enabled(i), "component %d is disabled, but destructed", i);
	mc_assert(!started[i], "component %d destructed while running", i);
	if (comp[i]->onConstruct) {
		mc_assert(constructed[i], "component %d destructed, but it is not constructed", i);
		while (nStack && !comp[stack[nStack - 1]]->onDestruct) { --nStack; constructed[stack[nStack]] = false; }
		mc_assert(nStack && stack[nStack - 1] == i, "component %d destructed out of order", i);
		--nStack;
		constructed[i] = false;
	}
	for (int d = 0; d < N; ++d)
		mc_assert(!dep[d][i] || !constructed[d] || !comp[d]->onDestruct, "component %d destructed before component %d, which depends on it", i, d);
}
/** order in which components were constructed */
static int cord[MAXN], nCord;
static void stop_begin(void)
{
	pass = 1; pIdx = 0; nPlist = 0; progress = false;
	for (int k = nCord - 1; k >= 0; --k)
		if (started[cord[k]]) {
			if (stopSeen(cord[k])) plist[nPlist++] = cord[k];
			else started[cord[k]] = false;
		}
	for (int i = 0; i < N; ++i) leftover[i] = false;
}
static void stop_end(void)
{
	mc_assert(pIdx == nPlist, "component %d was not stopped", pIdx < nPlist ? plist[pIdx] : -1);
	bool rest = false;
	for (int i = 0; i < N; ++i) rest |= leftover[i];
	mc_assert(!rest || (pass > 1 && !progress), "components are left running although there was progress");
	pass = 0;
	mc_outcome("stop", rest);
}
static void stop_event(int i, bool deferred, bool ok)
{
	mc_assert(phase == STOP || (phase == START && failed), "component %d stopped at the wrong time", i);
	mc_assert(pass > 0, "component %d stopped at the wrong time", i);
	if (pIdx == nPlist) {
		/* the next attempt */
		mc_assert(pass == 1 || progress, "stopping goes on without progress");
		++pass;
		pIdx = nPlist = 0;
		progress = false;
		for (int k = nCord - 1; k >= 0; --k)
			if (leftover[cord[k]]) plist[nPlist++] = cord[k];
		mc_assert(nPlist, "component %d is stopped again", i);
	}
	mc_assert(plist[pIdx] == i, "component %d stopped, but it is component %d's turn", i, plist[pIdx]);
	++pIdx;
	mc_assert(deferred == (pass > 1), "component %d stopped with deferred = %d in pass %d", i, deferred, pass);
	mc_assert(started[i], "component %d stopped, but it is not running", i);
	leftover[i] = !ok;
	if (ok) { progress = true; started[i] = false; }
}
/** components which are not told that they are started */
static void implicit(int upto)
{
	for (int k = 0; k < nCord && cord[k] < upto; ++k)
		if (startable(cord[k]) && !comp[cord[k]]->onStart && !threaded(cord[k])) started[cord[k]] = true;
}
static bool start(int i)
{
	if (!pAll) implicit(i);
	mc_assert(phase == START && !failed, "component %d started at the wrong time", i);
	mc_assert(enabled(i) && startable(i), "component %d started although it should not", i);
	mc_assert(!started[i], "component %d started twice", i);
	mc_assert(constructed[i] || !comp[i]->onConstruct, "component %d started before it was constructed", i);
	for (int d = 0; d < N; ++d)
		mc_assert(!dep[i][d] || started[d] || !startable(d) || !(comp[d]->onStart || threaded(d)),
			"component %d started before component %d, on which it depends", i, d);
	if (fails > 0 && mc_choose(2, "starting fails")) { --fails; failed = true; stop_begin(); return false; }
	started[i] = true;
	return true;
}
static bool stop(int i, bool deferred)
{
	bool ok = true;
	if (defers > 0 && mc_choose(2, "stopping is deferred")) { --defers; ok = false; }
	stop_event(i, deferred, ok);
	return ok;
}
static bool p_never(void * a) { (void)a; return false; }
static void runs(int i)
{
	mc_assert(started[i] && tid[i] == mc_self() && !behaviour[i], "component %d is running in a wrong thread", i);
	++nThreads;
	behaviour[i] = 1 + mc_choose(3, "behaviour of the thread");
	if (behaviour[i] == 1)
		; /* returns */
	else if (behaviour[i] == 2)
		mc_block(&p_never, NULL, true, "main loop");
	else
		mc_block(&p_never, NULL, false, "stuck");
}
static void reset(int i)
{
	mc_assert(phase == RESET, "component %d reset at the wrong time", i);
	++nReset[i];
}
static void on_thread(const char * op, int t, int result)
{
	if (!strcmp(op, "create")) {
		/* which component? the next one with a thread that has not been started */
		int c = -1;
		for (int k = 0; k < nCord && c < 0; ++k) {
			int i = cord[k];
			if (threaded(i) && !started[i] && enabled(i) && startable(i)) c = i;
		}
		mc_assert(c >= 0 && phase == START && !failed, "a thread is created for no reason");
		if (!pAll) implicit(c);
		if (result) { failed = true; stop_begin(); return; }
		started[c] = true;
		tid[c] = t;
		cancelled[c] = false;
		behaviour[c] = 0;
		return;
	}
	int c = -1;
	for (int i = 0; i < N; ++i) if (tid[i] == t) c = i;
	mc_assert(c >= 0, "%s of a foreign thread", op);
	if (!strcmp(op, "cancel")) {
		mc_assert(!cancelled[c], "component %d cancelled twice", c);
		cancelled[c] = true;
		return;
	}
	mc_assert(phase == STOP || phase == START, "thread of component %d is joined at the wrong time", c);
	bool first = cancelled[c] && !leftover[c];
	stop_event(c, !first, !result);
	if (!result) { tid[c] = 0; cancelled[c] = false; }
}
static void on_timedjoin(const struct timespec * ts)
{
	int64_t d = (ts->tv_sec - mc_time_s) * 1000000000 + ts->tv_nsec - mc_time_ns;
	mc_assert(d > 0 && d <= 1000000000, "waiting %ld ns for the end of a thread", (long)d);
}
#define FN(n) \
	static void reg##n(void) { on_register(n); } \
	static bool con##n(void) { return construct(n); } \
	static void des##n(void) { destruct(n); } \
	static bool sta##n(void) { return start(n); } \
	static bool sto##n(bool d) { return stop(n, d); } \
	static void run##n(void) { runs(n); } \
	static void rst##n(void) { reset(n); }
FN(0) FN(1) FN(2) FN(3) FN(4)
#define FNS(n) { reg##n, con##n, des##n, sta##n, sto##n, run##n, rst##n }
static const struct { void (*reg)(void); bool (*con)(void); void (*des)(void); bool (*sta)(void); bool (*sto)(bool); void (*run)(void); void (*rst)(void); }
	fns[MAXN] = { FNS(0), FNS(1), FNS(2), FNS(3), FNS(4) };

/* ---- what has to happen ---- */
static bool expDup, expCycle, expDisabled;
static void aborted(const char * why)
{
	mc_assert((phase == REG && expDup) || (phase == FIXUP && expCycle) || (phase == INIT && expDisabled), "process terminated in phase %d: %s", phase, why);
	mc_outcome("abort", phase);
	mc_end();
}
static void expectations(void)
{
	bool reach[MAXN][MAXN];
	memcpy(reach, dep, sizeof reach);
	for (int k = 0; k < N; ++k)
		for (int i = 0; i < N; ++i)
			for (int j = 0; j < N; ++j)
				reach[i][j] |= reach[i][k] && reach[k][j];
	for (int i = 0; i < N; ++i) {
		closure[i] = reg[i];
		for (int j = 0; j < N; ++j) closure[i] |= reg[j] && reach[j][i];
	}
	for (int i = 0; i < N; ++i) {
		if (!closure[i]) continue;
		expCycle |= reach[i][i];
		for (int j = 0; j < N; ++j)
			expDisabled |= enabled(i) && dep[i][j] && !enabled(j);
	}
}
static void set_phase(enum Phase p) { phase = p; }

static bool stop_all(void)
{
	set_phase(STOP);
	stop_begin();
	for (int i = 0; i < N; ++i) cancelled[i] = false;
	COMP_stopAll();
	stop_end();
	for (int i = 0; i < N; ++i)
		if (started[i]) return false;
	return true;
}
/** stop until everything stopped */
static void stop_finally(void)
{
	while (!stop_all()) {
		bool stuck = false;
		for (int i = 0; i < N; ++i) stuck |= tid[i] && behaviour[i] == 3;
		if (stuck) {
			mc_outcome("stuck", 0);
			mc_end();
		}
	}
	for (int i = 0; i < N; ++i)
		mc_assert(!tid[i], "the thread of component %d was not joined", i);
}

void mc_harness(void)
{
	N = mc_param("n", 3);
	pThreads = mc_param("threads", 0);
	pAll = mc_param("all", 1);
	int acyclic = mc_param("acyclic", 0);
	bool flags = mc_param("flags", 0), self = mc_param("self", 0), dup = mc_param("dup", 0);
	int dlen = mc_param("dlen", 0);
	mc_preempt_budget = mc_param("preempt", 0);
	mc_timeouts_eager = pThreads;
	mc_timeout_budget = mc_param("tmo", 0);
	mc_on_thread = &on_thread;
	mc_on_timedjoin = &on_timedjoin;
	mc_on_abort = &aborted;
	COMP_setSilent(mc_param("silent", 0));

	int nreg = 1 + mc_choose(N, "number of registered components");
	unsigned heap0 = mc_heap_blocks();
	for (int i = 0; i < N; ++i) {
		comp[i] = malloc(sizeof(struct Component) + (N + 1) * sizeof(struct Component *));
		memset(comp[i], 0, sizeof *comp[i]);
	}
	for (int i = 0; i < N; ++i) {
		desc[i] = malloc(dlen + 8);
		memset(desc[i], 'a' + i, dlen);
		strcpy(desc[i] + dlen, "comp");
		comp[i]->description = desc[i];
		reg[i] = i < nreg;
		int k = 0;
		for (int j = 0; j < N; ++j) {
			if (j == i && !self) continue;
			if (acyclic && (acyclic == 1) == (j > i)) continue;
			if (mc_choose(2, "dependency")) {
				dep[i][j] = true;
				((const struct Component **)comp[i]->dependencies)[k++] = comp[j];
			}
		}
		((const struct Component **)comp[i]->dependencies)[k] = NULL;
		comp[i]->onRegister = fns[i].reg;
		if (i & 1) comp[i]->config = &sect[i];
		if (pAll || mc_choose(2, "has construct")) comp[i]->onConstruct = fns[i].con;
		if (pAll || mc_choose(2, "has destruct")) comp[i]->onDestruct = fns[i].des;
		int kind = pThreads ? (pAll ? 4 : 3 + mc_choose(4, "kind")) : pAll ? 3 : mc_choose(4, "kind");
		/* 0: nothing, 1: start only, 2: stop only, 3: both, 4: thread, 5: both and main function, 6: thread with own stop function -> not used */
		if (kind == 6) kind = 0;
		if (kind == 1 || kind == 3 || kind == 5) comp[i]->onStart = fns[i].sta;
		if (kind == 2 || kind == 3 || kind == 5) comp[i]->onStop = fns[i].sto;
		if (kind == 4 || kind == 5) comp[i]->main = fns[i].run;
		if (pAll || (i & 1)) comp[i]->onReset = fns[i].rst;
		if (flags) {
			int e = mc_choose(3, "enabled"), s = mc_choose(3, "start");
			enabledV[i] = e != 2; startV[i] = s != 2;
			if (e) comp[i]->enabled = &enabledV[i];
			if (s) comp[i]->start = &startV[i];
		}
	}
	expectations();
	fails = mc_param("fails", 1);
	defers = mc_param("defers", 1);
	mc_thread_budget = mc_param("tfails", 0);
	unsigned heap1 = mc_heap_blocks();

	for (int cyc = 0; cyc < mc_param("regs", 1); ++cyc) {
		memset(nReg, 0, sizeof nReg); memset(nSect, 0, sizeof nSect);
		set_phase(REG);
		for (int i = 0; i < nreg; ++i) COMP_register(comp[i]);
		if (dup) {
			int d = mc_choose(nreg + 1, "registered again");
			if (d < nreg) {
				expDup = true;
				COMP_register(comp[d]);
				mc_fail("component %d could be registered twice", d);
			}
		}
		set_phase(FIXUP);
		COMP_fixup();
		if (mc_param("fix2", 0)) COMP_fixup();
		mc_assert(!expCycle, "a cycle of dependencies was not noticed");
		for (int i = 0; i < N; ++i) {
			mc_assert(!closure[i] || nReg[i], "component %d is not registered", i);
			mc_assert(nSect[i] == (nReg[i] && comp[i]->config), "configuration of component %d is not registered", i);
		}
		for (int r = 0; r < mc_param("rounds", 1); ++r) {
			set_phase(INIT);
			failed = false;
			nStack = 0;
			bool ok = COMP_initAll();
			mc_assert(!expDisabled, "a component that needs a disabled one is enabled");
			mc_assert(ok == !failed, "initialisation reports %d", ok);
			mc_outcome("init", ok);
			if (!ok) {
				for (int i = 0; i < N; ++i)
					mc_assert(!constructed[i] || !comp[i]->onDestruct, "component %d was not destructed", i);
				memset(constructed, 0, sizeof constructed);
				continue;
			}
			nCord = 0;
			for (int i = 0; i < N; ++i)
				mc_assert(!closure[i] || !enabled(i) || !comp[i]->onConstruct || constructed[i], "component %d is not constructed", i);
			/* order of components: known if all of them have been seen */
			if (pAll) { nCord = nStack; memcpy(cord, stack, sizeof cord); }
			else {
				/* otherwise they depend on each other in order of their numbers */
				for (int i = 0; i < N; ++i) if (closure[i] && enabled(i)) cord[nCord++] = i;
			}
			for (int s = 0; s < mc_param("starts", 1); ++s) {
				set_phase(START);
				failed = false;
				ok = COMP_startAll();
				mc_assert(ok == !failed, "starting reports %d", ok);
				mc_outcome("start", ok);
				if (!ok) stop_end();
				else
					for (int i = 0; i < N; ++i)
						mc_assert(started[i] == (closure[i] && enabled(i) && startable(i) && (comp[i]->onStart || threaded(i))) || !(comp[i]->onStart || threaded(i)),
							"component %d is not started", i);
				if (ok && !pAll) implicit(N);
				if (ok || mc_choose(2, "stopped after failure")) stop_finally();
				else {
					bool left = false;
					for (int i = 0; i < N; ++i) left |= started[i];
					if (left) stop_finally();
				}
			}
			set_phase(RESET);
			memset(nReset, 0, sizeof nReset);
			COMP_resetAll();
			for (int i = 0; i < N; ++i)
				mc_assert(nReset[i] == (closure[i] && comp[i]->onReset), "component %d reset %u times", i, nReset[i]);
			set_phase(DESTRUCT);
			COMP_destructAll();
			for (int i = 0; i < N; ++i)
				mc_assert(!constructed[i] || !comp[i]->onDestruct, "component %d was not destructed", i);
			memset(constructed, 0, sizeof constructed);
		}
		set_phase(IDLE);
		COMP_unregisterAll();
		mc_assert(mc_heap_blocks() == heap1, "memory is not released");
		mc_eval(nreg < N || N == 1);
	}
	(void)heap0;
}
