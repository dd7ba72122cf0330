/* Z01: the real components together, as the daemon assembles them */
#include "socks.h"
#include "relay.h"
#include "core/network.h"
#include "core/recv.h"
#include "core/tb.h"
#include "core/input.h"
#include "core/filter.h"

static struct Session ses[SK_MAX];
static int gcRuns, frames, cmds, ifails, reconfigured, delivered, logged_out;
static bool failed, connected, running, constructed, rejects;

/* ---- the server ---- */
ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	sk_event();
	mc_sched("send");
	mc_testcancel();
	mc_assert(flags & MSG_NOSIGNAL, "sending may raise SIGPIPE");
	mc_assert(running, "sending after the end");
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "send");
	struct Session * s = &ses[fd - SK_BASE];
	on_message(s, p, n);
	if (c->shut || c->broken || (skBreaks > 0 && mc_choose(2, "sending fails"))) {
		if (!c->shut && !c->broken) --skBreaks;
		c->broken = true;
		on_failed(p);
		errno = EPIPE;
		return -1;
	}
	on_sent(s, p);
	return n;
}
static bool p_rx(void * a)
{
	struct Conn * c = a;
	return c->shut || c->broken || skBreaks > 0 || cmds > 0;
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	sk_event();
	mc_assert(running, "receiving after the end");
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "recv");
	mc_assert(reconfigured == delivered, "a command was received, but not executed");
	skUse[mc_self()] = fd;
	mc_block(&p_rx, c, true, "recv");
	skUse[mc_self()] = 0;
	bool ended = c->shut || c->broken;
	if (cmds > 0 && (skBreaks > 0 || ended ? mc_choose(2, "command") : 1)) {
		static const uint8_t cmd[] = { 0, TB_PACKET_TYPE_FILTER, 0, 6, 2, 2 };
		mc_assert(n >= 6, "no room for a command");
		memcpy(p, cmd, 6);
		--cmds;
		++delivered;
		mc_outcome("command", ended);
		return 6;
	}
	if (!ended) --skBreaks;
	c->broken = true;
	return 0;
}

/* ---- the receiver ---- */
static bool in_construct() { mc_assert(!constructed, "input is constructed twice"); return constructed = true; }
static void in_destruct() { mc_assert(constructed && !connected, "input is destructed while in use"); constructed = false; }
const struct Component INPUT_comp = { .description = "INPUT", .onConstruct = in_construct, .onDestruct = in_destruct, .dependencies = { NULL } };
static int recvId;
/** everybody else waits (the others' timeouts are longer) */
static bool p_wake(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (i != recvId && !mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i)))
			return false;
	return true;
}
void INPUT_connect()
{
	mc_assert(running && constructed, "input is connected at the wrong time");
	mc_assert(!connected, "input is connected twice");
	mc_sched("connect input");
	mc_testcancel();
	if (failed) { /* the device is not there yet */
		failed = false;
		sk_event();
		recvId = mc_self();
		mc_block(&p_wake, NULL, true, "wait for the device");
	}
	connected = true;
}
void INPUT_disconnect()
{
	mc_assert(connected, "input is disconnected twice");
	connected = false;
}
void INPUT_reconfigure() { ++reconfigured; mc_assert(running, "reconfiguring after the end"); }
static bool p_in(void * a) { return frames > 0 || ifails > 0; }
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * d)
{
	mc_assert(connected, "reading from a disconnected input");
	committed = committing;
	sk_event();
	mc_block(&p_in, NULL, true, "input");
	if (ifails > 0 && (frames <= 0 || mc_choose(2, "input fails"))) { --ifails; failed = true; return false; }
	--frames;
	raw->rawLen = 3;
	raw->raw[0] = 0x1a;
	memset(d, 0, sizeof *d);
	d->mlat = 5;
	if (rejects && mc_choose(2, "rejected")) {
		d->frameType = OPENSKY_FRAME_TYPE_MODE_AC;
		raw->raw[1] = '1';
		raw->raw[2] = 0xee;
		return true;
	}
	d->frameType = OPENSKY_FRAME_TYPE_MODE_S_LONG;
	d->payload[0] = 17 << 3;
	d->payloadLen = 14;
	raw->raw[1] = '3';
	raw->raw[2] = ++committing;
	return true;
}

static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i) || !strcmp(mc_thread_wait(i), "sleep")))
			return false;
	return true;
}
static bool p_stop(void * a) { return skEvents >= skStopAt || p_quiet(NULL); }

static void on_sleep(uint64_t us)
{
	if (us == 120000000) { /* garbage collector */
		if (gcRuns > 0 && mc_choose(2, "collect now")) --gcRuns;
		else mc_block(&sk_never, NULL, true, "wait for the next collection");
	}
	else sk_sleep(us);
}
static void start(void)
{
	running = true;
	mc_assert(COMP_startAll(), "starting fails");
}
static void stop(void)
{
	skStop = true;
	mc_timeouts_eager = false;
	COMP_stopAll();
	memset(skUse, 0, sizeof skUse);
	running = false;
	skStop = false;
	skSlept = true;
	timedOut = false;
	mc_assert(mc_live_threads() == 1, "%d threads run after the end", mc_live_threads() - 1);
	mc_assert(!sk_open(), "%d connections stay open", sk_open());
	mc_assert(!connected, "the input stays connected");
	mc_assert(mc_locks_held(0) == 0, "locks are held");
	/* no lock is held by anybody: all of these need one */
	struct NET_Statistics n;
	NET_getStatistics(&n);
	mc_assert(!n.isOnline, "online after the end");
	mc_assert(!NET_checkConnected(), "connected after the end");
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	committed = committing;
	/* every accepted frame was sent, is in the buffer or was discarded */
	mc_assert(b.poolSize + b.queueSize == (size_t)mc_param("stat", 4), "%u of %ld frames are in the pool, %u in the queue", (unsigned)b.poolSize, mc_param("stat", 4), (unsigned)b.queueSize);
	if (pHist) mc_assert(committing - lastSent <= b.queueSize + b.discardedAll, "%u frames were not sent, but only %u are buffered", committing - lastSent, (unsigned)b.queueSize);
	mc_assert(mc_param("gc", 0) || reconfigured <= delivered, "commands were made up");
	reconfigured = delivered; /* a command may get lost now */
}
static void init(void)
{
	mc_assert(COMP_initAll(), "initialization fails");
	firstPut = 0;
	nextExp = committing + 1;
	gaps = 0;
}
/** everything has to get through now */
static void finish(void)
{
	mc_block(&p_quiet, NULL, false, "end");
	mc_preempt_budget = 0;
	skBreaks = skFails = ifails = 0;
	rejects = false;
	mc_assert(sk_online(), "not connected in the end");
	/* the relay may not have noticed yet that the connection was lost: the
	 * next message shows it */
	int guard = 5;
	while (guard-- && ses[skN - 1].stage != 3) {
		mc_timeouts_eager = true; mc_timeout_budget = 1;
		mc_sched("time passes");
		mc_block(&p_quiet, NULL, false, "end");
		++frames;
		mc_block(&p_quiet, NULL, false, "end");
	}
	++frames;
	mc_block(&p_quiet, NULL, false, "end");
	mc_assert(ses[skN - 1].stage == 3, "not logged in");
	mc_assert(connected, "the input is not connected");
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	mc_assert(b.queueSize == 0, "frames are not sent although there is a connection");
	mc_assert(lastSent == committing, "the last frame was not sent");
	mc_assert(!pHist || gaps == b.discardedAll, "%u frames were lost, but %u discarded", gaps, (unsigned)b.discardedAll);
	mc_assert(!pHist || mc_param("stat", 4) < 5 || !gaps, "frames were discarded although there is room");
	mc_assert(reconfigured == delivered, "%d of %d commands were executed", reconfigured, delivered);
	mc_timeouts_eager = false;
	mc_assert(!delivered || FILTER_getConfiguration()->extSquitter, "the filter was not configured");
}
void mc_harness(void)
{
	pHist = mc_param("hist", 1); serialFails = mc_param("sfails", 0);
	frames = mc_param("frames", 1); skBreaks = mc_param("breaks", 1); skFails = mc_param("cfails", 0); cmds = mc_param("cmds", 0); ifails = mc_param("ifails", 0);
	gcRuns = mc_param("gc", 0);
	rejects = mc_param("rejects", 0);
	int nstop = mc_param("stop", 0), again = mc_param("again", 0), stat = mc_param("stat", 4);
	COMP_register(&TB_comp);
	COMP_register(&RELAY_comp);
	COMP_register(&RECV_comp);
	COMP_fixup();
	CFG_loadDefaults();
	const struct CFG_Section * c = BUF_comp.config;
	cfg_int(c, "StaticBacklog", stat); cfg_int(c, "DynamicBacklog", 1); cfg_int(c, "DynamicIncrements", 0);
	cfg_bool(c, "History", pHist); cfg_bool(c, "GC", mc_param("gc", 0)); cfg_int(c, "GCInterval", 120); cfg_int(c, "GCLevel", 1);
	pTimeout = mc_param("timeout", 1500);
	cfg_int(RELAY_comp.config, "Timeout", pTimeout);
	cfg_bool(FILTER_comp.config, "SyncFilter", false);
	cfg_bool(FILTER_comp.config, "ModeSExtSquitterOnly", false);
	mc_assert(CFG_check(), "configuration is refused");
	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_BOGUS);
	LOGIN_setUsername("u");
	GPS_reset(); GPS_resetNeedFlag();
	mc_time_s = 1000; mc_time_ns = 999000000;
	mc_on_timedwait = &on_timed;
	mc_timeouts_on = true;
	mc_timeouts_eager = mc_param("tmo", 0) > 0; mc_timeout_budget = mc_param("tmo", 0);
	mc_on_sleep = &on_sleep;
	unsigned blocks = mc_heap_blocks();
	init();
	mc_preempt_budget = mc_param("preempt", 1);
	start();
	if (nstop) {
		skStopAt = mc_choose(nstop, "stop after");
		mc_block(&p_stop, NULL, false, "until stop");
		stop();
		mc_outcome("stopped after", skStopAt);
		if (again == 2) {
			COMP_destructAll();
			mc_assert(mc_heap_blocks() == blocks, "memory is leaked");
			init();
		}
		mc_preempt_budget = 0;
		if (again) start();
	}
	if (!nstop || again) {
		finish();
		stop();
	}
	COMP_destructAll();
	mc_assert(!constructed, "the input is not destructed");
	mc_assert(mc_heap_blocks() == blocks, "memory is leaked");
	COMP_unregisterAll();
	CFG_unregisterAll();
	mc_assert(!mc_heap_blocks(), "memory is leaked in the end");
	mc_outcome("connections", skN);
	mc_eval(lastSent);
}
