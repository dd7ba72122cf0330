/* L01: relay, login and buffer with a network that fails anywhere */
#include "relay.h"
#include "core/network.h"

static int conns, breaks, tRelay, tProd, frames;
static bool online;
static struct Session ses;
static unsigned events, stopAt;

bool GPS_sendPosition(void)
{
	if (!position) return true;
	static const uint8_t m[] = { 0x1a, OPENSKY_FRAME_TYPE_GPS_POSITION, 1 };
	return NET_send(m, sizeof m);
}
static bool p_conn(void * a) { (void)a; return conns > 0; }
void NET_waitConnected()
{
	mc_block(&p_conn, NULL, true, "wait for connection");
	if (!online || ses.lost) --conns;
	else if (ses.stage == 3) mc_fail("waiting for a connection although it works");
	online = true;
	memset(&ses, 0, sizeof ses);
}
void NET_syncSender() {}
void GPS_resetNeedFlag(void) {}
bool NET_send(const void * b, size_t n)
{
	if (events < stopAt) ++events;
	mc_sched("send");
	mc_testcancel();
	mc_assert(online, "sending although the connection is lost");
	on_message(&ses, b, n);
	if (breaks > 0 && mc_choose(2, "sending fails")) {
		--breaks;
		online = false;
		on_failed(b);
		return false;
	}
	on_sent(&ses, b);
	return true;
}
static void relay(void * a) { (void)a; RELAY_comp.main(); }
static void producer(void * a)
{
	(void)a;
	for (int i = 1; i <= frames; ++i) commit(i);
}
static bool p_quiet(void * a)
{
	(void)a;
	return mc_thread_done(tProd) && mc_thread_wait(tRelay) && !mc_thread_ready(tRelay);
}
static bool p_stop(void * a) { return events >= stopAt || p_quiet(a); }
static bool p_done(void * a) { (void)a; return mc_thread_done(tRelay); }
static bool p_prod(void * a) { (void)a; return mc_thread_done(tProd); }
void mc_harness(void)
{
	setup();
	frames = mc_param("frames", 3); breaks = mc_param("breaks", 1); conns = 1 + breaks + serialFails;
	int nstop = mc_param("stop", 0), again = mc_param("again", 0);
	mc_timeouts_eager = mc_param("tmo", 1) > 0; mc_timeout_budget = mc_param("tmo", 1);
	mc_spurious_budget = mc_param("spurious", 0);
	mc_timeouts_on = true;
	mc_preempt_budget = mc_param("preempt", 3);
	tRelay = mc_thread(&relay, NULL, "relay");
	tProd = mc_thread(&producer, NULL, "producer");
	do {
		stopAt = nstop ? mc_choose(nstop, "stop after") : 1000000;
		mc_block(nstop ? &p_stop : &p_quiet, NULL, false, "end");
		if (!nstop) {
			mc_preempt_budget = 0;
			struct BUFFER_Statistics b;
			BUFFER_getStatistics(&b);
			mc_assert(online && ses.stage == 3, "not logged in although there is a connection");
			mc_assert(b.queueSize == 0, "frames are not sent although there is a connection");
			mc_assert(!timedOut, "no keep-alive was sent after a timeout");
			mc_assert(!pHist || lastSent == committed, "the last frame was not sent");
		}
		mc_cancel(tRelay);
		mc_block(&p_done, NULL, false, "cancel");
		timedOut = false;
		if (online) ses.lost = true;
		if (again) {
			conns += 1; nstop = 0;
			tRelay = mc_thread(&relay, NULL, "relay");
		}
	} while (again--);
	mc_block(&p_prod, NULL, false, "producer");
	mc_preempt_budget = 0;
	leftovers();
}
