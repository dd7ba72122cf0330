/* L01: relay, login, buffer and position on top of the network component */
#include "socks.h"
#include "relay.h"
#include "core/network.h"

static int tNet, tRelay, tRecv, tGps, tProd, frames;
static struct Session ses[SK_MAX];
static int rlFd; static bool rlOk;

ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	mc_sched("send");
	mc_testcancel();
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "send");
	struct Session * s = &ses[fd - SK_BASE];
	on_message(s, p, n);
	if (c->shut || c->broken || (skBreaks > 0 && mc_choose(2, "sending fails"))) {
		if (!c->shut && !c->broken) --skBreaks;
		c->broken = true;
		on_failed(p);
		errno = EPIPE;
		return -1;
	}
	on_sent(s, p);
	return n;
}
static bool p_rx(void * a)
{
	struct Conn * c = a;
	return c->shut || c->broken || skBreaks > 0;
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "recv");
	mc_block(&p_rx, c, true, "recv");
	if (!c->shut && !c->broken) --skBreaks;
	c->broken = true;
	return 0;
}
static void relay(void * a) { (void)a; RELAY_comp.main(); }
static void net(void * a) { (void)a; NET_comp.main(); }
static void receiver(void * a)
{
	(void)a;
	uint8_t b[4];
	while (true) {
		NET_waitConnected();
		while (NET_receive(b, sizeof b) > 0) {}
	}
}
static void gps(void * a) { (void)a; for (int i = 1; i <= position; ++i) GPS_setPositionWithFix(i, i, i); }
static void producer(void * a) { (void)a; for (int i = 1; i <= frames; ++i) commit(i); }
static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i) || !strcmp(mc_thread_wait(i), "sleep")))
			return false;
	return true;
}
static bool p_done(void * a) { (void)a; return mc_thread_done(tRelay) && (!tRecv || mc_thread_done(tRecv)) && mc_thread_done(tNet); }
static bool p_rdone(void * a) { (void)a; return mc_thread_done(tRelay); }
void mc_harness(void)
{
	setup();
	frames = mc_param("frames", 2); skBreaks = mc_param("breaks", 1);
	mc_timeouts_on = true;
	mc_timeouts_eager = mc_param("tmo", 1) > 0; mc_timeout_budget = mc_param("tmo", 1);
	mc_on_sleep = &sk_sleep;
	GPS_reset(); GPS_resetNeedFlag();
	NET_comp.onReset();
	tNet = mc_thread(&net, NULL, "net");
	tRelay = mc_thread(&relay, NULL, "relay");
	if (mc_param("recv", 1)) tRecv = mc_thread(&receiver, NULL, "recv");
	if (position) tGps = mc_thread(&gps, NULL, "gps");
	tProd = mc_thread(&producer, NULL, "producer");
	mc_preempt_budget = mc_param("preempt", 1);
	mc_block(&p_quiet, NULL, false, "end");
	mc_preempt_budget = 0;
	skBreaks = 0;
	mc_assert(sk_online(), "not connected in the end");
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	/* the relay may not have noticed yet that the connection was lost: the
	 * next keep-alive shows it */
	int guard = 5;
	while (guard-- && ses[skN - 1].stage != 3) {
		mc_timeouts_eager = true; mc_timeout_budget = 1;
		mc_sched("time passes");
		mc_block(&p_quiet, NULL, false, "end");
		commit(committed + 1);
		mc_block(&p_quiet, NULL, false, "end");
	}
	mc_assert(ses[skN - 1].stage == 3, "not logged in");
	BUFFER_getStatistics(&b);
	mc_assert(b.queueSize == 0, "frames are not sent although there is a connection");
	mc_assert(!pHist || lastSent == committed, "the last frame was not sent");
	skStop = true;
	mc_cancel(tRelay);
	mc_block(&p_rdone, NULL, false, "stopping");
	if (tRecv) mc_cancel(tRecv);
	mc_cancel(tNet);
	mc_block(&p_done, NULL, false, "stopping");
	timedOut = false;
	leftovers();
}
