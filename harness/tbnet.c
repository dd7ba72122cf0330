/* K01: dispatcher on top of the network component: packets of different
 * connections are never mixed */
#include "socks.h"
#include "core/network.h"
#include "core/tb.h"
#include "core/filter.h"

void INPUT_reconfigure() {}
static int tNet, tRelay, tRecv;
static int pSends, packets;
static unsigned pos[SK_MAX], done[SK_MAX];
static bool relayIdle;

static const uint8_t hdr[] = { 0, TB_PACKET_TYPE_SERIAL_RES, 0, 8 };
static void cb(const uint8_t * p)
{
	mc_eval(true);
	unsigned c = p[0] >> 4;
	mc_assert(c < (unsigned)skN, "a packet was made up");
	for (int i = 0; i < 4; ++i)
		mc_assert(p[i] == (c << 4 | (done[c] & 3) << 2 | i), "packet %02x%02x%02x%02x consists of parts of different packets", p[0], p[1], p[2], p[3]);
	++done[c];
	mc_assert(done[c] * 8 <= pos[c], "packet dispatched before it was received");
}
ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	mc_sched("send");
	mc_testcancel();
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "send");
	if (c->shut || c->broken || (skBreaks > 0 && mc_choose(2, "sending fails"))) {
		if (!c->shut && !c->broken) --skBreaks;
		c->broken = true;
		errno = EPIPE;
		return -1;
	}
	return n;
}
static bool p_rx(void * a)
{
	struct Conn * c = a;
	return c->shut || c->broken || packets > 0 || pos[c - sk] % 8 || skBreaks > 0;
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	if (fd == -1) { errno = EBADF; return -1; }
	struct Conn * c = sk_conn(fd, "recv");
	unsigned k = c - sk;
	mc_assert(pos[k] / 8 == done[k], "a packet was received, but not dispatched");
	mc_block(&p_rx, c, true, "recv");
	bool ended = c->shut || c->broken, more = pos[k] % 8 || packets > 0;
	if (!more || ((ended || skBreaks > 0) && mc_choose(2, "connection lost"))) {
		if (!ended) --skBreaks;
		c->broken = true;
		return 0;
	}
	static const uint8_t chunk[] = { 8, 3, 1, 6 };
	size_t w = chunk[mc_choose(mc_param("chunks", 3), "bytes")], r = 0;
	while (r < w && r < n && (pos[k] % 8 || packets > 0)) {
		unsigned o = pos[k] % 8;
		if (o == 0) --packets;
		((uint8_t *)p)[r++] = o < 4 ? hdr[o] : k << 4 | (pos[k] / 8 & 3) << 2 | (o - 4);
		++pos[k];
	}
	return r;
}
static void relay(void * a)
{
	(void)a;
	int left = pSends;
	while (true) {
		NET_waitConnected();
		NET_syncSender();
		while (left) {
			--left;
			if (!NET_send("x", 1)) break;
		}
		if (!left) { relayIdle = true; mc_block(&sk_never, NULL, true, "finished"); }
	}
}
static void net(void * a) { (void)a; NET_comp.main(); }
static void tbt(void * a) { (void)a; TB_comp.main(); }
static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i) || !strcmp(mc_thread_wait(i), "sleep")))
			return false;
	return true;
}
void mc_harness(void)
{
	pSends = mc_param("sends", 2); packets = mc_param("packets", 2);
	skBreaks = mc_param("breaks", 1);
	mc_on_sleep = &sk_sleep;
	TB_register(TB_PACKET_TYPE_SERIAL_RES, 4, &cb);
	NET_comp.onReset();
	tNet = mc_thread(&net, NULL, "net");
	tRelay = mc_thread(&relay, NULL, "relay");
	tRecv = mc_thread(&tbt, NULL, "tb");
	mc_preempt_budget = mc_param("preempt", 2);
	mc_block(&p_quiet, NULL, false, "end");
	for (int i = 0; i < skN; ++i)
		mc_assert(done[i] == pos[i] / 8, "connection %d: %u packets were received, %u dispatched", i, pos[i] / 8, done[i]);
	mc_outcome("packets", done[0] << 8 | done[1] << 4 | done[2]);
}
