/* N01, N02: connection state machine, with sockets that break at any time */
#include "socks.h"
#include "core/network.h"

static int tNet, tRelay, tRecv, tExtra = -1;
static int cuts, pBig, pExtra, pChunk, pOps, pStuck, pRecv, pSends;
static bool drained, finalPhase, relayIdle, extraIdle, restart;

/* ---- time: the number of seconds online is checked whenever time passes ---- */
static int ticks;
static uint64_t onlineSecs;
static void tick(void)
{
	if (ticks <= 0) return;
	static const int d[] = { 0, 1, 7 };
	int dt = d[mc_choose(3, "seconds that pass")];
	if (dt) --ticks;
	struct NET_Statistics s;
	for (int i = 0; i < 2; ++i) {
		NET_getStatistics(&s);
		mc_assert(s.onlineSecs == onlineSecs, "%lu seconds online are counted as %lu", (unsigned long)onlineSecs, (unsigned long)s.onlineSecs);
		if (!i) {
			mc_time_s += dt;
			if (s.isOnline) onlineSecs += dt;
			mc_outcome("seconds online", onlineSecs);
		}
	}
}

/* ---- messages ---- */
enum { BIG = 300, HUGE_ = 65536 + 3 };
static const uint8_t hugeMsg[HUGE_]; /* constant, and thus no part of the state */
static uint8_t bigMsg[BIG];
static const unsigned bigLen[] = { 2, 127, 128, 255, 256, 257, BIG, HUGE_ };
struct Msg {
	const uint8_t * data;
	unsigned len, pos, calls;
	int fd;
	bool active, failed;
	uint8_t buf[8];
};
static struct Msg msg[2];      /* of relay and extra sender */
static int lastS[2];           /* last connection used */
static int boundS, toldS;      /* relay: connection used since it was told of a failure; last one lost */
static int boundR, toldR, rFail;
static int stuckFd = -1;
static uint64_t okBytes, rBytes;
static int rGot; static uint8_t rData[BIG];

static bool p_unstuck(void * a) { struct Conn * c = a; return c->shut || c->broken || drained; }

ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	sk_event();
	int self = mc_self();
	struct Msg * m = self == tRelay ? &msg[0] : self == tExtra ? &msg[1] : NULL;
	mc_sched("send");
	mc_testcancel();
	mc_assert(m && m->active, "harness: unknown sender");
	mc_assert(flags & MSG_NOSIGNAL, "sending may raise SIGPIPE");
	mc_assert(!m->failed, "sending goes on after a failure");
	mc_assert(n > 0 && n <= m->len - m->pos, "%zu bytes are sent, but the message has only %u left", n, m->len - m->pos);
	mc_assert(!memcmp(p, m->data + m->pos, n), "wrong bytes are sent");
	if (fd == -1) {
		m->failed = true;
		errno = EBADF;
		return -1;
	}
	struct Conn * c = sk_conn(fd, "send");
	mc_assert(m->pos == 0 || m->fd == fd, "a message is sent partly to connection %d and partly to %d", m->fd, fd);
	m->fd = fd;
	++m->calls;
	struct Msg * o = &msg[m == &msg[0]];
	mc_assert(!o->active || o->pos == 0 || o->failed || o->fd != fd, "messages are interleaved");
	if (m == &msg[0]) {
		mc_assert(boundS == -1 || boundS == fd, "the sender was not told that connection %d was lost, and continues on %d", boundS, fd);
		mc_assert(fd > toldS, "connection %d is used although its failure was reported", fd);
		boundS = fd;
	}
	if (!c->shut && !c->broken && pStuck > 0 && mc_choose(2, "send blocks")) {
		--pStuck;
		skUse[self] = fd;
		mc_block(&p_unstuck, c, true, "send");
		skUse[self] = 0;
	}
	if (c->shut || c->broken || (skBreaks > 0 && mc_choose(2, "sending fails"))) {
		if (!c->shut && !c->broken) --skBreaks;
		tick();
		c->broken = true;
		m->failed = true;
		if (mc_param("zero", 0) && mc_choose(2, "send returns 0")) return 0;
		errno = EPIPE;
		return -1;
	}
	size_t k = n;
	if (pBig && cuts > 0) {
		static const unsigned cut[] = { 1, 128, 255, 256, 65536 };
		unsigned i = mc_choose(6, "bytes sent");
		if (i && cut[i - 1] < n) { k = cut[i - 1]; --cuts; }
	} else if (!pBig && pChunk && n > 1) k = n - mc_choose(n, "bytes not sent");
	m->pos += k;
	return k;
}
static bool send_msg(int who)
{
	struct Msg * m = &msg[who];
	static uint8_t nextId[2]; uint8_t id = ++nextId[who] << 1 | who;
	m->len = pChunk ? 1 + mc_choose(3, "message length") : 2;
	m->pos = 0; m->fd = -1; m->failed = false; m->calls = 0;
	for (unsigned i = 0; i < m->len; ++i) m->buf[i] = id << 2 | (i & 3);
	for (unsigned i = m->len; i < sizeof m->buf; ++i) m->buf[i] = 0;
	m->data = m->buf;
	if (pBig) {
		m->len = bigLen[mc_choose(8, "message length")];
		m->data = m->len > BIG ? hugeMsg : bigMsg;
	}
	m->active = true;
	bool r = NET_send(m->data, m->len);
	m->active = false;
	if (r) {
		mc_assert(m->pos == m->len && !m->failed, "success reported although only %u of %u bytes were sent", m->pos, m->len);
		lastS[who] = m->fd;
		okBytes += m->len;
		mc_eval(true);
	} else if (who == 0) {
		mc_assert(m->failed || tExtra >= 0 || skStop, "failure reported without a failure");
		if (m->fd >= 0) toldS = m->fd;
		boundS = -1;
	} else
		mc_assert(m->failed || !sk_online() || boundS < SK_BASE + skN - 1, "failure reported without a failure");
	mc_outcome("send", r | who << 1 | (m->calls > 1) << 2);
	uint8_t keep = nextId[who] & 1; nextId[who] = keep;
	memset(m, 0, sizeof *m);
	m->fd = -1;
	return r;
}

/* ---- receiver ---- */
static bool p_rx(void * a)
{
	struct Conn * c = a;
	return c->shut || c->broken || pRecv > 0 || skBreaks > 0 || !c->open;
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	(void)flags;
	sk_event();
	mc_assert(mc_self() == tRecv, "harness: unknown receiver");
	if (fd == -1) {
		mc_sched("recv");
		mc_testcancel();
		rFail = 1;
		errno = EBADF;
		return -1;
	}
	sk_conn(fd, "recv");
	struct Conn * c = &sk[fd - SK_BASE];
	skUse[tRecv] = fd;
	mc_block(&p_rx, c, true, "recv");
	skUse[tRecv] = 0;
	sk_conn(fd, "recv");
	mc_assert(boundR == -1 || boundR == fd, "the receiver was not told that connection %d was lost, and continues on %d", boundR, fd);
	mc_assert(fd > toldR, "connection %d is used although its failure was reported", fd);
	boundR = fd;
	bool ended = c->shut || c->broken;
	bool data = pRecv > 0 && (!ended && skBreaks <= 0 ? true : mc_choose(2, "data received"));
	if (data) {
		--pRecv;
		size_t k = pBig ? bigLen[mc_choose(7, "bytes received")] : 1 + mc_choose(n < 3 ? n : 3, "bytes received");
		for (size_t i = 0; i < k; ++i) rData[i] = ((uint8_t *)p)[i] = 0x80 + rBytes + i;
		rGot = k;
		return k;
	}
	if (!ended) --skBreaks;
	tick();
	c->broken = true;
	rFail = 1;
	if (mc_choose(2, "recv fails")) { errno = ECONNRESET; return -1; }
	return 0;
}
/* waiting ends only if there was a connection in the meantime */
static unsigned skN0, skRefused0, disc0;
static void wait_connected(void)
{
	struct NET_Statistics s;
	NET_getStatistics(&s);
	unsigned r0 = skRefused; /* the net thread counts a refusal after it happened */
	unsigned lost0 = (unsigned)s.disconnects - disc0;
	unsigned refused = r0 - skRefused0;
	lost0 = lost0 > refused ? lost0 - refused : 0;
	NET_waitConnected();
	mc_assert(skN - skN0 > lost0, "waiting for the connection ends although there is none");
}
static void receiver(void * a)
{
	(void)a;
	uint8_t buf[BIG];
	while (true) {
		wait_connected();
		while (true) {
			rFail = 0; rGot = 0;
			ssize_t n = NET_receive(buf, pBig ? sizeof buf : 8);
			if (n <= 0) {
				mc_assert(rFail, "end of the connection reported without a failure");
				if (boundR >= 0) toldR = boundR;
				boundR = -1;
				break;
			}
			mc_assert(n == rGot && !memcmp(buf, rData, n), "wrong data received");
			rBytes += n;
		}
	}
}
/* ---- senders ---- */
static bool p_final(void * a) { (void)a; return finalPhase; }
static void relay(void * a)
{
	(void)a;
	int left = pSends;
	bool fin = false;
	while (true) {
		wait_connected();
#if 1
		NET_syncSender();
#endif
		bool sent = false;
		while (true) {
			if (!left) {
				if (fin) { relayIdle = true; mc_block(&sk_never, NULL, true, "finished"); }
				relayIdle = true;
				mc_block(&p_final, NULL, true, "finished");
				relayIdle = false;
				bool r = send_msg(0);
				if (!r) break;
				fin = true;
				continue;
			}
			int op = pOps && sent ? mc_choose(1 + pOps, "sender operation") : 0;
			bool ok;
			--left;
			if (op == 0) ok = sent = send_msg(0);
			else if (op == 1) {
				int known = toldR;
				ok = NET_checkConnected();
				mc_assert(!ok || known < boundS, "connected, although connection %d was reported as lost before", boundS);
				if (!ok) {
					mc_assert(boundS == -1 || sk[boundS - SK_BASE].broken || sk[boundS - SK_BASE].shut, "connection %d reported as lost", boundS);
					if (boundS >= 0) toldS = boundS;
					boundS = -1;
				}
			} else {
				if (boundS >= 0) { sk[boundS - SK_BASE].forced = true; toldS = boundS; }
				NET_forceDisconnect();
				boundS = -1;
				ok = false;
			}
			if (!ok) break;
		}
	}
}
static void extra(void * a)
{
	(void)a;
	for (int i = 0; i < pExtra; ++i)
		send_msg(1);
	extraIdle = true;
	mc_block(&sk_never, NULL, true, "finished");
}
/* ---- net ---- */
static void net(void * a) { (void)a; NET_comp.main(); }

static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i) || !strcmp(mc_thread_wait(i), "sleep")))
			return false;
	return true;
}
static bool p_stop(void * a) { (void)a; return skEvents >= skStopAt || p_quiet(NULL); }
static bool p_clients(void * a)
{
	(void)a;
	int t[] = { tRelay, tRecv, tExtra };
	for (int i = 0; i < 3; ++i)
		if (t[i] >= 0 && !mc_thread_done(t[i]) && (!mc_thread_wait(t[i]) || mc_thread_ready(t[i])))
			return false;
	return true;
}
static bool p_done(void * a) { (void)a; return mc_thread_done(tNet) && mc_thread_done(tRelay) && mc_thread_done(tRecv) && (tExtra < 0 || mc_thread_done(tExtra)); }

static void start(void)
{
	boundS = boundR = -1;
	toldS = toldR = SK_BASE + skN - 1;
	relayIdle = extraIdle = drained = finalPhase = skStop = false;
	skSlept = true;
	skN0 = skN; skRefused0 = skRefused;
	{ struct NET_Statistics st; NET_getStatistics(&st); disc0 = st.disconnects; }
	tNet = mc_thread(&net, NULL, "net");
	tRelay = mc_thread(&relay, NULL, "relay");
	tRecv = mc_thread(&receiver, NULL, "recv");
	tExtra = pExtra ? mc_thread(&extra, NULL, "extra") : -1;
}
static void stop(void)
{
	int pre = mc_preempt_budget;
	skStop = drained = true;
	mc_cancel(tRelay);
	mc_cancel(tRecv);
	if (tExtra >= 0) mc_cancel(tExtra);
	mc_block(&p_clients, NULL, false, "stopping clients");
	msg[0].active = msg[1].active = false;
	mc_cancel(tNet);
	mc_block(&p_done, NULL, false, "stopping");
	mc_preempt_budget = 0;
	mc_assert(sk_open() == 0, "%d connection(s) left open", sk_open());
	struct NET_Statistics s;
	NET_getStatistics(&s);
	mc_assert(!s.isOnline, "online after the end");
	NET_comp.onReset(); /* takes the lock */
	mc_assert(!NET_checkConnected(), "connected after the end");
	memset(&msg[0], 0, sizeof msg[0]);
	tRelay = mc_self();
	toldS = -1;
	mc_assert(!send_msg(0), "sending works after the end");
	mc_preempt_budget = pre;
}
void mc_harness(void)
{
	pExtra = mc_param("extra", 0); pChunk = mc_param("chunk", 0); pOps = mc_param("ops", 0);
	pStuck = mc_param("stuck", 0); pRecv = mc_param("data", 0); pSends = mc_param("sends", 2);
	pBig = mc_param("big", 0); cuts = mc_param("cuts", 1);
	for (unsigned i = 0; i < BIG; ++i) bigMsg[i] = i * 7 + i / 256;
	skBreaks = mc_param("breaks", 1); skFails = mc_param("cfails", 0);
	int nstop = mc_param("stop", 0);
	mc_spurious_budget = mc_param("spurious", 0);
	mc_on_sleep = &sk_sleep;
	ticks = mc_param("ticks", 0);
	if (ticks) skTick = &tick;
	NET_comp.onReset();
	if (mc_param("early", 0)) {
		/* somebody sends before the component runs */
		tRelay = -1; tExtra = mc_self(); boundS = SK_BASE - 1; toldS = -1;
		mc_assert(!send_msg(1), "sending works before connecting");
	}
	start();
	mc_preempt_budget = mc_param("preempt", 2);
	if (nstop) {
		skStopAt = mc_choose(nstop, "stop after");
		mc_block(&p_stop, NULL, false, "until stop");
		stop();
		if (!mc_param("again", 0)) return;
		pRecv = 0;
		start();
	}
	mc_block(&p_quiet, NULL, false, "end");
	if (stuckFd >= 0 || !relayIdle || (tExtra >= 0 && !extraIdle)) {
		drained = true;
		mc_block(&p_quiet, NULL, false, "end");
	}
	mc_assert(relayIdle, "the sender hangs");
	mc_assert(tExtra < 0 || extraIdle, "the second sender hangs");
	/* everything is quiet: the sender works on the newest connection */
	mc_preempt_budget = 0;
	skBreaks = skFails = pStuck = 0;
	finalPhase = true;
	mc_block(&p_quiet, NULL, false, "end");
	mc_assert(relayIdle, "the sender hangs");
	mc_assert(lastS[0] == SK_BASE + skN - 1, "the sender is not on the newest connection");
	mc_assert(skUse[tRecv] == SK_BASE + skN - 1, "the receiver is not on the newest connection");
	mc_assert(sk_open() == 1, "%d connections are open", sk_open());
	struct NET_Statistics s;
	NET_getStatistics(&s);
	mc_assert(s.isOnline == sk_online() && s.isOnline, "wrong online state");
	tick();
	if (!nstop) {
		mc_assert(s.connectionAttempts == skAttempts, "%u connection attempts counted as %u", skAttempts, (unsigned)s.connectionAttempts);
		mc_assert(s.disconnects == skRefused + skN - 1, "%u failures counted as %u", skRefused + skN - 1, (unsigned)s.disconnects);
		mc_assert(s.bytesSent == okBytes, "%u bytes sent, but counted %u", (unsigned)okBytes, (unsigned)s.bytesSent);
		mc_assert(s.bytesReceived == rBytes, "%u bytes received, but counted %u", (unsigned)rBytes, (unsigned)s.bytesReceived);
	}
	mc_outcome("connections", skN);
	stop();
}
