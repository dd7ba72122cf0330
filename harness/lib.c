/* A01, A02: feeder libraries */
#include "common.h"
#include "core/relay.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/buffer.h"
#include "core/network.h"
#include "core/serial.h"
#include "core/devicetypes.h"

void lib_init(void);
void lib_configure(unsigned type, unsigned serial);
void lib_enable(void);
void lib_disable(void);
void lib_pos(double, double, double);
void lib_unset(void);
void lib_submit(uint64_t ts, bool utc, bool sync, int rssi, const uint8_t * p, size_t n);
void lib_status(int s);
void lib_message(const uint8_t * p, int type);

const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
#ifdef RCLIB
static const uint32_t SERIAL = 0x1a2b1a00;
static bool lacking; /* there is no serial number */
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	if (lacking) return SERIAL_RETURN_FAIL_PERM;
	if (s) *s = SERIAL;
	return SERIAL_RETURN_SUCCESS;
}
static const uint32_t TYPE = OPENSKY_DEVICE_TYPE_RADARCAPE_LIB;
#else
/* what the library is configured with; it may be configured once */
static const uint32_t confs[][2] = { { OPENSKY_DEVICE_TYPE_GRX, 0x1a2b1a00 }, { OPENSKY_DEVICE_TYPE_FEEDER, 0 } };
static unsigned nConf;
#define TYPE confs[nConf][0]
#define SERIAL confs[nConf][1]
#endif

/* the server and what it is about to receive */
static bool reachable, online; /* online: there is a connection */
static bool synced, stale; /* the sender uses it; the sender has not noticed the end of the last one */
static unsigned conn, seen[MC_MAX_THREADS];
static uint8_t rx[32]; static unsigned nRx;
static uint8_t exp_[64][48]; static unsigned expLen[64]; static unsigned nExp;
static void expect(unsigned type, const uint8_t * p, unsigned n)
{
	mc_assert(nExp < 64, "harness: too many messages");
	uint8_t * e = exp_[nExp];
	unsigned l = 0;
	e[l++] = 0x1a;
	e[l++] = type;
	for (unsigned i = 0; i < n; ++i) {
		e[l++] = p[i];
		if (p[i] == 0x1a) e[l++] = 0x1a;
	}
	expLen[nExp++] = l;
}
/* with history: what is kept for the next connection */
static bool hist;
static uint8_t pend[16][48]; static unsigned pendLen[16], nPend;
static void expect_frame(unsigned type, const uint8_t * p, unsigned n);
bool NET_send(const void * b, size_t n)
{
	const uint8_t * p = b;
	mc_testcancel();
	if (!online || !synced) return false;
	mc_assert(nExp > 0, "a message of type %d is sent that is not due", n > 1 ? p[1] : -1);
	bool same = n == expLen[0] && !memcmp(p, exp_[0], n);
	if (!same) {
		char g[200], w[200];
		unsigned i, a = 0, c = 0;
		for (i = 0; i < n && i < 50; ++i) a += sprintf(g + a, "%02x", p[i]);
		for (i = 0; i < expLen[0] && i < 50; ++i) c += sprintf(w + c, "%02x", exp_[0][i]);
		mc_fail("sent: %s, due: %s", g, w);
	}
	mc_outcome("sent", p[1]);
	if (p[1] == '2' || p[1] == '3') { mc_eval(true); mc_sample("%zu bytes, type %c", n, p[1]); }
	memmove(exp_[0], exp_[1], sizeof exp_ - sizeof exp_[0]);
	memmove(expLen, expLen + 1, sizeof expLen - sizeof expLen[0]);
	memset(exp_[63], 0, sizeof exp_[63]);
	expLen[63] = 0;
	--nExp;
	return true;
}
/* model of the library */
static bool inited, configured, running, hasPos, hasFix, need, sync_, fSync = true, fExt = true;
static double pos[3];
#ifdef RCLIB
static int status;
#endif
static void be_double(double d, uint8_t * o)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i) o[i] = u >> (56 - 8 * i);
}
static void exp_pos(void)
{
	uint8_t b[24];
	for (int i = 0; i < 3; ++i) be_double(pos[i], b + 8 * i);
	expect(OPENSKY_FRAME_TYPE_GPS_POSITION, b, 24);
}
static void pos_changed(void)
{
	if (need && hasPos && hasFix) {
		if (!online || !synced) return; /* sending fails, it stays needed */
		exp_pos();
		need = false;
	}
}
static void pos_requested(void)
{
	if (hasPos && hasFix) { exp_pos(); need = false; }
	else need = true;
}
static void exp_login(void)
{
	unsigned a, b, c;
	mc_assert(sscanf(PACKAGE_VERSION, "%u.%u.%u", &a, &b, &c) == 3, "harness: version");
	uint8_t id[16] = { TYPE >> 24, TYPE >> 16, TYPE >> 8, TYPE, 0, 0, a >> 8, a, 0, 0, b >> 8, b, 0, 0, c >> 8, c };
	expect(OPENSKY_FRAME_TYPE_DEVICE_ID, id, 16);
	uint8_t s[4] = { SERIAL >> 24, SERIAL >> 16 & 0xff, SERIAL >> 8 & 0xff, SERIAL & 0xff };
	expect(OPENSKY_FRAME_TYPE_SERIAL, s, 4);
	pos_requested();
	for (unsigned i = 0; i < nPend; ++i) expect(pend[i][0], pend[i] + 1, pendLen[i] - 1);
	memset(pend, 0, sizeof pend);
	memset(pendLen, 0, sizeof pendLen);
	nPend = 0;
}
static void expect_frame(unsigned type, const uint8_t * p, unsigned n)
{
	if (!running) return;
	if (online && synced) { expect(type, p, n); return; }
	stale = false;
	if (!hist) return;
	mc_assert(nPend < 16, "harness: too many frames");
	pend[nPend][0] = type;
	memcpy(pend[nPend] + 1, p, n);
	pendLen[nPend++] = n + 1;
}
static bool p_reach(void * a) { return reachable && !(online && seen[*(int *)a] == conn); }
void NET_waitConnected(void)
{
	int me = mc_self();
	mc_block(p_reach, &me, true, "wait for connection");
	if (!online) {
		online = true;
		synced = false;
		++conn;
		memset(rx, 0, sizeof rx);
		nRx = 0;
	}
	seen[me] = conn;
}
void NET_syncSender(void)
{
	mc_assert(running && online, "login without connection");
	mc_assert(nExp == 0, "harness: login");
	stale = false;
	synced = true;
	exp_login();
}
static bool p_rx(void * a) { return !online || seen[*(int *)a] != conn || nRx; }
ssize_t NET_receive(uint8_t * b, size_t n)
{
	int me = mc_self();
	mc_block(p_rx, &me, true, "receive");
	if (!online || seen[me] != conn) return 0;
	mc_assert(n >= nRx, "harness: receive buffer");
	unsigned l = nRx;
	memcpy(b, rx, l);
	memset(rx, 0, sizeof rx);
	nRx = 0;
	return l;
}
static bool p_quiet(void * a)
{
	for (int t = 0; t < MC_MAX_THREADS; ++t)
		if (t != *(int *)a && !mc_thread_done(t) && mc_thread_ready(t)) return false;
	return true;
}
/* let the others run until nothing happens any more */
static void settle(void)
{
	int me = mc_self();
	mc_block(p_quiet, &me, false, "settle");
	mc_assert(nExp == 0, "a message of type %d is not sent", exp_[0][1]);
	if (hist) {
		struct BUFFER_Statistics b;
		BUFFER_getStatistics(&b);
		mc_assert(b.queueSize == nPend, "%u frames are buffered instead of %u", (unsigned)b.queueSize, nPend);
	}
	mc_assert(!running || !reachable || (online && (synced || stale)), "no login although the library is enabled");
	mc_assert(nRx == 0, "a command of the server is not received");
}
static bool accepted(unsigned type, unsigned first)
{
	if (fSync && !sync_) return false;
	if (type != '2' && type != '3') return false;
	unsigned df = first >> 3;
	return !fExt || df == 17 || df == 18;
}
static void do_init(void)
{
#ifdef RCLIB
	lacking = mc_param("noserial", 0) && mc_choose(2, "no serial number");
#endif
	lib_init();
	inited = true;
#ifdef RCLIB
	configured = !lacking;
#endif
}
static void do_configure(void)
{
#ifdef RCLIB
	lacking = !configured && mc_choose(2, "no serial number");
	lib_configure(TYPE, SERIAL);
	if (!lacking) configured = true;
#else
	lib_configure(TYPE, SERIAL);
	configured = true;
#endif
}
static void do_enable(void)
{
	if (configured) { sync_ = true; need = false; }
#ifdef RCLIB
	sync_ = status != 0;
#endif
	bool was = running;
	running = configured;
	memset(pend, 0, sizeof pend);
	memset(pendLen, 0, sizeof pendLen);
	nPend = 0;
	lib_enable();
	mc_assert(configured, "enabled although it is not configured");
	settle();
	mc_assert(mc_live_threads() == 3, "%d threads run", mc_live_threads() - 1);
	mc_outcome("enabled", was);
}
static void do_disable(void)
{
	lib_disable();
	running = online = synced = stale = false;
	mc_assert(mc_live_threads() == 1, "threads run after disabling");
	settle();
}
static void do_pos(int k)
{
	static const double v[3][3] = { { 0, 0, 0 }, { 47.5, -122.25, 1000 }, { -90, 180, -0x1.a1a1a1a1a1a1ap+10 } };
	memcpy(pos, v[k], sizeof pos);
	hasPos = true;
#ifndef RCLIB
	/* position and fix arrive one after the other */
	pos_changed();
	hasFix = true;
	pos_changed();
#else
	pos_changed();
#endif
	lib_pos(pos[0], pos[1], pos[2]);
	settle();
}
#ifdef RCLIB
static void do_status(int s)
{
	status = s;
	sync_ = s != 0;
	hasFix = s == 2;
	pos_changed();
	lib_status(s);
	settle();
}
static void do_message(const uint8_t * m, unsigned type)
{
	unsigned len = type == '1' ? 9 : type == '2' ? 14 : type == '3' ? 21 : 0;
	/* the message is as long as its type says */
	uint8_t * p = mc_malloc(len ? len : 1);
	memcpy(p, m, len);
	if (running && len && accepted(type, m[7])) expect_frame(type, m, len);
	lib_message(p, type);
	memset(p, 0x55, len);
	mc_free(p);
	settle();
	mc_eval(false);
}
#else
static void do_unset(void)
{
	hasFix = false;
	lib_unset();
	settle();
}
static void do_submit(uint64_t ts, bool utc, bool ts_sync, int rssi, const uint8_t * m, unsigned n)
{
	uint8_t * p = mc_malloc(n ? n : 1);
	memcpy(p, m, n);
	if (running && utc && (n == 7 || n == 14) && accepted(n == 7 ? '2' : '3', m[0])) {
		uint8_t e[21];
		uint64_t sec = ts / 1000000000 % 86400, v = sec << 30 | ts % 1000000000;
		for (int i = 0; i < 6; ++i) e[i] = v >> (40 - 8 * i);
		e[6] = rssi;
		memcpy(e + 7, m, n);
		expect_frame(n == 7 ? '2' : '3', e, 7 + n);
	}
	lib_submit(ts, utc, ts_sync, rssi, p, n);
	memset(p, 0x55, n);
	mc_free(p);
	settle();
	mc_eval(false);
}
#endif
static void on_abort(const char * why)
{
#ifdef RCLIB
	if (!inited && lacking) mc_end();
#endif
	mc_assert(inited && !configured, "the process is terminated: %s", why);
	mc_outcome("not configured", 0);
	mc_end();
}
static void any_frame(int k)
{
	static const uint8_t first[] = { 17 << 3, 18 << 3 | 2, 0x1a, 0x5d };
#ifdef RCLIB
	uint8_t m[21] = { 0, 0x1a, 2, 3, 4, 0x1a, 0x1a, first[k & 3], 0x1a, 0x1a, 5, 6, 7, 8, 9, 0, 0, 0, 0, 0, 0x1a };
	do_message(m, k < 4 ? '3' : k == 4 ? '2' : k == 5 ? '1' : '4');
#else
	uint8_t m[14] = { first[k & 3], 0x1a, 0x1a, 4, 5, 0x1a, 0x1a, 0, 0, 0, 0, 0, 0, 0x1a };
	do_submit(UINT64_C(0x1a1a1a1a1a1a1a), k != 6, k & 1, -26, m, k < 4 ? 14 : k == 4 ? 7 : k == 5 ? 8 : 14);
#endif
}
/* the server sends a command, after another one that a library does not know */
static void command(unsigned mask, unsigned val)
{
	uint8_t c[] = { 0, 1, 0, 4, 0, 4, 0, 6, mask, val };
	memcpy(rx, c, sizeof c);
	nRx = sizeof c;
}
static void histories(void)
{
	int depth = mc_param("depth", 8);
	bool filt = mc_param("filter", 1);
#ifndef RCLIB
	nConf = mc_choose(mc_param("confs", 1), "type and serial number");
	if (mc_choose(2, "configured at once")) do_configure();
#endif
	while (depth-- > 0) {
#ifdef RCLIB
		enum { POS = 3, MSG = POS + 3, FILT = MSG + 5, REACH = FILT + 4, OWN = REACH + 2, N = OWN + 4 };
#else
		enum { POS = 3, MSG = POS + 3, FILT = MSG + 5, REACH = FILT + 4, OWN = REACH + 2, N = OWN + 1 };
#endif
		int op = mc_choose(N, "operation");
		static const int kinds[] = { 0, 2, 4, 5, 6 };
		if (op == 0) do_enable();
		else if (op == 1) do_disable();
		else if (op == 2) {
#ifndef RCLIB
			if (configured) return;
#endif
			do_configure();
		}
		else if (op < MSG) do_pos(op - POS);
		else if (op < FILT) any_frame(kinds[op - MSG]);
		else if (op < REACH) {
			if (!filt) return;
			int k = op - FILT;
			if (k == 0) { fSync = !fSync; if (online) command(1, fSync); else FILTER_setSynchronizedFilter(fSync); }
			else if (k == 1) { fExt = !fExt; if (online) command(2, fExt ? 2 : 1); else FILTER_setModeSExtSquitter(fExt); }
			else if (k == 2) { if (!running) return; sync_ = false; if (online) command(0x80, 3); else FILTER_reset(); }
			else if (!online || !synced) return;
			else { pos_requested(); mc_assert(GPS_sendPosition(), "sending failed"); }
			settle();
		} else if (op == REACH) {
			if (reachable) return;
			reachable = true;
			settle();
		} else if (op == REACH + 1) {
			/* the connection is lost, the relay has not noticed yet */
			if (!online) return;
			reachable = online = synced = false;
			stale = true;
			settle();
		}
#ifdef RCLIB
		else if (op == OWN) return;
		else do_status(op - OWN - 1);
#else
		else do_unset();
#endif
		mc_assert(mc_locks_held(mc_self()) == 0, "a lock is still held");
	}
}
static void inputs(void)
{
	reachable = true;
	int part = mc_choose(4, "part");
#ifndef RCLIB
	do_configure();
#else
	do_status(1);
#endif
	do_enable();
	fExt = mc_choose(2, "extended squitters only");
	FILTER_setModeSExtSquitter(fExt);
	static const uint8_t base[21] = { 0x8d, 0x4b, 0x16, 0x9a, 0x58, 0xb9, 0x82, 0x19, 0x1b, 0x3a, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb };
	uint8_t m[21];
	memcpy(m, base, 21);
#ifdef RCLIB
	static const int types[] = { '1', '2', '3' };
	m[7] = 0x8d;
	if (part == 0) {
		for (int t = 0; t < 256; ++t) do_message(m, t);
		do_message(m, -1); do_message(m, 0x132); do_message(m, 0x133);
	} else if (part == 1) {
		for (int i = 0; i < 3; ++i) for (int b = 0; b < 256; ++b) { m[7] = b; do_message(m, types[i]); }
	} else if (part == 2) {
		for (int i = 0; i < 3; ++i) for (int a = 0; a < 21; ++a) for (int b = 0; b <= a; ++b) {
			uint8_t x = m[a], y = m[b];
			m[a] = m[b] = 0x1a;
			do_message(m, types[i]);
			m[a] = x; m[b] = y;
		}
	} else {
		for (int i = 0; i < 3; ++i) for (int a = 0; a < 21; ++a) for (int b = 0; b < 256; b += a == 7 ? 300 : 1) {
			uint8_t x = m[a];
			m[a] = b;
			do_message(m, types[i]);
			m[a] = x;
		}
		memset(m, 0x1a, 21);
		for (int i = 0; i < 3; ++i) do_message(m, types[i]);
		m[7] = 0x8d;
		for (int i = 0; i < 3; ++i) do_message(m, types[i]);
	}
#else
	if (part == 0) {
		for (int n = 0; n < 22; ++n) for (int k = 0; k < 4; ++k) do_submit(1, k & 1, k & 2, 0, m, n);
		for (int n = 7; n <= 14; n += 7) for (int r = -128; r < 128; ++r) do_submit(7, true, r & 1, r, m, n);
		for (int n = 7; n <= 14; n += 7) for (int b = 0; b < 256; ++b) { m[0] = b; do_submit(7, true, b & 1, 0x1a, m, n); }
	} else if (part == 1) {
		for (int n = 7; n <= 14; n += 7) for (int a = 0; a < n; ++a) for (int b = 0; b <= a; ++b) {
			uint8_t x = m[a], y = m[b];
			m[a] = m[b] = 0x1a;
			do_submit(0x1a, true, true, 0x1a, m, n);
			m[a] = x; m[b] = y;
		}
		memset(m, 0x1a, 14);
		for (int n = 7; n <= 14; n += 7) do_submit(UINT64_C(26) << 30, true, true, 0x1a, m, n);
		m[0] = 0x8d;
		for (int n = 7; n <= 14; n += 7) do_submit(UINT64_C(26) << 30, true, true, 0x1a, m, n);
	} else {
		static const uint64_t secs[] = { 0, 1, 2, 0x1a, 0x1a1a, 3599, 3600, 43199, 65535, 65536, 86398, 86399, 86400, 86401, 172799, 172800, 604799, 604800, UINT64_C(1700000000), UINT64_C(18446744072) };
		static const uint64_t ns[] = { 0, 1, 0x1a, 0x1a1a1a, 0x1a1a1a1a, 255, 256, 0x3fff, 0x4000, 99999999, 100000000, 499999999, 500000000, 536870911, 536870912, 999999998, 999999999 };
		for (unsigned i = 0; i < sizeof secs / 8; ++i) for (unsigned j = 0; j < sizeof ns / 8; ++j)
			do_submit(secs[i] * 1000000000 + ns[j], true, part & 1, part, m, part == 3 ? 14 : 7);
		do_submit(UINT64_MAX, true, true, 1, m, 14);
		for (int b = 0; b < 64; ++b) { do_submit(UINT64_C(1) << b, true, true, 1, m, 14); do_submit((UINT64_C(1) << b) - 1, true, true, 1, m, 7); }
	}
#endif
	do_disable();
}
void mc_harness(void)
{
	mc_preempt_budget = mc_param("preempt", 0);
	mc_timeouts_on = false;
	mc_on_abort = on_abort;
	do_init();
	hist = mc_param("hist", 0);
	if (hist) cfg_bool(BUF_comp.config, "History", true);
	if (mc_param("inputs", 0)) inputs();
	else histories();
	if (running) do_disable();
}
