/* T02: GPS receiver thread: every packet of the explored set, in sequences,
 * with reconnections, position requests and failing transmissions; observed
 * through what is sent to the server. */
#include "common.h"
#include <math.h>
#include "trimble/trimble_recv.h"
#include "trimble/trimble_input.h"
#include "core/gps.h"
#include "core/network.h"

extern struct Component TRIMBLE_comp;
static bool connected, lossSeen, hasPos, need, ending;
static double pos[3];
static unsigned opens, closes, sent, expSent;
static int steps, recon, sfail, asks;
static uint8_t out[1000];
static unsigned nout, iout;

const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
static void be(double d, uint8_t * p)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i) p[i] = u >> (56 - 8 * i);
}
static bool sendOk;
bool NET_send(const void * b, size_t len)
{
	const uint8_t * p = b;
	uint8_t raw[24];
	unsigned o = 2, n = 0;
	++sent;
	mc_assert(sent <= expSent, "a position was sent although nobody asked or none is trusted");
	mc_assert(len >= 26 && p[0] == 0x1a && p[1] == '7', "something else than a position is sent");
	while (o < len) {
		mc_assert(n < 24, "position message too long");
		raw[n++] = p[o];
		if (p[o] == 0x1a) mc_assert(o + 1 < len && p[++o] == 0x1a, "position message is not escaped");
		++o;
	}
	mc_assert(n == 24, "position message has %u bytes", n);
	uint8_t want[24];
	for (int i = 0; i < 3; ++i) be(pos[i], want + 8 * i);
	mc_assert(!memcmp(want, raw, 24), "the position sent is not the last trusted one");
	if (sfail > 0 && mc_choose(2, "transmission fails")) { --sfail; sendOk = false; return false; }
	sendOk = true;
	return true;
}
static void ask(void)
{
	expSent = sent + (hasPos ? 1 : 0);
	unsigned before = sent;
	bool r = GPS_sendPosition();
	mc_assert(sent == expSent, "position is known but not sent");
	if (hasPos) { mc_assert(r == sendOk, "result of sending the position is wrong"); need = false; }
	else { mc_assert(r, "request is not deferred"); need = true; }
	(void)before;
	expSent = sent;
}
void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
static void settled(void)
{
	/* everything received has been processed */
	if (sent != expSent)
		mc_fail("a trusted position became known, but was not sent although it was asked for");
}
static bool pendNeed;
static void finish(void)
{
	if (pendNeed) { settled(); need = !sendOk; pendNeed = false; }
	else mc_assert(sent == expSent, "a position was sent");
}
void TRIMBLE_INPUT_disconnect() { mc_assert(connected, "disconnected twice"); connected = false; ++closes; }
void TRIMBLE_INPUT_connect()
{
	finish();
	mc_assert(!connected, "connected twice");
	if (asks > 0 && mc_choose(2, "asked while disconnected")) {
		/* the previous position may be or not be known any more here */
		if (!hasPos) { --asks; ask(); }
	}
	connected = true; lossSeen = false; ++opens;
	hasPos = false;
	nout = iout = 0;
}
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t len) { return len; }
static const double vals[] = { 0.0, 0.8378, -1.5707963267948966, 1e-310, 123456.789, -0.0, 3.0000001, INFINITY };
static double dval(uint8_t * p, int i)
{
	double d = vals[i];
	if (i == 6) { /* bytes that need escaping */
		uint64_t u = 0x4010031a101a0310ULL;
		memcpy(&d, &u, 8);
	}
	be(d, p);
	return d;
}
static void packet(void)
{
	uint8_t p[400];
	memset(p, 0, sizeof p);
	p[0] = 0x8f; p[1] = 0xac;
	p[2] = 7; p[3] = 0;
	unsigned len = 69;
	int v[3] = { 1, 2, 4 };
	bool ok = true;
	int dev = mc_param("dev", 1), full = mc_param("full", 1);
	if (!dev) v[0] = steps & 7;
	for (int d = 0; d < dev; ++d) {
		switch (mc_choose(11, "deviation")) {
		case 0: d = dev; break;
		case 1: p[2] = full ? mc_choose(256, "receiver mode") : mc_choose(2, "receiver mode") * 4 + 3; break;
		case 2: p[3] = full ? mc_choose(256, "disciplining mode") : mc_choose(3, "disciplining mode"); break;
		case 3: { int b = full ? mc_choose(16, "critical alarm") : 4 + 8 * mc_choose(2, "critical alarm"); p[9 + (b < 8)] |= 1 << (b & 7); break; }
		case 4: { int b = full ? mc_choose(16, "minor alarm") : 4 + mc_choose(5, "minor alarm"); p[11 + (b < 8)] |= 1 << (b & 7); break; }
		case 5: p[13] = full ? mc_choose(256, "decoding status") : mc_choose(2, "decoding status"); break;
		case 6: { static const unsigned l[] = { 68, 70, 1, 2, 61, 80, 69 + 256 }; len = l[mc_choose(7, "length")]; break; }
		case 7: p[0] = "\x8e\x46\x55\xac"[mc_choose(4, "packet type")]; break;
		case 8: p[1] = full ? mc_choose(256, "subtype") : "\xab\xa2"[mc_choose(2, "subtype")]; break;
		case 9: { int k = mc_choose(3, "coordinate"); v[k] = mc_choose(8, "value"); break; }
		case 10: { static const uint8_t o[] = { 4, 5, 6, 7, 8, 14, 15, 16, 25, 36, 61, 68 }; p[o[mc_choose(12, "ignored byte")]] = full ? 0xff : 0x10; break; }
		}
	}
	double q[3];
	for (int k = 0; k < 3; ++k) q[k] = dval(p + 37 + 8 * k, v[k]);
	ok = p[0] == 0x8f && p[1] == 0xac && len == 69 && p[2] == 7 && p[3] == 0 && !p[9] && !p[10]
		&& !(p[12] & 0x20) && !(p[11] & 0x01) && p[13] == 0;
	if (ok) {
		pos[0] = q[0] * 57.2957795130823208767981548141051703;
		pos[1] = q[1] * 57.2957795130823208767981548141051703;
		pos[2] = q[2];
		hasPos = true;
		if (need) { pendNeed = true; expSent = sent + 1; }
	}
	mc_eval(ok);
	mc_outcome("packet", ok);
	mc_sample("type %02x%02x length %u modes %u %u alarms %02x%02x %02x%02x status %u: %s", p[0], p[1], len, p[2], p[3], p[9], p[10], p[11], p[12], p[13], ok ? "trusted" : "ignored");
	nout = iout = 0;
	out[nout++] = 0x10;
	for (unsigned i = 0; i < len; ++i) {
		out[nout++] = p[i];
		if (p[i] == 0x10) out[nout++] = 0x10;
	}
	out[nout++] = 0x10; out[nout++] = 0x03;
	mc_assert(nout <= sizeof out, "engine: packet too long");
	if (p[0] == 0x10 || p[0] == 3) mc_prune();
}
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t len)
{
	mc_testcancel();
	mc_assert(connected, "read without connection");
	mc_assert(!lossSeen, "reads again although the connection was lost");
	if (iout == nout) {
		finish();
		if (asks > 0 && mc_choose(2, "position asked")) { --asks; ask(); }
		if (steps == 0) {
			if (!ending && asks <= 0 && mc_param("asks", 1)) { ask(); }
			ending = true;
			mc_cancel(mc_self());
			mc_testcancel();
		}
		--steps;
		if (recon > 0 && mc_choose(2, "connection lost")) { --recon; lossSeen = true; return 0; }
		packet();
	}
	unsigned n = nout - iout < len ? nout - iout : len;
	if (mc_param("split", 0) && n > 40) n = 40;
	memcpy(b, out + iout, n);
	iout += n;
	memset(out, 0, iout == nout ? sizeof out : 0);
	return n;
}
static void thread(void * a) { (void)a; TRIMBLE_comp.main(); mc_fail("main loop returned"); }
static int t;
static bool p_done(void * a) { (void)a; return mc_thread_done(t); }
void mc_harness(void)
{
	steps = mc_param("steps", 1); recon = mc_param("recon", 0); sfail = mc_param("sfail", 0); asks = mc_param("asks", 1);
	mc_preempt_budget = 0;
	if (TRIMBLE_comp.onConstruct) mc_assert(TRIMBLE_comp.onConstruct(), "construction failed");
	t = mc_thread(&thread, NULL, "gps");
	mc_block(&p_done, NULL, false, "end");
	mc_assert(!connected && opens == closes, "connection not closed");
	/* locks are free */
	expSent = sent + 1; if (sfail > 0) sfail = 0;
	if (!hasPos) need = true, (void)0;
	GPS_setHasFix(false);
}
