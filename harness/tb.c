/* K01: packet dispatcher, fed with all streams in all chunkings */
#include "common.h"
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"

void INPUT_reconfigure() {}

/* reference model: what is buffered and which callbacks are due */
static uint8_t mbuf[128];
static unsigned mlen;
struct Due { uint16_t type, len; uint8_t payload[124]; };
static struct Due due[40];
static int nDue;
static bool reg[TB_PACKET_TYPE_N];
static unsigned regLen[TB_PACKET_TYPE_N] = { 6, 0, 124, 1, 2, 4 };
static bool fSync, fExt, synced;

static void model(const uint8_t * p, unsigned n)
{
	memcpy(mbuf + mlen, p, n);
	mlen += n;
	while (mlen >= 4) {
		unsigned type = mbuf[0] << 8 | mbuf[1], len = mbuf[2] << 8 | mbuf[3];
		if (len > 128 || len < 4) { memset(mbuf, 0, sizeof mbuf); mlen = 0; break; }
		if (mlen < len) break;
		if (type < TB_PACKET_TYPE_N && reg[type] && regLen[type] == len - 4) {
			mc_assert(nDue < 40, "harness: too many packets");
			due[nDue].type = type; due[nDue].len = len - 4;
			memcpy(due[nDue].payload, mbuf + 4, len - 4);
			++nDue;
		}
		memmove(mbuf, mbuf + len, mlen - len);
		mlen -= len;
		memset(mbuf + mlen, 0, sizeof mbuf - mlen);
	}
}
static void pop(void)
{
	mc_eval(true);
	mc_outcome("packet", mc_hash(&due[0], sizeof due[0], 0));
	mc_sample("type %u, %u bytes payload", due[0].type, due[0].len);
	memmove(due, due + 1, sizeof due - sizeof due[0]);
	memset(&due[--nDue], 0, sizeof due[0]);
}
static void popFilter(void)
{
	while (nDue > 0 && due[0].type == TB_PACKET_TYPE_FILTER) {
		uint8_t m = due[0].payload[0], v = due[0].payload[1];
		if (m & 1) fSync = v & 1;
		if (m & 2) fExt = v >> 1 & 1;
		if (m & 0x80) synced = false;
		pop();
	}
}
static void filterState(const char * when);
static void called(unsigned type, const uint8_t * payload)
{
	popFilter();
	filterState("before the next packet");
	mc_assert(nDue > 0, "packet of type %u is dispatched, but was not received", type);
	mc_assert(due[0].type == type, "packet of type %u is dispatched, but type %u is next", type, due[0].type);
	mc_assert(!memcmp(due[0].payload, payload, due[0].len), "packet of type %u: wrong payload", type);
	pop();
}
static void cb0(const uint8_t * p) { called(0, p); }
static void cb1(const uint8_t * p) { called(1, p); }
static void cb2(const uint8_t * p) { called(2, p); }
static void cb3(const uint8_t * p) { called(3, p); }
static void cb5(const uint8_t * p) { called(5, p); }
static TB_ProcessorFn fns[] = { cb0, cb1, cb2, cb3, NULL, cb5 };

static void filterState(const char * when)
{
	const struct FILTER_Configuration * c = FILTER_getConfiguration();
	mc_assert(c->sync == fSync, "%s: filter for synchronized frames is %d instead of %d", when, c->sync, fSync);
	mc_assert(c->extSquitter == fExt, "%s: filter for extended squitters is %d instead of %d", when, c->extSquitter, fExt);
	mc_assert(FILTER_filter('3', 17 << 3) == (synced || !fSync), "%s: synchronisation state of the filter is not %d", when, synced);
	FILTER_comp.onReset(); /* the statistics shall not count as state */
}
/* everything received has been dispatched; filter commands took effect */
static void settled(void)
{
	popFilter();
	mc_assert(nDue == 0, "packet of type %u was received, but not dispatched", due[0].type);
	filterState("after a packet");
}

/* stream */
static int gmode, chunkMode, splits, recon, left;
static unsigned total;
static uint8_t cur[160]; static unsigned curLen, curPos;
static bool connected, over;
static int uses;

static int gen(void)
{
	if (gmode == 0) {
		static const uint8_t al[] = { 0, 5, 1, 4, 6, 0x81, 3, 0xff };
		if (left <= 0) return -1;
		--left;
		return al[mc_choose(mc_param("alpha", 4), "byte")];
	}
	if (curPos == curLen) {
		curPos = curLen = 0;
		if (left <= 0) return -1;
		--left;
		memset(cur, 0, sizeof cur);
		static const uint16_t types[] = { 0, 1, 2, 3, 4, 5, 6, 0x0100, 0xffff };
		unsigned type = types[mc_choose(mc_param("types", 9), "type")];
		unsigned want = type < TB_PACKET_TYPE_N ? regLen[type] : 2;
		int k = mc_choose(mc_param("lens", 8), "length");
		unsigned real = want, len = want + 4;
		switch (k) {
		case 0: break;
		case 1: len = ++real + 4; break;
		case 2: if (real) --real; len = real + 4; break;
		case 3: len = 3; break;
		case 4: len = 129; break;
		case 5: len = 128; real = 124; break;
		case 6: len = 0x0100 | (want + 4); break;
		case 7: len = 0; break;
		}
		if (len > 128 && type == 2) real = 6;
		if (real > 124) { real = 124; }
		curPos = 0; curLen = 4 + real;
		cur[0] = type >> 8; cur[1] = type; cur[2] = len >> 8; cur[3] = len;
		for (unsigned i = 0; i < real; ++i) cur[4 + i] = 0x90 + i + left * 7;
		if (type == TB_PACKET_TYPE_FILTER && real >= 2) {
			static const uint8_t mv[] = { 3, 0x80, 0, 1, 2, 0x83, 0x7c, 0xff };
			cur[4] = mv[mc_choose(mc_param("masks", 8), "mask")]; cur[5] = mv[mc_choose(mc_param("masks", 8), "value")];
		}
	}
	int b = cur[curPos];
	cur[curPos++] = 0;
	return b;
}
void NET_waitConnected()
{
	if (over) mc_end();
	mc_assert(!connected, "waiting for a connection although there is one");
	connected = true;
	/* nothing of the last connection is kept */
	memset(mbuf, 0, sizeof mbuf); mlen = 0;
	settled();
	synced = true;
	FILTER_setSynchronized(true);
}
ssize_t NET_receive(uint8_t * buf, size_t len)
{
	mc_assert(connected, "receiving without a connection");
	mc_assert(len > 0, "receiving into an empty buffer");
	settled();
	memset(buf, 0, len);
	int op = recon > 0 ? mc_choose(2, "connection lost") : 0;
	if (op) {
		--recon;
		connected = false;
		curPos = curLen;
		return recon & 1 ? 0 : -1;
	}
	if (uses > 0) {
		int t = mc_choose(3, "(un)register");
		if (t) {
			--uses;
			t = t == 1 ? 1 : 5;
			if (reg[t]) TB_unregister(t);
			else TB_register(t, regLen[t], fns[t]);
			reg[t] = !reg[t];
		}
	}
	size_t want = 1, n = 0;
	if (chunkMode == 0) want = 1 + mc_choose(mc_param("maxchunk", 3), "chunk");
	else if (chunkMode == 1) want = len;
	uint8_t tmp[128];
	memset(tmp, 0, sizeof tmp);
	while (n < want && n < len && n < sizeof mbuf - mlen) {
		int b = gen();
		if (b < 0) {
			if (n) break;
			connected = false;
			over = true;
			return 0;
		}
		buf[n] = b; tmp[n] = b;
		++n;
		if (chunkMode == 1 && splits > 0 && n < want && mc_choose(2, "split")) { --splits; break; }
	}
	mc_assert(n > 0, "harness: no room");
	model(tmp, n);
	return n;
}
void mc_harness(void)
{
	gmode = mc_param("gen", 0); chunkMode = mc_param("chunk", 0); splits = mc_param("splits", 0); recon = mc_param("recon", 0);
	left = mc_param("len", 4); uses = mc_param("uses", 0);
	cfg_accept(FILTER_comp.config);
	FILTER_comp.onConstruct();
	fSync = FILTER_getConfiguration()->sync; fExt = FILTER_getConfiguration()->extSquitter;
	for (unsigned i = 0; i < TB_PACKET_TYPE_N; ++i) {
		if (i != TB_PACKET_TYPE_FILTER && !(mc_param("noreg", 0) >> i & 1)) TB_register(i, regLen[i], fns[i]);
		reg[i] = !(mc_param("noreg", 0) >> i & 1);
	}
	TB_register(TB_PACKET_TYPE_N, 0, cb0); /* out of range: ignored */
	TB_comp.main();
	mc_fail("the dispatcher ended");
}
