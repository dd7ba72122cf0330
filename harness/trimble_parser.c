/* T01: the GPS packet decoder on every stream (within the bounds) in every
 * chunking, against a bytewise reference decoder; reconnections anywhere. */
#include "common.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"

enum { B = 0x10, EOM = 0x03, MAXL = 400 };
enum { START, HUNT, HUNT_B, TYPE, DATA, DATA_B };
static struct { int st; unsigned len; uint8_t data[MAXL]; struct { unsigned len; uint8_t data[MAXL]; } done[12]; int nd; } R;
static unsigned bufLen;
static void rType(uint8_t b)
{
	memset(R.data, 0, sizeof R.data);
	R.len = 0;
	if (b == B || b == EOM) { R.st = HUNT; return; }
	R.data[R.len++] = b;
	R.st = DATA;
}
static void rData(uint8_t b)
{
	if (R.len == bufLen) { R.st = HUNT; return; }
	R.data[R.len++] = b;
	R.st = DATA;
}
static void feed(uint8_t b)
{
	switch (R.st) {
	case START: R.st = b == B ? TYPE : HUNT; break;
	case HUNT: if (b == B) R.st = HUNT_B; break;
	case HUNT_B: if (b == B || b == EOM) R.st = HUNT; else rType(b); break;
	case TYPE: rType(b); break;
	case DATA: if (b == B) R.st = DATA_B; else rData(b); break;
	case DATA_B:
		if (b == B) rData(b);
		else if (b == EOM) {
			mc_assert(R.nd < 12, "engine: too many packets");
			R.done[R.nd].len = R.len;
			memcpy(R.done[R.nd++].data, R.data, MAXL);
			memset(R.data, 0, MAXL); R.len = 0;
			R.st = START;
		} else rType(b);
		break;
	}
}
static unsigned total, maxTotal, maxFrames, gmode, chunkMode, fillb, framePos, frameLen, nFrames, written, connects, expConnects;
static int errs, splits, recon, esc, wfails;
static bool connected, ended, pendEsc, configured, lossSeen;

static int gen(void)
{
	if (gmode == 0) {
		static const uint8_t fix[] = { B, EOM, 0x8f };
		int n = mc_param("alpha", 3);
		if (total >= maxTotal) return -1;
		++total;
		int c = mc_choose(n, "byte");
		return c == n - 1 ? 0x80 + total : fix[c];
	}
	if (pendEsc) {
		pendEsc = false;
		if (errs > 0 && mc_choose(2, "drop escape")) --errs; else return B;
	}
	if (framePos == 0 && nFrames >= maxFrames) return -1;
	if (errs > 0) {
		int e = mc_choose(5, "error");
		if (e) --errs;
		switch (e) {
		case 1: return B;
		case 2: return 0xc1;
		case 3: framePos = 0; ++nFrames; if (nFrames >= maxFrames) return -1; break;
		case 4: return EOM;
		}
	}
	unsigned p = framePos++;
	if (p == 0) {
		static const unsigned lens[] = { 1, 2, 68, 69, 130 };
		frameLen = mc_param("plen", 0) ? mc_param("plen", 0) : lens[mc_choose(5, "length")];
		return B;
	}
	if (p == 1) return 0x8f;
	if (p == frameLen + 1) return B;
	if (p == frameLen + 2) { framePos = 0; ++nFrames; return EOM; }
	if (esc > 0 && mc_choose(2, "escaped data")) { --esc; pendEsc = true; return B; }
	uint8_t b = 0x20 + nFrames * 11 + p * 3;
	return b == B ? EOM : b;
}
void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
void TRIMBLE_INPUT_disconnect() { connected = false; }
void TRIMBLE_INPUT_connect() { connected = true; configured = lossSeen = false; written = 0; ++connects; }
size_t TRIMBLE_INPUT_write(const uint8_t * buf, size_t len)
{
	static const uint8_t want[] = { B, 0x35, 0x04, 0x00, 0x01, 0x08, B, EOM };
	mc_assert(connected, "write without connection");
	mc_assert(written + len <= sizeof want && !memcmp(want + written, buf, len), "the receiver is sent something else than the time mode command");
	if (wfails > 0) {
		int c = mc_choose(3, "write fails");
		if (c) { --wfails; connected = false; ++expConnects; return c == 1 ? 0 : len - 1; }
	}
	written += len;
	if (written == sizeof want) configured = true;
	return len;
}
size_t TRIMBLE_INPUT_read(uint8_t * buf, size_t len)
{
	mc_assert(connected, "read without connection");
	mc_assert(configured, "read before the receiver was configured");
	mc_assert(!lossSeen, "reads again although the connection was lost");
	mc_assert(len > 0, "read into an empty buffer");
	if (ended || (recon > 0 && mc_choose(2, "connection lost"))) { lossSeen = true; return 0; }
	size_t want = 1, n = 0;
	if (chunkMode == 0) want = 1 + mc_choose(mc_param("maxchunk", 3), "chunk");
	else if (chunkMode == 1) want = len;
	while (n < want && n < len) {
		int b = gen();
		if (b < 0) {
			if (!n) { ended = lossSeen = true; return 0; }
			break;
		}
		buf[n++] = b;
		feed(b);
		if (chunkMode == 1 && splits > 0 && mc_choose(2, "split")) { --splits; break; }
	}
	if (len > n) memset(buf + n, fillb, len - n);
	return n;
}
void mc_harness(void)
{
	gmode = mc_param("gen", 0); chunkMode = mc_param("chunk", 0);
	maxTotal = mc_param("len", 12); maxFrames = mc_param("frames", 2);
	errs = mc_param("errs", 0); splits = mc_param("splits", 0); recon = mc_param("recon", 0); esc = mc_param("esc", 0);
	wfails = mc_param("wfails", 0);
	fillb = mc_param("fill", 0);
	bufLen = mc_param("buf", 5);
	TRIMBLE_PARSER_init();
	TRIMBLE_PARSER_connect();
	uint8_t * pkt = mc_malloc(bufLen);
	++expConnects;
	while (true) {
		mc_assert(connects == expConnects && configured, "%u connections made instead of %u", connects, expConnects);
		memset(pkt, 0x77, bufLen);
		size_t r = TRIMBLE_PARSER_getFrame(pkt, bufLen);
		bool lost = false;
		if (!r) {
			mc_assert(lossSeen, "loss of the connection reported although the connection works");
			mc_assert(R.nd == 0, "end of input reported although a packet of %u bytes was received completely", R.done[0].len);
			TRIMBLE_PARSER_disconnect();
			if (ended) break;
			--recon;
			lost = true;
		} else {
			mc_eval(true);
			mc_assert(R.nd > 0, "a packet (%zu bytes, type %02x) was returned that is not in the stream", r, pkt[0]);
			mc_assert(r == R.done[0].len, "packet of %zu bytes instead of %u", r, R.done[0].len);
			mc_assert(!memcmp(pkt, R.done[0].data, r), "packet content differs");
			mc_outcome("packet", mc_hash(pkt, r, 0));
			mc_sample("packet of %zu bytes, sum %x", r, (unsigned)mc_hash(pkt, r, 0));
			memmove(R.done, R.done + 1, sizeof R.done - sizeof R.done[0]);
			--R.nd;
			memset(&R.done[R.nd], 0, sizeof R.done[0]);
			if (recon > 0 && mc_choose(2, "reconnect")) { --recon; TRIMBLE_PARSER_disconnect(); lost = true; }
		}
		if (lost) {
			memset(&R, 0, sizeof R);
			framePos = 0; pendEsc = false;
			if (gmode && nFrames < maxFrames) ++nFrames;
			++expConnects;
			TRIMBLE_PARSER_connect();
		}
	}
	mc_outcome("end", R.st);
}
