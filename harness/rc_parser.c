/* R01: the Beast decoder on every stream (within the bounds) in every
 * chunking, against a bytewise reference decoder; reconnections anywhere. */
#include "common.h"
#include "core/input.h"
#include "core/openskytypes.h"
#include "radarcape/rc-input.h"

enum { S = 0x1a, MAXB = 96 };
/* reference decoder */
enum { START, HUNT, HUNT_S, TYPE, DATA, DATA_S };
struct Frame { uint8_t type, len, data[21], raw[46], rawLen; };
static struct { int st; struct Frame cur, done[8]; int nd; unsigned fed; } R;
static int need(uint8_t t) { return t == '1' ? 9 : t == '2' ? 14 : t == '3' || t == '4' ? 21 : 0; }
static void rType(uint8_t b)
{
	memset(&R.cur, 0, sizeof R.cur);
	if (!need(b)) {
		R.st = HUNT;
		return;
	}
	R.cur.type = b;
	R.cur.raw[0] = S; R.cur.raw[1] = b; R.cur.rawLen = 2;
	R.st = DATA;
}
static void rData(uint8_t b)
{
	R.cur.data[R.cur.len++] = b;
	R.st = DATA;
	if (R.cur.len == need(R.cur.type)) {
		mc_assert(R.nd < 8, "engine: too many frames");
		R.done[R.nd++] = R.cur;
		memset(&R.cur, 0, sizeof R.cur);
		R.st = START;
	}
}
static void feed(uint8_t b)
{
	switch (R.st) {
	case START: R.st = b == S ? TYPE : HUNT; break;
	case HUNT: if (b == S) R.st = HUNT_S; break;
	case HUNT_S: if (b == S) R.st = HUNT; else rType(b); break;
	case TYPE: rType(b); break;
	case DATA:
		R.cur.raw[R.cur.rawLen++] = b;
		if (b == S) R.st = DATA_S; else rData(b);
		break;
	case DATA_S:
		if (b == S) { R.cur.raw[R.cur.rawLen++] = b; rData(b); } else rType(b);
		break;
	}
}

/* generated stream */
static unsigned total, maxTotal, maxFrames, gmode, chunkMode, fillb;
static int errs, splits, recon, esc;
static bool connected;
static unsigned pend, framePos; static uint8_t curType; static bool pendEsc;
static unsigned nFrames;
static bool ended, lossSeen;

/* the next byte of the stream, -1: no more */
static int gen(void)
{
	if (gmode == 0) {
		/* any stream over a small alphabet */
		static const uint8_t fix[] = { S, '1', '4', 'x', 0 };
		int n = mc_param("alpha", 3);
		if (total >= maxTotal)
			return -1;
		++total;
		int c = mc_choose(n, "byte");
		return c == n - 1 ? 0x80 + total : fix[c];
	}
	/* well-formed frames with some errors */
	if (pendEsc) {
		pendEsc = false;
		if (errs > 0 && mc_choose(2, "drop escape")) { --errs; } else
		return S;
	}
	if (framePos == 0) {
		if (nFrames >= maxFrames)
			return -1;
	}
	if (errs > 0) {
		int e = mc_choose(5, "error");
		if (e) --errs;
		switch (e) {
		case 1: return S;                 /* inserted SYNC */
		case 2: return 0xc1;              /* inserted garbage */
		case 3: framePos = 0; ++nFrames;  /* truncated */
			if (nFrames >= maxFrames) return -1;
			break;
		case 4: return '3';
		}
	}
	if (framePos == 0) {
		framePos = 1;
		return S;
	}
	if (framePos == 1) {
		unsigned mask = mc_param("types", 15), t[4], n = 0;
		for (unsigned i = 0; i < 4; ++i) if (mask >> i & 1) t[n++] = i;
		curType = '1' + t[mc_choose(n, "type")];
		framePos = 2;
		return curType;
	}
	unsigned i = framePos - 2;
	++framePos;
	uint8_t b = 0x30 + 0x50 * (nFrames & 1) + i * 3;
	if (b == S) b = 0x1b;
	if (framePos - 2 == (unsigned)need(curType)) { framePos = 0; ++nFrames; }
	if (esc > 0 && mc_choose(2, "escaped data")) {
		--esc;
		pendEsc = true;
		return S;
	}
	return b;
}
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() { connected = false; }
void RC_INPUT_connect() { mc_assert(!connected, "connected twice"); connected = true; lossSeen = false; }
size_t RC_INPUT_write(uint8_t * buf, size_t len) { mc_fail("write to a receiver that is not directly attached"); }
size_t RC_INPUT_read(uint8_t * buf, size_t len)
{
	mc_assert(connected, "read without connection");
	mc_assert(!lossSeen, "reads again although the connection was lost");
	mc_assert(len > 0, "read into an empty buffer");
	if (ended || (recon > 0 && mc_choose(2, "connection lost"))) {
		lossSeen = true;
		return 0;
	}
	size_t want = 1, n = 0;
	if (chunkMode == 0)
		want = 1 + mc_choose(mc_param("maxchunk", 3), "chunk");
	else if (chunkMode == 1)
		want = len;
	while (n < want && n < len) {
		int b = gen();
		if (b < 0) {
			if (!n) { ended = lossSeen = true; return 0; }
			break;
		}
		buf[n++] = b;
		feed(b);
		if (chunkMode == 1 && splits > 0 && mc_choose(2, "split")) { --splits; break; }
	}
	if (len > n)
		memset(buf + n, fillb, len - n);
	return n;
}
void mc_harness(void)
{
	gmode = mc_param("gen", 0); chunkMode = mc_param("chunk", 0);
	maxTotal = mc_param("len", 12); maxFrames = mc_param("frames", 2);
	errs = mc_param("errs", 0); splits = mc_param("splits", 0); recon = mc_param("recon", 0); esc = mc_param("esc", 0);
	fillb = mc_param("fill", 0);
	if (INPUT_comp.onConstruct)
		mc_assert(INPUT_comp.onConstruct(), "construction failed");
	INPUT_connect();
	struct OPENSKY_RawFrame * raw = mc_malloc(sizeof *raw);
	struct OPENSKY_DecodedFrame * dec = mc_malloc(sizeof *dec);
	bool lost = false;
	while (true) {
		memset(raw, 0x77, sizeof *raw);
		memset(dec, 0x77, sizeof *dec);
		bool r = INPUT_getFrame(raw, dec);
		if (!r) {
			mc_assert(lossSeen, "loss of the connection reported although the connection works");
			mc_assert(R.nd == 0, "end of input reported although frame (type %c) was received completely", R.done[0].type);
			INPUT_disconnect();
			if (ended) break;
			--recon;
			lost = true;
		} else {
			mc_eval(true);
			mc_assert(R.nd > 0, "a frame (type %c) was delivered that is not in the stream", (char)dec->frameType);
			struct Frame * f = &R.done[0];
			mc_assert(dec->frameType == f->type, "frame type %u instead of %u", (unsigned)dec->frameType, f->type);
			uint64_t mlat = 0;
			for (int i = 0; i < 6; ++i) mlat = mlat << 8 | f->data[i];
			mc_assert(dec->mlat == mlat, "timestamp is %llx instead of %llx", (unsigned long long)dec->mlat, (unsigned long long)mlat);
			mc_assert(dec->siglevel == (int8_t)f->data[6], "signal level %d instead of %d", dec->siglevel, (int8_t)f->data[6]);
			mc_assert(dec->payloadLen == f->len - 7u, "payload length %zu instead of %u", dec->payloadLen, f->len - 7u);
			mc_assert(!memcmp(dec->payload, f->data + 7, dec->payloadLen), "payload differs");
			mc_assert(raw->rawLen == f->rawLen, "raw length %zu instead of %u", raw->rawLen, f->rawLen);
			mc_assert(!memcmp(raw->raw, f->raw, f->rawLen), "raw frame differs");
			mc_outcome("frame", mc_hash(f, sizeof *f, 0));
			mc_sample("type %c, raw length %u, sum %x", f->type, f->rawLen, (unsigned)mc_hash(f, sizeof *f, 0));
			memmove(R.done, R.done + 1, sizeof R.done - sizeof R.done[0]);
			--R.nd;
			memset(&R.done[R.nd], 0, sizeof R.done[0]);
			if (recon > 0 && mc_choose(2, "reconnect")) {
				--recon;
				INPUT_disconnect();
				lost = true;
			}
		}
		if (lost) {
			lost = false;
			/* nothing before is joined with what comes */
			memset(&R, 0, sizeof R);
			framePos = 0; pendEsc = false;
			if (gmode && nFrames < maxFrames) ++nFrames;
			INPUT_connect();
		}
	}
	mc_outcome("end", R.st);
}
