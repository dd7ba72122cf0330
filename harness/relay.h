/* what the server sees: shared by relay.c and relaynet.c */
#ifndef RELAY_H
#define RELAY_H
#include "common.h"
#include "core/relay.h"
#include "core/login.h"
#include "core/buffer.h"
#include "core/gps.h"
#include "core/serial.h"
#include "core/beast.h"
#include "core/openskytypes.h"
#include "core/devicetypes.h"

/* per connection */
struct Session { uint8_t stage; bool frames; bool lost; };
static unsigned committing, committed, nextExp = 1, gaps, floorId, lastSent, firstPut;
static bool pHist;
static bool timedOut;
static int serialFails, position;

enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
{
	if (serialFails > 0 && mc_choose(2, "serial number")) { --serialFails; return SERIAL_RETURN_FAIL_NET; }
	*serial = 0x1a001a2b;
	return SERIAL_RETURN_SUCCESS;
}
static void commit(unsigned id)
{
	struct OPENSKY_RawFrame * f = BUF_newFrame();
	mc_assert(f, "no frame");
	f->raw[0] = 0x1a; f->raw[1] = '3'; f->raw[2] = id; f->rawLen = 3;
	committing = id;
	BUF_commitFrame(f);
	committed = id;
}
/** is the connection able to take that message? returns frame id or 0 */
static unsigned on_message(struct Session * s, const uint8_t * p, size_t n)
{
	mc_assert(n >= 2 && p[0] == 0x1a, "message without start");
	switch (p[1]) {
	case OPENSKY_FRAME_TYPE_DEVICE_ID:
		mc_assert(s->stage == 0, "device id is sent at stage %d of the login", s->stage);
		break;
	case OPENSKY_FRAME_TYPE_SERIAL:
		mc_assert(s->stage == 1, "serial number is sent at stage %d of the login", s->stage);
		break;
	case OPENSKY_FRAME_TYPE_USER:
		mc_assert(s->stage == 2, "user name is sent at stage %d of the login", s->stage);
		break;
	case OPENSKY_FRAME_TYPE_GPS_POSITION:
		mc_assert(s->stage >= 2, "the position is sent at stage %d of the login", s->stage);
		break;
	case OPENSKY_FRAME_TYPE_KEEP_ALIVE:
		mc_assert(n == 2, "keep-alive has %zu bytes", n);
		mc_assert(s->stage == 3, "keep-alive is sent before the login");
		mc_assert(timedOut, "keep-alive is sent although there was no timeout");
		break;
	case '3':
		mc_assert(n == 3, "frame has %zu bytes", n);
		mc_assert(s->stage == 3, "a frame is sent before the login is complete (stage %d)", s->stage);
		mc_assert(!timedOut, "there was a timeout, but no keep-alive is sent");
		mc_assert(p[2] > 0 && p[2] <= committing, "frame %u was never committed", p[2]);
		mc_assert(p[2] > lastSent, "frame %u is sent after %u", p[2], lastSent);
		if (!pHist) mc_assert(p[2] > floorId, "frame %u was buffered before the login, but is sent without history", p[2]);
		if (firstPut) {
			struct BUFFER_Statistics b;
			BUFFER_getStatistics(&b);
			mc_assert(p[2] == firstPut || (!pHist && p[2] > firstPut) || b.discardedAll, "frame %u was in transit, but %u is sent first", firstPut, p[2]);
		}
		return p[2];
	default:
		mc_fail("unknown message %u", p[1]);
	}
	return 0;
}
/** the message was transferred */
static void on_sent(struct Session * s, const uint8_t * p)
{
	switch (p[1]) {
	case OPENSKY_FRAME_TYPE_DEVICE_ID: s->stage = 1; break;
	case OPENSKY_FRAME_TYPE_SERIAL: s->stage = 2; break;
	case OPENSKY_FRAME_TYPE_USER: s->stage = 3; floorId = committed; break;
	case OPENSKY_FRAME_TYPE_KEEP_ALIVE: timedOut = false; break;
	case '3':
		mc_eval(true);
		if (pHist || s->frames) gaps += p[2] - nextExp;
		nextExp = p[2] + 1;
		lastSent = p[2];
		firstPut = 0;
		s->frames = true;
		break;
	}
	mc_outcome("sent", p[1]);
}
static void on_failed(const uint8_t * p)
{
	if (p[1] == '3') firstPut = p[2];
	if (p[1] == OPENSKY_FRAME_TYPE_KEEP_ALIVE) timedOut = false;
}
extern void (*mc_on_timedwait)(const struct timespec *, bool);
static unsigned pTimeout;
static void on_timed(const struct timespec * ts, bool expired)
{
	int64_t ms = (ts->tv_sec - mc_time_s) * 1000 + (ts->tv_nsec - mc_time_ns) / 1000000;
	mc_assert(ms == pTimeout, "waiting %ld ms for a frame", (long)ms);
	mc_assert(!timedOut, "there was a timeout, but no keep-alive was sent");
	timedOut = expired;
}
static void setup(void)
{
	pHist = mc_param("hist", 1); serialFails = mc_param("sfails", 0); position = mc_param("pos", 0);
	const struct CFG_Section * c = BUF_comp.config;
	cfg_int(c, "StaticBacklog", mc_param("stat", 4)); cfg_int(c, "DynamicBacklog", 1);
	cfg_int(c, "DynamicIncrements", 0); cfg_bool(c, "History", pHist); cfg_bool(c, "GC", false);
	mc_assert(cfg_accept(c), "configuration refused");
	mc_assert(BUF_comp.onConstruct(), "construction failed");
	pTimeout = mc_param("timeout", 1500);
	cfg_int(RELAY_comp.config, "Timeout", pTimeout);
	mc_assert(cfg_accept(RELAY_comp.config), "configuration refused");
	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_BOGUS);
	LOGIN_setUsername("u");
	mc_time_s = 1000; mc_time_ns = 999000000;
	mc_on_timedwait = &on_timed;
}
/** nothing runs any more: what remains in the buffer? */
static void leftovers(void)
{
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	unsigned exp = nextExp;
	mc_on_timedwait = NULL;
	mc_timeouts_on = true;
	for (;;) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		if (!f) break;
		mc_assert(f->rawLen == 3 && f->raw[2] > lastSent && f->raw[2] >= exp, "frame %u is in the buffer after frame %u", f->raw[2], lastSent);
		if (pHist) gaps += f->raw[2] - exp;
		exp = f->raw[2] + 1;
		BUF_releaseFrame(f);
	}
	if (pHist) {
		gaps += committed + 1 - exp;
		mc_assert(gaps == b.discardedAll, "%u frames were lost, but %u discarded", gaps, (unsigned)b.discardedAll);
		mc_assert(mc_param("stat", 4) < mc_param("frames", 3) || !gaps, "frames were discarded although there is room");
	} else
		mc_assert(gaps == b.discardedAll || b.discardedAll, "%u frames were lost within a connection", gaps);
	struct BUFFER_Statistics e;
	BUFFER_getStatistics(&e);
	mc_assert(e.queueSize == 0 && e.poolSize == (unsigned)mc_param("stat", 4), "%u of %ld frames are back in the pool", (unsigned)e.poolSize, mc_param("stat", 4));
	BUF_comp.onDestruct();
	mc_assert(mc_heap_blocks() == 0, "memory leaked");
}
#endif
