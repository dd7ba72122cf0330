/* P01: every sequence of input events through receiver, filter and buffer */
#include "common.h"
#include "core/recv.h"
#include "core/input.h"
#include "core/filter.h"
#include "core/buffer.h"

enum { MAXF = 8 };
static bool connected, hold, sync, syncF, ext, stop, cleaned;
const struct Component INPUT_comp = { .description = "INPUT" };
static int events, fails, cancels, nq, stat, recvThread;
static uint8_t q[MAXF], id;
static unsigned discarded;
struct OPENSKY_RawFrame * cur; /* frame offered last */
static struct OPENSKY_RawFrame * lastRejected;

static void fill(struct OPENSKY_RawFrame * f, uint8_t n)
{
	memset(f->raw, n, sizeof f->raw);
	f->raw[1] = ~n;
	f->rawLen = 11 + n % 30;
}
static void drain(void)
{
	while (nq) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		struct OPENSKY_RawFrame r;
		mc_assert(f, "an accepted frame is not in the buffer");
		fill(&r, q[0]);
		mc_assert(f->rawLen == r.rawLen && !memcmp(f->raw, r.raw, sizeof r.raw), "buffered frame differs from the accepted frame %u (first byte %u)", q[0], f->raw[0]);
		memset((void *)f, 0xdd, sizeof *f);
		BUF_releaseFrame(f);
		memmove(q, q + 1, --nq);
		q[nq] = 0;
	}
}
/** check the buffer: out is the number of frames held by the receiver */
static void check(int out)
{
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	mc_assert(s.queueSize == (size_t)nq, "%zu frames are buffered instead of %d", (size_t)s.queueSize, nq);
	mc_assert(s.poolSize == (size_t)(stat - nq - out), "%zu frames are free instead of %d", (size_t)s.poolSize, stat - nq - out);
	mc_assert(s.discardedAll == discarded, "%u frames were discarded instead of %u", (unsigned)s.discardedAll, discarded);
	if (!hold)
		drain();
}
static bool never(void * a) { (void)a; return false; }
static void cancelPoint(const char * what)
{
	if (stop)
		mc_block(&never, NULL, true, what);
	mc_testcancel();
}
static void maybeStop(void)
{
	if (cancels > 0 && mc_choose(2, "stop here")) stop = true;
	if (!events) stop = true;
}
void INPUT_connect()
{
	mc_assert(!connected, "connecting although the input is connected");
	check(0);
	maybeStop();
	cancelPoint("connect");
	connected = true;
	sync = false;
	mc_note("connected");
}
void INPUT_disconnect()
{
	mc_assert(connected, "disconnecting although the input is not connected");
	connected = false;
	mc_note("disconnected");
}
void INPUT_reconfigure() {}
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * d)
{
	mc_assert(connected, "reading although the input is not connected");
	mc_assert(raw && d, "no memory for a frame");
	mc_assert(mc_heap_valid(raw), "frame outside of the buffer");
	check(1);
	maybeStop();
	memset(raw, 0xee, sizeof *raw); /* input may scribble */
	memset(d, 0xee, sizeof *d);
	cancelPoint("getFrame");
	--events;
	int e = mc_choose(fails > 0 ? 10 : 9, "event");
	if (e == 9) { --fails; mc_note("failure"); mc_eval(false); return false; }
	/* kinds: 0 mode a/c, 1-2 short, 3-6 long, 7-8 status */
	static const uint8_t type[] = { '1', '2', '2', '3', '3', '3', '3', '4', '4' };
	static const uint8_t df[] = { 17, 11, 17, 17, 18, 19, 16, 17, 17 };
	static const uint8_t len[] = { 2, 7, 14, 14 };
	unsigned t = type[e];
	id = (id + 1) % 11;
	fill(raw, id);
	memset(d->payload, 0x11 * id, sizeof d->payload);
	d->frameType = t;
	d->payloadLen = len[t - '1'];
	/* timestamps: 0, low word 0, only high part */
	static const uint64_t ts[] = { 0, 1, 0xffffffffffffull, 0x100000000ull };
	d->mlat = t == '4' ? ts[e == 7 ? 0 : 1 + mc_choose(3, "timestamp")] : id & 1 ? 77 : 0;
	d->payload[0] = df[e] << 3 | (id & 7);
	d->siglevel = -3;
	if (t == '4' && d->mlat) sync = true;
	bool pass = (t == '2' || t == '3') && (sync || !syncF) && (!ext || df[e] == 17 || df[e] == 18);
	if (pass) {
		/* one frame is for production: the buffer can hold stat - 1 */
		q[nq++] = id;
		if (nq == stat) { memmove(q, q + 1, --nq); q[nq] = 0; ++discarded; }
	}
	mc_note("frame %u type %c df %u: %s", id, t, df[e], pass ? "accepted" : "rejected");
	mc_eval(pass);
	mc_outcome("event", e << 4 | pass << 3 | sync << 2 | syncF << 1 | ext);
	return true;
}
static void run(void * a) { (void)a; RECV_comp.main(); mc_fail("the receiver terminates"); }
static bool p_done(void * t) { return mc_thread_done(*(int *)t); }
static bool p_stop(void * a) { (void)a; return stop; }
void mc_harness(void)
{
	const struct CFG_Section * b = BUF_comp.config, * f = FILTER_comp.config;
	stat = mc_param("stat", 4); hold = mc_param("hold", 0);
	int cycles = mc_param("cycles", 1);
	cfg_int(b, "StaticBacklog", stat); cfg_int(b, "DynamicBacklog", 1); cfg_int(b, "DynamicIncrements", 0);
	cfg_bool(b, "History", 0); cfg_bool(b, "GC", 0); cfg_int(b, "GCInterval", 10); cfg_int(b, "GCLevel", 1);
	syncF = mc_choose(2, "sync filter"); ext = mc_choose(2, "extended squitter only");
	cfg_bool(f, "CRC", 1); cfg_bool(f, "SyncFilter", syncF); cfg_bool(f, "ModeSExtSquitterOnly", ext);
	mc_assert(cfg_accept(b) && cfg_accept(f), "configuration refused");
	mc_preempt_budget = 0;
	while (cycles-- > 0) {
		events = mc_param("len", 4); fails = mc_param("fails", 2); cancels = mc_param("cancels", 1);
		mc_assert(BUF_comp.onConstruct() && FILTER_comp.onConstruct(), "construction failed");
		if (BUF_comp.onReset) BUF_comp.onReset();
		discarded = 0; stop = false;
		int t = mc_thread(&run, NULL, "recv");
		mc_block(&p_stop, NULL, false, "stop");
		mc_cancel(t);
		mc_block(&p_done, &t, false, "join");
		mc_assert(!connected, "the input is still connected after cancellation");
		check(0);
		drain();
		if (BUF_comp.onDestruct) BUF_comp.onDestruct();
		mc_assert(!mc_heap_blocks(), "memory is not released");
		mc_sample("sync filter %d, ext %d: %u discarded", syncF, ext, discarded);
	}
}
