/* F01: every sequence of filter settings, then every frame */
#include "common.h"
#include "core/filter.h"
#include "core/input.h"

static int want, reconf;
void INPUT_reconfigure()
{
	++reconf;
	mc_assert(want >= 0, "the receiver is reconfigured for no reason");
	mc_assert(FILTER_getConfiguration()->extSquitter == want, "the receiver is reconfigured with the old setting");
}
static bool sync, syncF, ext, crc;
static struct FILTER_Statistics st;
static void stats(void)
{
	struct FILTER_Statistics s;
	FILTER_getStatistics(&s);
#define C(f) mc_assert(s.f == st.f, "statistics: " #f " is %lu, should be %lu", (unsigned long)s.f, (unsigned long)st.f)
	for (int i = 0; i < 4; ++i) C(framesByType[i]);
	for (int i = 0; i < 32; ++i) C(modeSByType[i]);
	C(filtered); C(modeSfiltered); C(unsynchronized);
}
static void one(unsigned type, unsigned byte)
{
	unsigned df = byte >> 3;
	bool modeS = type == '2' || type == '3';
	bool passSync = sync || !syncF, passDf = !ext || df == 17 || df == 18;
	bool pass = modeS && passSync && passDf;
	bool r = FILTER_filter(type, byte);
	mc_assert(r == pass, "frame type %c, downlink format %u %s with synchronized=%d, sync filter=%d, extended squitter only=%d",
		type, df, r ? "passes" : "does not pass", sync, syncF, ext);
	++st.framesByType[type - '1'];
	if (!sync) ++st.unsynchronized;
	if (!pass) ++st.filtered;
	if (modeS && passSync) {
		++st.modeSByType[df];
		if (!passDf) ++st.modeSfiltered;
	}
	mc_eval(pass);
}
void mc_harness(void)
{
	const struct CFG_Section * c = FILTER_comp.config;
	crc = mc_choose(2, "crc"); ext = mc_choose(2, "ext"); syncF = mc_choose(2, "syncFilter");
	cfg_bool(c, "CRC", crc); cfg_bool(c, "ModeSExtSquitterOnly", ext); cfg_bool(c, "SyncFilter", syncF);
	want = -1;
	mc_assert(cfg_accept(c) && FILTER_comp.onConstruct(), "construction failed");
	if (FILTER_comp.onReset) FILTER_comp.onReset();
	int n = mc_param("ops", 5);
	while (n-- > 0) {
		want = -1; reconf = 0;
		int op = mc_choose(13, "operation");
		switch (op) {
		case 0: n = 0; break;
		case 1: FILTER_reset(); sync = false; break;
		case 2: case 3: sync = op & 1; FILTER_setSynchronized(sync); break;
		case 4: case 5: syncF = op & 1; FILTER_setSynchronizedFilter(syncF); break;
		case 6: case 7:
			ext = op & 1; want = ext; FILTER_setModeSExtSquitter(ext);
			mc_assert(reconf >= 1, "the receiver was not reconfigured");
			break;
		case 8: FILTER_comp.onReset(); memset(&st, 0, sizeof st); break;
		case 12:
			if (FILTER_comp.onDestruct) FILTER_comp.onDestruct();
			mc_assert(FILTER_comp.onConstruct(), "construction failed");
			sync = false;
			break;
		case 9: one('3', 17 << 3 | 5); break;
		case 10: one('2', 11 << 3); break;
		case 11: one("14"[mc_choose(2, "type")], 0x8d); break;
		}
		const struct FILTER_Configuration * f = FILTER_getConfiguration();
		mc_assert(f->crc == crc && f->sync == syncF && f->extSquitter == ext, "configuration values were changed");
		stats();
	}
	want = -1;
	for (unsigned t = '1'; t <= '4'; ++t)
		for (unsigned b = 0; b < 256; ++b)
			one(t, b);
	stats();
	mc_outcome("state", sync << 3 | syncF << 2 | ext << 1 | crc);
	mc_sample("sync=%d syncFilter=%d ext=%d crc=%d", sync, syncF, ext, crc);
}
