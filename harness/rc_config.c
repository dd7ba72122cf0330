/* R02: receiver configuration under every filter setting, write failure and
 * sequence of run-time changes */
#include "common.h"
#include "core/input.h"
#include "core/filter.h"
#include "radarcape/rc-input.h"

static uint8_t got[64];
static unsigned ngot;
static int fails, wfail;
static bool connected, dirty, uart;
static unsigned connects;

void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() { connected = false; }
void RC_INPUT_connect() { connected = true; dirty = false; ngot = 0; ++connects; memset(got, 0, sizeof got); }
size_t RC_INPUT_write(uint8_t * buf, size_t len)
{
	mc_assert(uart, "a network-attached receiver was written to");
	mc_assert(connected, "write without connection");
	mc_assert(!dirty, "an option is sent after a failed write without a new connection");
	if (fails > 0) {
		int c = mc_choose(len > 1 ? 3 : 2, "write fails");
		if (c) { --fails; dirty = true; return c == 1 ? 0 : len - 1; }
	}
	mc_assert(ngot + len <= sizeof got, "too much is written");
	memcpy(got + ngot, buf, len);
	ngot += len;
	return len;
}
size_t RC_INPUT_read(uint8_t * buf, size_t len) { mc_assert(connected && !dirty, "reads from an unconfigured connection"); return 0; }
static void cmp(unsigned a, unsigned b) { mc_assert(a == b, "option '%c' sent %s", a < b ? a : b, a < b ? "unexpectedly" : "not at all"); }
static void sorted(char * o, unsigned n)
{
	for (unsigned i = 0; i < n; ++i)
		for (unsigned j = i + 1; j < n; ++j)
			if (o[j] < o[i]) { char t = o[i]; o[i] = o[j]; o[j] = t; }
}
static void checkAll(bool ext, bool crc, bool fec)
{
	char want[16], have[32] = "";
	if (!uart) { mc_assert(ngot == 0, "a network-attached receiver was written to"); return; }
	sprintf(want, "C%cE%cGH%cjYR", ext ? 'D' : 'd', crc ? 'f' : 'F', fec ? 'i' : 'I');
	mc_assert(!dirty, "connection considered configured although a write failed");
	mc_assert(ngot % 3 == 0 && ngot / 3 < sizeof have, "options are not three bytes each");
	for (unsigned i = 0; i < ngot; i += 3) {
		mc_assert(got[i] == 0x1a && got[i + 1] == '1', "option is not introduced by 1a '1'");
		have[i / 3] = got[i + 2];
	}
	sorted(want, strlen(want));
	sorted(have, ngot / 3);
	mc_assert(!strcmp(want, have), "options '%s' sent, should be '%s'", have, want);
	(void)cmp;
}
void mc_harness(void)
{
	uart = mc_param("uart", 1);
	fails = mc_param("fails", 2);
	const struct CFG_Section * c = FILTER_comp.config;
	bool crc = mc_choose(2, "crc"), ext = mc_choose(2, "ext"), fec = mc_choose(2, "fec"), sync = mc_choose(2, "sync");
	cfg_bool(c, "CRC", crc); cfg_bool(c, "ModeSExtSquitterOnly", ext); cfg_bool(c, "SyncFilter", sync);
	cfg_bool(INPUT_comp.config, "fec", fec);
	mc_assert(FILTER_comp.onConstruct(), "filter");
	if (INPUT_comp.onConstruct) mc_assert(INPUT_comp.onConstruct(), "input");
	int n = mc_param("ops", 4);
	while (n--) {
		struct OPENSKY_RawFrame raw; struct OPENSKY_DecodedFrame dec;
		switch (mc_choose(connected ? 6 : 1, "operation")) {
		case 0: {
			if (connected) INPUT_disconnect();
			unsigned before = connects;
			int f = fails;
			INPUT_connect();
			mc_assert(connected && connects - before == (unsigned)(f - fails) + 1, "connection made %u times with %d failures", connects - before, f - fails);
			checkAll(ext, crc, fec);
			break;
		}
		case 1: case 2:
			if (dirty) mc_prune();
			ngot = 0;
			wfail = fails; fails = 0; /* failing run-time changes show up when reading */
			ext = !ext;
			FILTER_setModeSExtSquitter(ext);
			fails = wfail;
			if (uart)
				mc_assert(ngot == 3 && got[0] == 0x1a && got[1] == '1' && got[2] == (ext ? 'D' : 'd'), "run-time change of the frame filter sent %u bytes, option '%c'", ngot, ngot >= 3 ? got[2] : '-');
			else
				mc_assert(ngot == 0, "a network-attached receiver was written to");
			break;
		case 3:
			ngot = 0;
			sync = !sync;
			FILTER_setSynchronizedFilter(sync);
			mc_assert(ngot == 0, "the receiver was written to for no reason");
			break;
		case 4:
			ngot = 0;
			mc_assert(!INPUT_getFrame(&raw, &dec), "frame from nowhere");
			mc_assert(ngot == 0, "the receiver was written to while reading");
			break;
		case 5: FILTER_reset(); break;
		}
		mc_outcome("op", ngot << 3 | ext << 2 | crc << 1 | fec);
	}
}
