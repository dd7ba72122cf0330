/* L02: contents and order of the login messages */
#include "common.h"
#include "core/login.h"
#include "core/gps.h"
#include "core/serial.h"
#include "core/network.h"
#include "core/openskytypes.h"
#include "core/devicetypes.h"

static uint32_t dev, serial;
static char user[128];
static bool hasUser;
static int step, fails;
static bool failed, aborting;
static enum SERIAL_RETURN src;

/** unescape: returns length of content, -1 if wrong */
static int unescape(const uint8_t * p, size_t n, uint8_t * out)
{
	int l = 0;
	for (size_t i = 0; i < n; ++i) {
		if (p[i] == 0x1a) {
			if (i + 1 == n || p[i + 1] != 0x1a) return -1;
			++i;
		}
		out[l++] = p[i];
	}
	return l;
}
static uint32_t be(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

bool NET_send(const void * b, size_t n)
{
	const uint8_t * p = b;
	static uint8_t c[1024];
	mc_assert(!failed, "the login goes on after a failure");
	mc_assert(n >= 2 && n < 500 && p[0] == 0x1a, "message without start");
	int l = unescape(p + 2, n - 2, c);
	mc_assert(l >= 0, "message %u is not escaped correctly", p[1]);
	switch (step) {
	case 0: {
		mc_assert(p[1] == 65, "message %u instead of the device id", p[1]);
		mc_assert(l == 16, "device id has %d bytes", l);
		mc_assert(be(c) == dev, "device type %u instead of %u", be(c), dev);
		unsigned v[3];
		mc_assert(sscanf(PACKAGE_VERSION, "%u.%u.%u", v, v + 1, v + 2) == 3, "harness: version");
		mc_assert(be(c + 4) == v[0] && be(c + 8) == v[1] && be(c + 12) == v[2], "version %u.%u.%u instead of " PACKAGE_VERSION, be(c + 4), be(c + 8), be(c + 12));
		break;
	}
	case 1:
		mc_assert(p[1] == '5', "message %u instead of the serial number", p[1]);
		mc_assert(src == SERIAL_RETURN_SUCCESS, "serial number is sent although there is none");
		mc_assert(l == 4 && be(c) == serial, "serial number %08x instead of %08x", be(c), serial);
		break;
	case 3:
		mc_assert(hasUser, "user name is sent although there is none");
		mc_assert(p[1] == 67, "message %u instead of the user name", p[1]);
		mc_assert(l == 40, "user name has %d bytes", l);
		mc_assert(!memcmp(c, user, 40), "wrong user name");
		break;
	default:
		mc_fail("message %u is sent at step %d", p[1], step);
	}
	memset(c, 0, sizeof c);
	++step;
	mc_eval(true);
	if (fails > 0 && mc_choose(2, "sending fails")) { --fails; failed = true; return false; }
	return true;
}
bool GPS_sendPosition(void)
{
	mc_assert(!failed, "the login goes on after a failure");
	mc_assert(step == 2, "position is sent at step %d", step);
	++step;
	if (fails > 0 && mc_choose(2, "sending the position fails")) { --fails; failed = true; return false; }
	return true;
}
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s)
{
	mc_assert(!failed, "the login goes on after a failure");
	mc_assert(step <= 1, "serial number is requested at step %d", step);
	static const enum SERIAL_RETURN r[] = { SERIAL_RETURN_SUCCESS, SERIAL_RETURN_FAIL_NET, SERIAL_RETURN_FAIL_TEMP, SERIAL_RETURN_FAIL_PERM };
	src = fails > 0 ? r[mc_choose(4, "serial number")] : SERIAL_RETURN_SUCCESS;
	if (src != SERIAL_RETURN_SUCCESS) { --fails; *s = 0xdeadbeef; if (src == SERIAL_RETURN_FAIL_NET) failed = true; }
	else *s = serial;
	return src;
}
static void on_abort(const char * why)
{
	mc_assert(src == SERIAL_RETURN_FAIL_TEMP || src == SERIAL_RETURN_FAIL_PERM, "process terminates: %s", why);
	mc_end();
}
static void setUser(void)
{
	static const uint8_t len[] = { 1, 2, 39, 40, 41, 42, 80, 3 };
	int k = mc_choose(10, "user name");
	memset(user, 0, sizeof user);
	if (k == 0) { hasUser = false; LOGIN_setUsername(NULL); return; }
	if (k == 1) { hasUser = false; LOGIN_setUsername(""); return; }
	static const char ch[] = { 'a', 0x1a, (char)0xff };
	char * name = mc_malloc(len[k - 2] + 1);
	int c0 = mc_choose(3, "first"), c1 = mc_choose(3, "others"), c2 = mc_choose(3, "last");
	memset(name, ch[c1], len[k - 2]);
	name[0] = ch[c0]; name[len[k - 2] - 1] = ch[c2];
	name[len[k - 2]] = 0;
	LOGIN_setUsername(name);
	hasUser = len[k - 2] <= 40;
	if (hasUser) strcpy(user, name);
	mc_free(name);
}
void mc_harness(void)
{
	mc_on_abort = &on_abort;
	static const uint8_t b[] = { 0, 0x1a, 0xff, '1' };
	static const uint32_t devs[] = { 1, 2, 0x1a, 0x1a1a1a1a, 0x011a0000, 0xffffffff };
	fails = mc_param("fails", 1);
	int n = mc_param("logins", 2);
	dev = devs[mc_choose(mc_param("devs", 6), "device type")];
	LOGIN_setDeviceType((enum OPENSKY_DEVICE_TYPE)dev);
	while (n-- > 0) {
		if (mc_choose(2, "set user name")) setUser();
		serial = 0;
		for (int i = 0; i < 4; ++i) serial = serial << 8 | b[mc_choose(mc_param("bytes", 3), "serial byte")];
		step = 0; failed = false; src = SERIAL_RETURN_SUCCESS;
		bool r = LOGIN_login();
		mc_assert(r == !failed, "login reported as %s", r ? "successful" : "failed");
		mc_assert(failed || step == 3 + hasUser, "the login is incomplete (step %d)", step);
		mc_assert(src == SERIAL_RETURN_SUCCESS || failed, "login without serial number");
		mc_outcome("login", (uint64_t)serial << 8 | step << 2 | failed << 1 | hasUser);
		mc_sample("serial %08x, last step %d, %s", serial, step, failed ? "failed" : "ok");
	}
}
