/* G01: position state: all sequences of operations, and login vs. updates */
#include "common.h"
#include "core/gps.h"
#include "core/network.h"

__attribute__((weak)) bool mc_race_on;
static double pos[3];
static bool has, fix, need;
static int failsLeft;
static unsigned nsent, nok;
static double sentPos[3];
static bool conc, sendRc;
static int nset;
static double sets[16][3];
static unsigned sinceLogin, inSend;

bool NET_send(const void * b, size_t len)
{
	const uint8_t * p = b;
	uint8_t raw[24];
	unsigned o = 2, n = 0;
	mc_assert(len >= 26 && p[0] == 0x1a && p[1] == '7', "something else than a position is sent");
	while (o < len) {
		mc_assert(n < 24, "position message too long");
		raw[n++] = p[o];
		if (p[o] == 0x1a) mc_assert(o + 1 < len && p[++o] == 0x1a, "position message is not escaped");
		++o;
	}
	mc_assert(n == 24, "position message has %u bytes", n);
	for (int k = 0; k < 3; ++k) {
		uint64_t u = 0;
		for (int i = 0; i < 8; ++i) u = u << 8 | raw[8 * k + i];
		memcpy(&sentPos[k], &u, 8);
	}
	++nsent;
	if (conc) {
		bool found = false;
		for (int i = 0; i < nset; ++i)
			found = found || !memcmp(sentPos, sets[i], sizeof sentPos);
		mc_assert(found, "the position sent (%g,%g,%g) was never set", sentPos[0], sentPos[1], sentPos[2]);
		mc_sched("NET_send");
	}
	sendRc = !(failsLeft > 0 && mc_choose(2, "sending fails"));
	if (!sendRc) --failsLeft;
	else { ++nok; if (conc) ++sinceLogin; }
	if (conc) mc_sched("NET_send done");
	return sendRc;
}
static void newPos(void)
{
	static const uint64_t v[] = { 0x401a1a1a00000000ULL, 0x1a401a0010031a1aULL, 0xc02500000000001aULL };
	++nset;
	for (int k = 0; k < 3; ++k) { uint64_t u = v[k] + 0x100 * nset * (k + 1); memcpy(&pos[k], &u, 8); }
	memcpy(sets[nset - 1], pos, sizeof pos);
}
static void expectUpdate(unsigned before)
{
	bool should = need && has && fix;
	mc_assert(nsent - before == should, should ? "requested position is not sent when it becomes available" : "position is sent although nobody waits for it or it is not trusted");
	if (should) {
		mc_assert(!memcmp(sentPos, pos, sizeof pos), "wrong position sent");
		need = !sendRc;
	}
}
static void sequence(void)
{
	int n = mc_param("ops", 6);
	while (n-- > 0) {
		unsigned before = nsent;
		switch (mc_choose(7, "operation")) {
		case 0: {
			bool r = GPS_sendPosition();
			if (has && fix) {
				mc_assert(nsent - before == 1, "the login sends the position %u times", nsent - before);
				mc_assert(!memcmp(sentPos, pos, sizeof pos), "wrong position sent");
				mc_assert(r == sendRc, "wrong result of sending the position");
				need = false;
			} else {
				mc_assert(r && nsent == before, "position is not deferred");
				need = true;
			}
			break;
		}
		case 1: newPos(); has = true; fix = true; GPS_setPositionWithFix(pos[0], pos[1], pos[2]); expectUpdate(before); break;
		case 2: newPos(); has = true; GPS_setPosition(pos[0], pos[1], pos[2]); expectUpdate(before); break;
		case 3: fix = true; GPS_setHasFix(true); expectUpdate(before); break;
		case 4: fix = false; GPS_setHasFix(false); expectUpdate(before); break;
		case 5: GPS_reset(); has = fix = false; mc_assert(nsent == before, "reset sends something"); break;
		case 6: GPS_resetNeedFlag(); need = false; mc_assert(nsent == before, "reset sends something"); break;
		}
		mc_eval(nsent != before);
		mc_outcome("state", has | fix << 1 | need << 2 | sendRc << 3);
	}
}
static int tl, tu, tv;
static unsigned logins;
static void login(void * a)
{
	(void)a;
	int n = mc_param("logins", 2);
	while (n > 0) {
		sinceLogin = 0;
		++logins;
		if (GPS_sendPosition()) --n;
	}
}
static void updater(void * a)
{
	int n = mc_param("updates", 2), kind = mc_param("kind", 0);
	if (a) { GPS_setHasFix(true); if (mc_param("unfix", 0)) { GPS_setHasFix(false); GPS_setHasFix(true); } return; }
	while (n-- > 0) {
		newPos();
		if (kind == 0) GPS_setPositionWithFix(pos[0], pos[1], pos[2]);
		else GPS_setPosition(pos[0], pos[1], pos[2]);
		if (kind == 2 && n) GPS_reset();
	}
}
static bool p_done(void * a) { (void)a; return mc_thread_done(tl) && mc_thread_done(tu) && (tv < 0 || mc_thread_done(tv)); }
void mc_harness(void)
{
	failsLeft = mc_param("fails", 1);
	GPS_reset(); GPS_resetNeedFlag();
	if (mc_param("seq", 1)) { sequence(); return; }
	conc = true;
	mc_race_on = mc_param("race", 0);
	mc_preempt_budget = mc_param("preempt", 4);
	tv = -1;
	tl = mc_thread(&login, NULL, "login");
	tu = mc_thread(&updater, NULL, "updater");
	if (mc_param("kind", 0)) tv = mc_thread(&updater, (void *)1, "fix");
	mc_block(&p_done, NULL, false, "end");
	mc_preempt_budget = 0;
	/* a position with fix is available now; whoever asked has got or gets one */
	failsLeft = 0;
	unsigned had = sinceLogin;
	int k = mc_param("kind", 0);
	newPos();
	unsigned before = nsent;
	GPS_setPositionWithFix(pos[0], pos[1], pos[2]);
	if (!had)
		mc_assert(nsent == before + 1, "a pending request for the position got lost");
	else if (k != 2)
		mc_assert(nsent - before <= 1, "position sent repeatedly");
	mc_outcome("sent", had << 4 | (nsent - before));
	before = nsent;
	GPS_setPositionWithFix(pos[0], pos[1], pos[2]);
	mc_assert(nsent == before, "position sent although nobody asked");
	(void)had;
}
