/* S01: the serial number is requested, awaited, used and stored */
#include "common.h"
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
#include "core/network.h"
#include "core/serial.h"
#include "core/tb.h"
#include "dump1090/req-serial.h"

extern void (*mc_on_timedwait)(const struct timespec *, bool);
const struct Component TB_comp = { .description = "TB" };
static TB_ProcessorFn process;
static int tLogin, tTb, tEnv, tKill;
static bool configured;
static const uint32_t CONF = 0x1234;

static bool lost;                 /* the connection the login uses is gone */
static int64_t t_lost;
static bool incall;
static unsigned reqs, forced, writes, answers;
static int64_t t_req;
static bool send_failed, must_abort;
static uint32_t given[8];         /* answers begun, from 1; 0 is the configured number */
static unsigned delivered;        /* answers delivered completely */
static bool known_before;         /* a number was known when the call began */
static bool arrived;              /* an answer arrived completely during this call's wait */
static int64_t t_arrived;
static uint32_t stored;
static bool has_stored;
static unsigned stored_at, spins;
static int breaks;

static int64_t now(void) { return mc_time_s; }

void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn)
{
	mc_assert(type == TB_PACKET_TYPE_SERIAL_RES && len == 4 && !process, "registers for type %u, length %zu", type, len);
	process = fn;
}
void TB_unregister(uint32_t type) { process = NULL; }
bool NET_send(const void * b, size_t len)
{
	const uint8_t * p = b;
	mc_assert(mc_self() == tLogin && incall, "something is sent by the wrong thread");
	mc_assert(len == 2 && p[0] == 0x1a && p[1] == 'B', "something else than a request is sent");
	mc_assert(!known_before, "a number is requested although one is known");
	mc_assert(!reqs, "the number is requested twice");
	mc_sched("NET_send");
	mc_testcancel();
	++reqs;
	t_req = now();
	if (lost) { send_failed = true; return false; }
	mc_sched("sent");
	return true;
}
bool NET_checkConnected()
{
	mc_sched("NET_checkConnected");
	return !lost;
}
void NET_forceDisconnect()
{
	mc_assert(incall && reqs == 1 && !forced, "the connection is dropped for no reason");
	mc_sched("NET_forceDisconnect");
	++forced;
	if (!lost) { lost = true; t_lost = now(); }
}
bool CFG_writeSection(const char * file, const struct CFG_Section * s)
{
	mc_assert(!strcmp(file, "/var/conf.d/05-serial.conf"), "'%s' is written", file);
	mc_assert(s == SERIAL_comp.config && !strcasecmp(s->name, "Device"), "the wrong section is written");
	const struct CFG_Option * o = cfg_opt(s, "serial");
	mc_assert(o->type == CFG_VALUE_TYPE_INT && o->given && *o->given, "the number is written as missing");
	mc_assert(answers > 0, "a number is stored that was never received");
	uint32_t v = *(uint32_t *)o->var;
	mc_sched("write");
	if (mc_param("wfail", 0) && mc_choose(2, "writing fails")) { must_abort = true; return false; }
	mc_assert(v == *(uint32_t *)o->var, "the number changes while it is stored");
	mc_assert(!has_stored || stored_at != answers || stored != v, "the stored number is stored again");
	stored_at = answers;
	stored = v;
	has_stored = true;
	++writes;
	return true;
}
static void on_abort(const char * why)
{
	mc_assert(must_abort, "the process is terminated: %s", why);
	mc_end();
}
static void timed(const struct timespec * ts, bool to)
{
	if (!to) return;
	mc_assert(ts->tv_sec <= now() + 2, "waits for %ld s without looking at the connection", (long)(ts->tv_sec - now()));
	if (ts->tv_sec > now()) { mc_time_s = ts->tv_sec; spins = 0; }
	else if (++spins > 3) mc_fail("does not wait, but polls continuously");
	else mc_assert(ts->tv_sec == now(), "waits for a time that has passed");
}
static void login_one(void)
{
	uint32_t s = 0xdeadbeef;
	reqs = forced = 0;
	send_failed = false;
	known_before = configured || delivered;
	arrived = false;
	unsigned first = delivered || configured ? delivered : 1;
	incall = true;
	enum SERIAL_RETURN rc = SERIAL_getSerial(&s);
	incall = false;
	mc_assert(mc_locks_held(mc_self()) == 0, "a lock is still held");
	if (rc == SERIAL_RETURN_SUCCESS) {
		bool ok = false;
		for (unsigned i = first; i <= answers; ++i) ok |= given[i] == s;
		mc_assert(ok, "the number used is %x", s);
		mc_assert(known_before || reqs == 1 || answers, "a number is used without having been requested");
		if (s != CONF || !configured)
			mc_assert(has_stored && stored == s, "the number %x is used without having been stored (stored: %x)", s, has_stored ? stored : 0);
		else mc_assert(answers || !has_stored, "the configured number is stored");
		if (arrived && !known_before)
			mc_assert(now() <= t_arrived + (mc_timeouts_eager ? 2 : 0), "the answer is only noticed %ld s later", (long)(now() - t_arrived));
		mc_assert(!forced, "the connection is dropped although the number is known");
		mc_outcome("success", reqs);
		mc_eval(reqs);
		return;
	}
	mc_assert(rc != SERIAL_RETURN_FAIL_PERM, "permanent failure is reported");
	mc_assert(!known_before, "fails although a number is known");
	if (send_failed) mc_outcome("sending failed", 0);
	else if (forced) {
		mc_assert(now() - t_req >= 58, "the connection is dropped after %ld s", (long)(now() - t_req));
		mc_outcome("no answer", 0);
	} else {
		mc_assert(lost, "fails although the connection works");
		mc_assert(now() - t_lost <= 2, "the lost connection is only noticed after %ld s", (long)(now() - t_lost));
		mc_outcome("connection lost", 0);
	}
	mc_assert(now() - t_req <= 60, "waits for %ld s", (long)(now() - t_req));
	/* reconnect */
	mc_sched("reconnect");
	lost = false;
}
static void login(void * a)
{
	int n = mc_param("logins", 2);
	while (n-- > 0) {
		login_one();
		mc_sched("logged in");
		mc_testcancel();
		if (lost) lost = false;
	}
}
static void answerer(void * a)
{
	int n = mc_param("answers", 1);
	while (n-- > 0) {
		mc_sched("answer");
		uint8_t pl[4] = { 0xda, 0x1a, 0xfe, (uint8_t)(answers * 0x81) };
		given[++answers] = 0xda1afe00 | pl[3];
		process(pl);
		++delivered;
		if (incall) { arrived = true; t_arrived = now(); }
	}
}
static void env(void * a)
{
	while (breaks-- > 0) {
		mc_sched("break");
		if (!lost) { lost = true; t_lost = now(); }
	}
}
static void killer(void * a)
{
	mc_sched("cancel");
	mc_cancel(tLogin);
}
static bool all_done(void * a)
{
	return mc_thread_done(tLogin) && (tTb < 0 || mc_thread_done(tTb)) && (tEnv < 0 || mc_thread_done(tEnv)) && (tKill < 0 || mc_thread_done(tKill));
}
void mc_harness(void)
{
	mc_on_abort = on_abort;
	mc_on_timedwait = timed;
	mc_timeouts_eager = mc_param("eager", 1);
	mc_preempt_budget = mc_param("preempt", 2);
	mc_spurious_budget = mc_param("spurious", 0);
	breaks = mc_param("breaks", 1);
	const struct CFG_Section * c = SERIAL_comp.config;
	configured = mc_param("conf", 0);
	given[0] = CONF;
	const struct CFG_Option * o = cfg_opt(c, "serial");
	*(uint32_t *)o->var = configured ? CONF : 0;
	*o->given = configured;
	SERIAL_comp.onRegister();
	mc_assert(cfg_accept(c), "configuration refused");
	mc_assert(!SERIAL_comp.onConstruct || SERIAL_comp.onConstruct(), "construction failed");
	tTb = tEnv = tKill = -1;
	tLogin = mc_thread(login, NULL, "login");
	if (mc_param("answers", 1)) tTb = mc_thread(answerer, NULL, "tb");
	if (breaks) tEnv = mc_thread(env, NULL, "env");
	if (mc_param("kill", 0)) tKill = mc_thread(killer, NULL, "killer");
	mc_block(all_done, NULL, false, "wait");
	if (mc_param("kill", 0)) {
		/* nothing is blocked: a later login works */
		lost = false;
		incall = false;
		tTb = tEnv = tKill = -1;
		tLogin = mc_thread(login, NULL, "login");
		if (!delivered) tTb = mc_thread(answerer, NULL, "tb");
		mc_block(all_done, NULL, false, "wait");
	}
}
