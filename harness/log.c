/* U01: log messages are whole lines */
#include "common.h"
#include "fmt.h"
#include <errno.h>
#include "util/log.h"

static char outp[2][6000]; static unsigned nout[2], flushed[2];
static void emit_to(int s, const char * t, unsigned n)
{
	mc_assert(nout[s] + n < sizeof outp[s], "more is logged than there is");
	memcpy(outp[s] + nout[s], t, n);
	nout[s] += n;
	/* all output functions are cancellation points */
	mc_sched("print");
	mc_testcancel();
}
static void emit(const char * s, unsigned n) { emit_to(0, s, n); }
static void emit_file(FILE * f, const char * s, unsigned n) { mc_fail("output to a strange file"); }
#define OUT_POINT (void)0
#include "stdout.h"
int mc_fflush(FILE * f)
{
	mc_assert(f == NULL || f == stdout, "a strange file is flushed");
	mc_sched("flush");
	mc_testcancel();
	flushed[0] = nout[0];
	return 0;
}
#ifdef LOGLIB
void streams(int own);
void stream_out(int s, const char * t, unsigned n) { emit_to(s, t, n); }
void stream_sync(int s) { mc_sched("flush"); mc_testcancel(); flushed[s] = nout[s]; }
enum { NS = 2 };
#else
enum { NS = 1 };
#endif

/* a message and its expected text */
enum { MAXM = 4 };
static struct Msg { uint8_t fn, level, prefix, text, err; } msgs[3][MAXM];
static int nmsg, nthr;
static const char * const level_names[] = { "INFO", "DEBUG", "WARN", "ERROR", "EMERG" };
static const int errs[] = { 0, ENOENT, ECONNRESET, 99999, -1 };
static const char * const prefixes[] = { NULL, "NET", "A%sB%n", "" };
static char longtext[1025];
static const char * text(int k)
{
	switch (k) {
	case 0: return "hello";
	case 1: return "";
	case 2: return "100%s %n of it";
	default: return longtext;
	}
}
static unsigned expected(const struct Msg * m, int id, char * buf, unsigned size)
{
	int n = snprintf(buf, size, "[%s] ", level_names[m->level]);
	if (prefixes[m->prefix]) n += snprintf(buf + n, size - n, "[%s] ", prefixes[m->prefix]);
	switch (m->fn) {
	case 0: n += snprintf(buf + n, size - n, "%s", text(m->text)); break;
	default: n += snprintf(buf + n, size - n, "%d %s!", id, text(m->text)); break;
	}
	if (m->fn >= 2) {
		char e[100] = "";
		int err = errs[m->err];
#ifdef LOGLIB
		char b[100];
		strcpy(e, strerror_r(err, b, sizeof b)); /* GNU function */
#else
		if (strerror_r(err, e, sizeof e)) strcpy(e, "Unknown Error");
#endif
#ifdef LOGLIB
		n += snprintf(buf + n, size - n, ":%s (%d)", e, err);
#else
		n += snprintf(buf + n, size - n, ": %s (%d)", e, err);
#endif
	}
	buf[n++] = '\n';
	return n;
}
static void say(const struct Msg * m, int id)
{
	enum LOG_LEVEL l = m->level;
	const char * p = prefixes[m->prefix], * t = text(m->text);
	int err = errs[m->err];
	switch (m->fn) {
	case 0: LOG_log(l, p, t); break;
	case 1: LOG_logf(l, p, "%d %s%c", id, t, '!'); break;
	case 2: errno = err; LOG_errno(l, p, "%d %s%c", id, t, '!'); break;
	case 3: errno = 4; LOG_errno2(l, err, p, "%d %s%c", id, t, '!'); break;
	case 4: errno = err; LOG_errnet(l, p, "%d %s%c", id, t, '!'); break;
	case 5: LOG_flush(); break;
	}
}
static uint8_t done[3], started[3];
/* the output must be whole lines: of each thread, its messages in order */
static bool match(int * pos, const int * stop, unsigned * off)
{
	bool end = true;
	for (int s = 0; s < NS; ++s) end &= off[s] == nout[s];
	if (end) {
		for (int t = 0; t < nthr; ++t)
			if (pos[t] < stop[t]) return false;
		return true;
	}
	for (int t = 0; t < nthr; ++t) {
		if (pos[t] >= started[t]) continue;
		const struct Msg * m = &msgs[t][pos[t]];
		char buf[1400];
		unsigned n = m->fn == 5 ? 0 : expected(m, t, buf, sizeof buf);
		int s = NS == 2 && m->level >= LOG_LEVEL_ERROR;
		if (off[s] + n > nout[s] || memcmp(outp[s] + off[s], buf, n)) continue;
		++pos[t];
		off[s] += n;
		bool ok = match(pos, stop, off);
		--pos[t];
		off[s] -= n;
		if (ok) return true;
	}
	return false;
}
static void verify(void)
{
	int pos[3] = { 0 }, stop[3];
	unsigned off[2] = { 0 };
	/* flushing prints nothing */
	for (int t = 0; t < nthr; ++t) stop[t] = done[t];
	/* trailing flush operations need not be matched */
	for (int t = 0; t < nthr; ++t) while (stop[t] > 0 && msgs[t][stop[t] - 1].fn == 5) --stop[t];
	mc_assert(match(pos, stop, off), "the messages are not logged as they are: \"%.*s\" \"%.*s\"", nout[0], outp[0], nout[1], outp[1]);
}
static uint8_t owner[MC_MAX_THREADS];
static void thread(void * arg)
{
	int t = (intptr_t)arg;
	owner[mc_self()] = t;
	for (int i = 0; i < nmsg; ++i) {
		started[t] = i + 1;
		const struct Msg * m = &msgs[t][i];
		say(m, t);
		mc_assert(m->fn == 5 || m->level != LOG_LEVEL_EMERG, "the process goes on after an emergency");
		done[t] = i + 1;
	}
	mc_assert(!mc_locks_held(mc_self()), "the log stays locked");
}
static void on_abort(const char * why)
{
	mc_assert(why && strstr(why, "abort"), "the process ends: %s", why);
	int t = owner[mc_self()];
	mc_assert(started[t] > done[t] && msgs[t][done[t]].fn != 5 && msgs[t][done[t]].level == LOG_LEVEL_EMERG, "the process is terminated without need");
	/* the messages of this thread were written */
	char buf[1400];
	unsigned n = expected(&msgs[t][done[t]], t, buf, sizeof buf);
	int s = NS == 2;
	bool found = false;
	for (unsigned i = 0; i + n <= flushed[s]; ++i) found |= !memcmp(outp[s] + i, buf, n);
	mc_assert(found, "the reason of the abort is not written");
	if (NS == 2)
		mc_assert(nthr > 1 || flushed[0] == nout[0], "messages are lost by the abort");
	mc_outcome("abort", t);
	mc_eval(true);
	mc_end();
}
static bool p_all(void * a)
{
	for (int t = 1; t <= nthr; ++t) if (!mc_thread_done(t)) return false;
	return true;
}
void mc_harness(void)
{
	mc_preempt_budget = mc_param("preempt", -1);
	mc_on_abort = &on_abort;
	mc_sched_on_unlock = true;
	memset(longtext, 'x', sizeof longtext - 1);
	nthr = mc_param("threads", 1);
	nmsg = mc_param("msgs", 1);
	bool locks = mc_param("locks", 0);
#ifdef LOGLIB
	streams(mc_param("own", 1));
#endif
	/* quick=1: only representative messages */
	int rich = mc_param("rich", 1);
	for (int t = 0; t < nthr; ++t)
		for (int i = 0; i < nmsg; ++i) {
			struct Msg * m = &msgs[t][i];
			m->fn = mc_choose(6, "function");
			if (m->fn == 5) continue;
			if (rich) {
				m->level = mc_choose(5, "level");
				m->prefix = mc_choose(4, "prefix");
				m->text = mc_choose(4, "text");
				if (m->fn >= 2) m->err = mc_choose(5, "error");
			} else {
				m->level = (int[3]){ LOG_LEVEL_INFO, LOG_LEVEL_ERROR, LOG_LEVEL_EMERG }[mc_choose(mc_param("emerg", 0) ? 3 : 2, "level")];
				m->prefix = 1;
				m->err = 1;
			}
		}
	int ids[3];
	for (int t = 0; t < nthr; ++t) ids[t] = mc_thread(&thread, (void *)(intptr_t)t, "logger");
	int c = mc_param("cancel", 0);
	if (c) {
		mc_sched("cancel");
		mc_cancel(ids[0]);
	}
#ifndef LOGLIB
	if (locks) {
		LOG_lock();
		unsigned n = nout[0];
		mc_sched("log locked");
		mc_sched("log locked");
		mc_assert(n == nout[0] && (n == 0 || outp[0][n - 1] == '\n'), "output while the log is locked");
		LOG_unlock();
	}
#endif
	mc_block(&p_all, NULL, false, "all");
	verify(); /* the message a cancelled thread has begun may be there or not */
	/* still usable */
	++nthr;
	memset(&msgs[nthr - 1], 0, sizeof msgs[nthr - 1]);
	started[nthr - 1] = 1;
	nmsg = 1;
	owner[mc_self()] = nthr - 1;
	say(&msgs[nthr - 1][0], nthr - 1);
	done[nthr - 1] = 1;
	verify();
	LOG_flush();
	for (int s = 0; s < NS; ++s) mc_assert(flushed[s] == nout[s], "not flushed");
	mc_outcome("lines", nout[0] ? 1 : 0);
	mc_eval(nout[0] + nout[1] > 0);
}
