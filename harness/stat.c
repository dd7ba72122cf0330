/* D01: the statistics report */
#include "common.h"
#include <time.h>
#include <math.h>
#include <stdlib.h>
#include "core/buffer.h"
#include "core/network.h"
#include "core/filter.h"
#include "util/statistics.h"

/* ---- the counters ---- */
static struct BUFFER_Statistics B;
static struct NET_Statistics N;
static struct FILTER_Statistics F, Flast;
static int asked;
void BUFFER_getStatistics(struct BUFFER_Statistics * s) { *s = B; asked |= 1; }
void NET_getStatistics(struct NET_Statistics * s) { *s = N; asked |= 2; }
void FILTER_getStatistics(struct FILTER_Statistics * s) { *s = F; asked |= 4; }

/* ---- the report ---- */
static char text[8192];
static unsigned len;
static bool cancels, cancelled, gone;
static bool in_report;
static void point(void)
{
	mc_assert(!gone, "output after the end");
	if (cancels && mc_choose(2, "cancel while printing")) { cancels = false; cancelled = true; mc_cancel(mc_self()); }
	mc_testcancel();
}
static void emit(const char * s, unsigned n)
{
	mc_assert(len + n < sizeof text, "endless report");
	memcpy(text + len, s, n);
	len += n;
	text[len] = 0;
}
static void emit_file(FILE * f, const char * s, unsigned n) { mc_fail("output to another file"); }
#define OUT_POINT point()
#include "stdout.h"
int mc_fflush(FILE * f) { return 0; }

/** the line that contains @label behind @section */
static char * line(const char * section, const char * label)
{
	char * p = strstr(text, section);
	mc_assert(p, "section '%s' is missing", section);
	p = strstr(p + 1, label);
	mc_assert(p, "line '%s' is missing", label);
	mc_assert(!strstr(p + 1, label) || !strcmp(label, "Mode-S") , "line '%s' appears twice", label);
	while (p > text && p[-1] != '\n') --p;
	static char l[256];
	snprintf(l, sizeof l, "%.*s", (int)strcspn(p, "\n"), p);
	return l;
}
static uint64_t num(const char * section, const char * label, uint64_t want)
{
	char * l = line(section, label), * e;
	char * p = l + strspn(l, " -");
	uint64_t v = strtoull(p, &e, 10);
	mc_assert(e > p && v == want, "'%s' instead of %lu", l, (unsigned long)want);
	return v;
}
static void close_to(double got, double want, double tol, const char * l)
{
	if (!isfinite(want)) return;
	mc_assert(isfinite(got) && fabs(got - want) <= tol + fabs(want) * 1e-12, "'%s': %f instead of %f", l, got, want);
}
static int64_t secs, delta;
/** total, rate over the run time, rate since the last report, share (of @all unless -1) */
static void rates(const char * label, uint64_t n, uint64_t last, int64_t all, bool has_delta)
{
	num("Receiver", label, n);
	char * l = line("Receiver", label);
	char * p = strchr(l, '[');
	if (all >= 0) {
		mc_assert(p, "'%s': no share", l);
		close_to(strtod(p + 1, NULL), all ? 100. * n / all : 0, 0.5, l);
	}
	p = strrchr(l, '(');
	mc_assert(p, "'%s': no rate", l);
	if (secs > 0) close_to(strtod(p + 1, NULL), (double)n / secs, 0.005001, l);
	p = strchr(p, ',');
	mc_assert(!has_delta == !p, "'%s': rate since the last report although no time has passed, or none", l);
	if (p && delta > 0) close_to(strtod(p + 1, NULL), (double)(n - last) / delta, 0.005001, l);
}
static uint64_t total(const struct FILTER_Statistics * f) { return f->framesByType[0] + f->framesByType[1] + f->framesByType[2] + f->framesByType[3] + f->unknown; }

static time_t start, last;
static void check_report(void)
{
	time_t now = mc_time_s;
	secs = now - start;
	delta = now - last;
	bool d = delta != 0;
	mc_assert(asked == 7, "not all counters are asked for (%d)", asked);
	asked = 0;
	char b[32];
	ctime_r(&start, b);
	b[strcspn(b, "\n")] = 0;
	mc_assert(strstr(line("Statistics", "started"), b), "wrong start time '%s'", line("Statistics", "started"));
	if (secs >= 0) {
		char * l = line("Statistics", "running since");
		long dd, h, m, s;
		mc_assert(sscanf(strstr(l, "since") + 5, "%ldd, %ldh:%ldm:%lds", &dd, &h, &m, &s) == 4, "'%s'", l);
		mc_assert(h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0 && s < 60 && dd * 86400 + h * 3600 + m * 60 + s == secs, "'%s' after %ld seconds", l, (long)secs);
	}
	uint64_t all = total(&F);
	rates("frames received", all, total(&Flast), -1, d);
	rates("Mode-A/C", F.framesByType[0], Flast.framesByType[0], all, d);
	rates("Mode-S Short", F.framesByType[1], Flast.framesByType[1], all, d);
	rates("Mode-S Long", F.framesByType[2], Flast.framesByType[2], all, d);
	rates("status", F.framesByType[3], Flast.framesByType[3], all, d);
	rates("unknown", F.unknown, Flast.unknown, all, d);
	rates("] filtered", F.filtered, Flast.filtered, all, d);
	rates("Mode-S filtered", F.modeSfiltered, Flast.modeSfiltered, all, d);
	num("Receiver", "unsynchronized", F.unsynchronized);
	for (int i = 0; i < 32; ++i) {
		char t[16];
		snprintf(t, sizeof t, "type %d ", i);
		if (F.modeSByType[i] || strstr(text, t))
			rates(t, F.modeSByType[i], Flast.modeSByType[i], F.framesByType[1] + F.framesByType[2] ? (int64_t)(F.framesByType[1] + F.framesByType[2]) : -1, d);
	}
	num("Buffer", "queued messages (current)", B.queueSize);
	num("Buffer", "queued messages (max)", B.maxQueueSize);
	num("Buffer", "discarded messages (current)", B.discardedCur);
	num("Buffer", "discarded messages (overall)", B.discardedAll);
	num("Buffer", "discarded messages (in worst", B.discardedMax);
	num("Buffer", "messages in pool", B.poolSize);
	char * l = line("Buffer", "messages in pool");
	if (B.poolSize + B.queueSize) close_to(strtod(strstr(l, "Usage") + 5, NULL), 100. * B.queueSize / (B.poolSize + B.queueSize), 0.005001, l);
	num("Buffer", "dynamic pools (current)", B.dynPools);
	num("Buffer", "dynamic pools (overall)", B.dynPoolsAll);
	num("Buffer", "dynamic pools (max)", B.dynPoolsMax);
	num("Buffer", "flushes", B.flushes);
	num("Buffer", "uncollected", B.uncollectedPools);
	num("Buffer", "Garbage Collector", B.GCruns);
	mc_assert(!!strstr(text, "overload") == !!B.discardedCur, "%s", B.discardedCur ? "overload is not shown" : "overload is shown");
	l = line("Network", "currently");
	mc_assert(strstr(l, N.isOnline ? "online" : "offline"), "'%s'", l);
	num("Network", "seconds online", N.onlineSecs);
	l = line("Network", "seconds online");
	if (secs > 0) close_to(strtod(strchr(l, '[') + 1, NULL), 100. * N.onlineSecs / secs, 0.5, l);
	num("Network", "disconnections", N.disconnects);
	num("Network", "connection attempts", N.connectionAttempts);
	num("Network", "bytes sent", N.bytesSent);
	l = line("Network", "bytes sent");
	if (secs > 0) close_to(strtod(strchr(l, '(') + 1, NULL), (double)N.bytesSent / secs, 0.005001, l);
	num("Network", "bytes received", N.bytesReceived);
	l = line("Network", "bytes received");
	if (secs > 0) close_to(strtod(strchr(l, '(') + 1, NULL), (double)N.bytesReceived / secs, 0.005001, l);
	last = now;
	Flast = F;
	mc_eval(all && d);
	mc_outcome("report", mc_hash(text, len, 1));
	memset(text, 0, len);
	len = 0;
}

/* ---- scenario ---- */
static uint64_t * field(int i)
{
	static const int nb = sizeof B / 8, nf = sizeof F / 8;
	if (i < nb) return (uint64_t *)&B + i;
	i -= nb;
	if (i < nf) return (uint64_t *)&F + i;
	i -= nf;
	switch (i) {
	case 0: return &N.onlineSecs;
	case 1: return &N.disconnects;
	case 2: return &N.connectionAttempts;
	case 3: return &N.bytesSent;
	case 4: return &N.bytesReceived;
	}
	return NULL;
}
static int inputs;
static void counters(void)
{
	int n;
	for (n = 0; field(n); ++n);
	static const int kinds[2][3] = { { 0, 1, 3 }, { 0, 1, 2 } };
	switch (kinds[inputs][mc_choose(mc_param("kinds", 3), "counters")]) {
	case 0:
		break;
	case 1:  /* everything counts */
		for (int i = 0; i < n; ++i) *field(i) += 3 + 7 * i;
		N.isOnline = !N.isOnline;
		break;
	case 2: {
		/* one counter has a special value */
		static const uint64_t v[] = { 1, 0xffffffff, 0x100000000, 1000000000000000, 0x20000000000000 };
		int k = mc_choose(n, "counter");
		*field(k) += v[mc_choose(5, "value")];
		break;
	}
	case 3:
		F.framesByType[2] += 1000000;
		F.modeSByType[17] += 999999;
		break;
	}
}
static uint32_t interval;
static int reports;
static void on_sleep(uint64_t us)
{
	static bool first = true;
	if (!first) check_report();
	else mc_assert(!len, "report before the first interval has passed");
	first = false;
	mc_testcancel();
	mc_assert(!cancelled, "cancellation is ignored");
	mc_assert(us == (uint64_t)interval * 1000000, "sleeps for %lu us instead of %u s", (unsigned long)us, interval);
	if (!reports--) {
		mc_cancel(mc_self());
		mc_testcancel();
		mc_fail("not cancelled while waiting");
	}
	counters();
	switch (mc_choose(mc_param("times", 6), "time that passes")) {
	case 0: mc_time_s += interval; break;
	case 1: mc_time_s += interval + 1; break;
	case 2: break; /* the clock is set back */
	case 3: mc_time_s -= 5; break;
	case 4: mc_time_s += 86399; break;
	case 5: mc_time_s += 86400 * 100 + 3599; break;
	}
	if (mc_choose(2, "cancel") && mc_param("cancel", 1)) cancels = true;
}
static void body(void * a)
{
	STAT_comp.main(NULL);
	mc_fail("the statistics end");
}
static bool p_done(void * a) { return mc_thread_done(*(int *)a); }
void mc_harness(void)
{
	const struct CFG_Section * s = STAT_comp.config;
	static const uint32_t iv[] = { 600, 1, 86400 };
	interval = iv[mc_choose(mc_param("intervals", 3), "interval")];
	inputs = mc_param("inputs", 0);
	cfg_bool(s, "Enabled", true);
	cfg_int(s, "Interval", interval);
	mc_assert(cfg_accept(s), "configuration is not accepted");
	mc_time_s = 1500000000 + mc_param("zone", 0);
	mc_on_sleep = on_sleep;
	start = mc_time_s;
	mc_assert(STAT_comp.onConstruct(NULL), "construction fails");
	if (mc_choose(2, "starts later")) mc_time_s += 2;
	last = mc_time_s;
	reports = mc_param("reports", 2);
	int t = mc_thread(body, NULL, "STAT");
	mc_block(p_done, &t, false, "end");
	gone = true;
	if (len) {
		/* cancelled after the last report */
		mc_assert(cancelled, "harness");
		check_report();
	}
	mc_assert(*STAT_comp.start, "statistics are enabled, but not started");
}
