/* U02: privileges, SIGINT, random numbers */
#include "common.h"
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <limits.h>
#include <pwd.h>
#include <grp.h>
#include "util/util.h"
#include "util/log.h"

/* ---- credentials: r, e, s */
static unsigned uid[3], gid[3]; static int ngroups, calls;
static long bufsize; static bool with_user, with_group; static int uerr, gerr;
static unsigned nobody_u, nobody_g, group_g;
static char cwd[20];
static int refusals; static bool refused; /* calls the system may refuse */
static bool priv(void) { return uid[1] == 0; }
static int eperm(void) { errno = EPERM; return -1; }
unsigned mc_getuid(void) { return uid[0]; }
unsigned mc_geteuid(void) { return uid[1]; }
unsigned mc_getgid(void) { return gid[0]; }
unsigned mc_getegid(void) { return gid[1]; }
static bool refuse(void)
{
	++calls;
	if (refusals <= 0 || !mc_choose(2, "refused")) return false;
	--refusals;
	refused = true;
	errno = EAGAIN;
	return true;
}
static int set_ids(unsigned * id, unsigned r, unsigned e, unsigned s)
{
	if (refuse()) return -1;
	unsigned n[3] = { r, e, s };
	for (int i = 0; i < 3; ++i)
		if (n[i] == (unsigned)-1) n[i] = id[i];
		else if (!priv() && n[i] != id[0] && n[i] != id[1] && n[i] != id[2]) return eperm();
	memcpy(id, n, sizeof n);
	return 0;
}
int mc_setuid(unsigned u) { return priv() ? set_ids(uid, u, u, u) : set_ids(uid, -1, u, -1); }
int mc_setgid(unsigned g) { return priv() ? set_ids(gid, g, g, g) : set_ids(gid, -1, g, -1); }
int mc_seteuid(unsigned u) { return set_ids(uid, -1, u, -1); }
int mc_setegid(unsigned g) { return set_ids(gid, -1, g, -1); }
int mc_setresuid(unsigned r, unsigned e, unsigned s) { return set_ids(uid, r, e, s); }
int mc_setresgid(unsigned r, unsigned e, unsigned s) { return set_ids(gid, r, e, s); }
int mc_setreuid(unsigned r, unsigned e) { return set_ids(uid, r, e, e); }
int mc_setregid(unsigned r, unsigned e) { return set_ids(gid, r, e, e); }
int mc_setgroups(size_t n, const gid_t * g)
{
	if (refuse()) return -1;
	if (!priv()) return eperm();
	for (size_t i = 0; i < n; ++i) mc_assert(g[i] != 0, "stays in root's group");
	ngroups = n;
	return 0;
}
int mc_chdir(const char * p)
{
	if (mc_choose(2, "chdir")) { errno = ENOENT; return -1; }
	snprintf(cwd, sizeof cwd, "%s", p);
	return 0;
}
long mc_sysconf(int k) { return bufsize; }
int mc_getpwnam_r(const char * name, struct passwd * p, char * buf, size_t n, struct passwd ** res)
{
	mc_assert(!strcmp(name, "nobody"), "user '%s'?", name);
	memset(p, 0, sizeof *p);
	*res = NULL;
	if (uerr || !with_user) return uerr;
	mc_assert(n >= 1 && buf, "no buffer");
	if (n < 7) return ERANGE;
	strcpy(buf, "nobody");
	buf[n - 1] = 0;
	p->pw_name = buf;
	p->pw_uid = nobody_u;
	p->pw_gid = nobody_g;
	*res = p;
	return 0;
}
int mc_getgrnam_r(const char * name, struct group * p, char * buf, size_t n, struct group ** res)
{
	mc_assert(!strcmp(name, "nobody"), "group '%s'?", name);
	memset(p, 0, sizeof *p);
	*res = NULL;
	if (gerr || !with_group) return gerr;
	mc_assert(n >= 1 && buf, "no buffer");
	if (n < 7) return ERANGE;
	strcpy(buf, "nobody");
	buf[n - 1] = 0;
	p->gr_name = buf;
	p->gr_gid = group_g;
	*res = p;
	return 0;
}
static void drop_abort(const char * why)
{
	mc_assert(refused, "the process ends");
	mc_outcome("refused", 0);
	mc_eval(true);
	mc_end();
}
static void drop(void)
{
	mc_on_abort = &drop_abort;
	refusals = mc_param("refuse", 0);
	mc_malloc_budget = mc_param("nomem", 0);
	static const unsigned ids[] = { 0, 1000, 65534 };
	unsigned u = ids[mc_choose(3, "user")], e = ids[mc_choose(2, "effective user")];
	if (u) e = u; /* not for set-uid programs */
	if (e) u = e;
	for (int i = 0; i < 3; ++i) uid[i] = u, gid[i] = u;
	ngroups = 3;
	strcpy(cwd, "/");
	static const long sizes[] = { -1, 1, 7, 1024 };
	bufsize = sizes[mc_choose(4, "buffer size")];
	with_user = mc_choose(2, "nobody exists");
	uerr = mc_choose(2, "look-up fails") ? EIO : 0;
	with_group = mc_choose(2, "group nobody exists");
	gerr = mc_choose(2, "look-up of group fails") ? EIO : 0;
	nobody_u = 99;
	nobody_g = 98;
	group_g = 97;
	UTIL_dropPrivileges();
	refusals = 0;
	mc_assert(mc_heap_blocks() == 0, "leak");
	if (u) {
		mc_assert(!calls && uid[0] == u && gid[0] == u && ngroups == 3, "an unprivileged user is changed");
		mc_outcome("unprivileged", u);
		mc_eval(false);
		return;
	}
	bool found = with_user && !uerr && bufsize != 1 && !mc_malloc_failed, gfound = with_group && !gerr && bufsize != 1 && !mc_malloc_failed;
	unsigned wu = found ? 99 : 65534, wg = gfound ? 97 : found ? 98 : 65534;
	for (int i = 0; i < 3; ++i) {
		mc_assert(uid[i] == wu, "runs as user %u instead of %u", uid[i], wu);
		mc_assert(gid[i] == wg, "runs as group %u instead of %u", gid[i], wg);
	}
	mc_assert(ngroups == 0, "stays in %d groups", ngroups);
	/* for good */
	mc_assert(mc_setuid(0) && mc_seteuid(0) && mc_setgid(0) && mc_setegid(0) && uid[1] && gid[1], "privileges can be regained");
	mc_outcome("user", wu);
	mc_outcome("group", wg);
	mc_eval(true);
}

/* ---- signals: of the whole process */
static sigset_t mask, before; static bool waiting, taken, pending, dead, failing, waited; static int logged;
static int nother; /* another thread, which does not block signals */
static void deliver(void)
{
	pending = true;
	mc_outcome("signal", waiting ? 2 : sigismember(&mask, SIGINT));
	if (waiting) return;
	if (sigismember(&mask, SIGINT) && !nother) return; /* kept until it is waited for */
	dead = true; /* default action */
	mc_assert(!waited, "the process is killed by the signal"); 
	mc_eval(false);
	mc_end();
}
int mc_pthread_sigmask(int how, const sigset_t * s, sigset_t * o)
{
	mc_sched("sigmask");
	if (o) *o = mask;
	if (failing && !waited && mc_choose(2, "fails")) return EINVAL;
	if (!s) return 0;
	sigset_t n = mask;
	for (int i = 1; i < 32; ++i) {
		bool in = sigismember(s, i) == 1;
		if (how == SIG_SETMASK) { if (in) sigaddset(&n, i); else sigdelset(&n, i); }
		else if (in && how == SIG_BLOCK) sigaddset(&n, i);
		else if (in) sigdelset(&n, i);
	}
	mask = n;
	mc_sched("sigmask");
	return 0;
}
int mc_sigprocmask(int how, const sigset_t * s, sigset_t * o) { int r = mc_pthread_sigmask(how, s, o); if (r) { errno = r; return -1; } return 0; }
static bool p_pending(void * a) { return pending; }
int mc_sigwait(const sigset_t * s, int * sig)
{
	for (int i = 1; i < 32; ++i) {
		mc_assert((sigismember(s, i) == 1) == (i == SIGINT), "waits for signal %d", i);
		mc_assert(i == SIGINT || sigismember(&mask, i) == sigismember(&before, i), "signal %d is %s while waiting", i, sigismember(&mask, i) ? "blocked" : "not blocked any more");
	}
	mc_assert(sigismember(&mask, SIGINT) == 1, "waits for a signal that is not blocked");
	if (failing && mc_choose(2, "fails")) return EINVAL;
	waiting = true;
	mc_block(&p_pending, NULL, true, "sigwait");
	waiting = pending = false;
	waited = true;
	*sig = SIGINT;
	return 0;
}
static void sender(void * a)
{
	mc_sched("kill");
	deliver();
}
static void on_abort(const char * why)
{
	mc_assert(failing, "the process ends");
	mc_outcome("aborted", 0);
	mc_eval(true);
	mc_end();
}
static void sig(void)
{
	mc_on_abort = &on_abort;
	mc_preempt_budget = -1;
	failing = mc_param("fails", 0);
	nother = mc_param("threads", 0);
	sigemptyset(&mask);
	for (int i = 1; i < 32; ++i)
		if (i == SIGTERM || i == SIGPIPE || (i == SIGINT && mc_param("blocked", 0))) sigaddset(&mask, i);
	before = mask;
	mc_thread(&sender, NULL, "kill");
	UTIL_waitSigInt();
	mc_assert(waited, "does not wait for SIGINT");
	for (int i = 1; i < 32; ++i)
		mc_assert(sigismember(&mask, i) == sigismember(&before, i), "signal %d is %s afterwards", i, sigismember(&mask, i) ? "blocked" : "not blocked any more");
	mc_eval(true);
}

/* ---- random numbers */
static long drawn[8]; static int ndrawn, nfeed;
int mc_rand(void)
{
	if (ndrawn >= nfeed) { ++ndrawn; return 0; } /* always accepted */
	return drawn[ndrawn++];
}
static bool accepted(uint32_t n, long r, uint32_t * x)
{
	drawn[0] = r;
	nfeed = 1;
	ndrawn = 0;
	*x = UTIL_randInt(n);
	mc_assert(*x < n, "%u is not below %u", *x, n);
	mc_assert(ndrawn >= 1 && ndrawn <= 2, "%d numbers are drawn", ndrawn);
	mc_eval(true);
	return ndrawn == 1;
}
static void one(uint32_t n)
{
	/* the numbers that are accepted are an initial range: find its end */
	uint32_t x;
	long lo = 0, hi = (long)RAND_MAX + 1;
	mc_assert(accepted(n, 0, &x), "0 is refused");
	while (hi - lo > 1) {
		long m = lo + (hi - lo) / 2;
		if (accepted(n, m, &x)) lo = m; else hi = m;
	}
	mc_assert(hi % n == 0, "the first %ld values are not a multiple of %u", hi, n);
	mc_assert(hi >= ((long)RAND_MAX + 1) / 2, "more than half of the values are refused");
	/* equally likely */
	long edge[] = { 0, n, hi / 2, hi - 2 * (long)n, hi - n, RAND_MAX - 2 * (long)n };
	for (int e = 0; e < 6; ++e)
		for (long r = edge[e] - 1; r < edge[e] + 4; ++r) {
			if (r < 0 || r > RAND_MAX) continue;
			bool a = accepted(n, r, &x);
			mc_assert(a == (r < hi), "%ld: %d", r, a);
			if (a) mc_assert(x == r % n, "some results are more likely");
		}
}
static void randoms(void)
{
	mc_choose(1, "-");
	uint32_t max = mc_param("n", 300);
	for (uint32_t n = 1; n <= max; ++n) one(n);
	for (uint32_t n = 1u << 15; n && n < 1u << 31; n <<= 1) one(n - 1), one(n), one(n + 1);
	one(RAND_MAX);
	mc_outcome("ranges", max);
}
void mc_harness(void)
{
	switch (mc_param("what", 0)) {
	case 0: drop(); break;
	case 1: sig(); break;
	case 2: randoms(); break;
	}
}
