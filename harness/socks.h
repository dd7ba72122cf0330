/* Model of the connections to the server: NETC_connect and the socket calls */
#ifndef SOCKS_H
#define SOCKS_H
#include "common.h"
#include <errno.h>
#include <sys/socket.h>
#include "util/net_common.h"

enum { SK_MAX = 10, SK_BASE = 100 };
struct Conn {
	bool open, shut, broken, forced;
};
static struct Conn sk[SK_MAX];
static int skN;           /* number of connections so far, the newest is skN - 1 */
static int skFails;       /* connection attempts that may still fail */
static int skBreaks;      /* connections that may still break */
static unsigned skAttempts, skRefused;
static bool skSlept = true, skStop;
static int skUse[MC_MAX_THREADS]; /* connection a thread currently sends to or receives from */
static unsigned skEvents, skStopAt;
static void sk_event(void) { if (skEvents < skStopAt) ++skEvents; }

static struct Conn * sk_conn(int fd, const char * what)
{
	mc_assert(fd >= SK_BASE && fd < SK_BASE + skN, "%s: %d is not a socket of ours", what, fd);
	struct Conn * c = &sk[fd - SK_BASE];
	mc_assert(c->open, "%s: connection %d was closed already", what, fd);
	return c;
}
static int sk_open(void)
{
	int n = 0;
	for (int i = 0; i < skN; ++i) n += sk[i].open;
	return n;
}
static bool sk_online(void) { return skN && sk[skN - 1].open && !sk[skN - 1].broken && !sk[skN - 1].shut; }

static void (*skTick)(void); /* time may pass here */
sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
{
	(void)prefix; (void)hostName; (void)port;
	sk_event();
	mc_sched("connect");
	mc_testcancel();
	if (skTick) skTick();
	mc_assert(skSlept, "connecting again at once after a failed attempt");
	mc_assert(!sk_online(), "connecting although there is a connection");
	++skAttempts;
	if (skFails > 0 && mc_choose(2, "connection attempt fails")) {
		--skFails;
		++skRefused;
		skSlept = false;
		return -1;
	}
	mc_assert(skN < SK_MAX, "harness: too many connections");
	sk[skN].open = true;
	return SK_BASE + skN++;
}
static bool sk_never(void * a) { (void)a; return false; }
static void sk_sleep(uint64_t us)
{
	mc_assert(!skSlept, "sleeping although no connection attempt failed");
	mc_assert(us == 10000000, "waiting %lu us between connection attempts", (unsigned long)us);
	mc_block_timed(&sk_never, NULL, true, "sleep");
	if (skTick) skTick();
	skSlept = true;
}
int mc_shutdown(int fd, int how)
{
	(void)how;
	mc_sched("shutdown");
	struct Conn * c = sk_conn(fd, "shutdown");
	mc_assert(c->broken || c->forced || skStop, "connection %d is shut down although it works", fd);
	c->shut = true;
	return 0;
}
int mc_close(int fd)
{
	mc_sched("close");
	struct Conn * c = sk_conn(fd, "close");
	mc_assert(c->broken || c->forced || skStop, "connection %d is closed although it works", fd);
	for (int i = 0; i < MC_MAX_THREADS; ++i)
		mc_assert(skUse[i] != fd || mc_thread_done(i) || mc_cancel_pending(i), "connection %d is closed while it is in use", fd);
	c->open = false;
	return 0;
}
#endif
