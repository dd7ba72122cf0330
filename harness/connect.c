/* N03: NETC_connect against a model of the resolver and the socket layer */
#include "common.h"
#include <errno.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <pthread.h>
#include <unistd.h>
#include "util/net_common.h"
#include "util/util.h"

enum { MAXH = 300, FD0 = 50 };
static int nHosts, fam[MAXH], listLive;
static int tries[MAXH], order[MAXH], nTried;
static struct addrinfo * list;
static bool fdOpen[MAXH + 1], fdConn[MAXH + 1];
static int nFd;
static int cancels, randMax, connected = -1;
static bool resolveFails;
static bool done;
static sock_t result;
static bool pOrder;
static int pMany, target; /* many addresses: which one succeeds */

static void maybe_cancel(const char * what)
{
	(void)what;
	if (cancels > 0 && mc_choose(2, "cancelled")) {
		--cancels;
		mc_cancel(mc_self());
	}
	mc_testcancel();
}
int mc_rand(void)
{
	static unsigned x;
	if (pMany) return (x = x * 1103515245u + 12345u) >> 8 & 0xffff;
	if (randMax > 0 && mc_choose(2, "random number beyond the limit")) { --randMax; return RAND_MAX; }
	return mc_choose(mc_param("rand", 12), "random number");
}
static void fill(struct sockaddr * a, int i, int family)
{
	if (family == AF_INET) {
		struct sockaddr_in * in = (void *)a;
		memset(in, 0, sizeof *in);
		in->sin_family = AF_INET;
		in->sin_addr.s_addr = htonl(0x7f000001u + i);
	} else if (family == AF_INET6) {
		struct sockaddr_in6 * in = (void *)a;
		memset(in, 0, sizeof *in);
		in->sin6_family = AF_INET6;
		in->sin6_addr.s6_addr[15] = i + 1;
		in->sin6_addr.s6_addr[14] = (i + 1) >> 8;
	} else
		memset(a, 0xee, sizeof *a), a->sa_family = family;
}
static socklen_t alen(int family)
{
	return family == AF_INET ? sizeof(struct sockaddr_in) : family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr);
}
int mc_getaddrinfo(const char * node, const char * service, const struct addrinfo * hints, struct addrinfo ** res)
{
	mc_assert(node && !strcmp(node, "the.host"), "wrong host is resolved");
	mc_assert(!listLive, "resolved twice");
	mc_assert(hints && hints->ai_socktype == SOCK_STREAM && hints->ai_family == AF_UNSPEC, "wrong kind of addresses requested");
	maybe_cancel("getaddrinfo");
	int budget = mc_malloc_budget;
	mc_malloc_budget = 0;
	if (mc_choose(2, "not resolved")) { resolveFails = true; mc_malloc_budget = budget; return mc_choose(2, "which error") ? EAI_NONAME : EAI_AGAIN; }
	nHosts = pMany ? pMany : 1 + mc_choose(mc_param("hosts", 3), "number of addresses");
	if (pMany) {
		const int at[] = { -1, 0, 1, pMany - 1, pMany - 2, pMany / 2, 254, 255, 256, 257 };
		target = at[mc_choose(pMany > 257 ? 10 : 6, "the address that answers")];
	}
	struct addrinfo ** tail = res;
	for (int i = 0; i < nHosts; ++i) {
		static const int fams[] = { AF_INET, AF_INET6, 77 };
		fam[i] = pOrder || pMany ? fams[i % 2] : fams[mc_choose(3, "address family")];
		struct addrinfo * a = malloc(sizeof *a);
		memset(a, 0, sizeof *a);
		a->ai_family = fam[i];
		a->ai_socktype = SOCK_STREAM;
		a->ai_protocol = IPPROTO_TCP;
		a->ai_addrlen = alen(fam[i]);
		a->ai_addr = malloc(a->ai_addrlen);
		fill(a->ai_addr, i, fam[i]);
		*tail = a;
		tail = &a->ai_next;
	}
	*tail = NULL;
	list = *res;
	listLive = 1;
	mc_malloc_budget = budget;
	return 0;
}
void mc_freeaddrinfo(struct addrinfo * a)
{
	mc_assert(listLive && a == list, "releasing something that is not the list of addresses");
	listLive = 0;
	while (a) {
		struct addrinfo * n = a->ai_next;
		free(a->ai_addr);
		free(a);
		a = n;
	}
	list = NULL;
}
static int openSocks(void)
{
	int n = 0;
	for (int i = 0; i <= MAXH; ++i) n += fdOpen[i];
	return n;
}
static int curFam, asked[2];
int mc_socket(int domain, int type, int protocol)
{
	(void)protocol;
	mc_assert(listLive, "creating a socket without addresses");
	mc_assert(openSocks() == 0, "creating another socket before closing the last one");
	mc_assert(domain == AF_INET || domain == AF_INET6, "socket of family %d", domain);
	mc_assert((type & ~(SOCK_CLOEXEC | SOCK_NONBLOCK)) == SOCK_STREAM && !(type & SOCK_NONBLOCK), "socket of type %d", type);
	curFam = domain;
	++asked[domain == AF_INET6];
	if (!pOrder && !pMany && mc_choose(2, "no socket")) { errno = EMFILE; return -1; }
	mc_assert(nFd <= MAXH, "too many sockets are created");
	fdOpen[nFd] = true;
	return FD0 + nFd++;
}
static void chk(int fd, const char * what)
{
	mc_assert(fd >= FD0 && fd < FD0 + nFd && fdOpen[fd - FD0], "%s of %d, which is not an open socket", what, fd);
}
int mc_connect(int fd, const struct sockaddr * addr, socklen_t len)
{
	chk(fd, "connect");
	mc_assert(!fdConn[fd - FD0], "socket connected twice");
	fdConn[fd - FD0] = true;
	mc_assert(connected == -1, "another connection although there is one");
	mc_assert(addr->sa_family == curFam, "address of a different family than the socket");
	mc_assert(len == alen(curFam), "address length %d", (int)len);
	int i;
	for (i = 0; i < nHosts; ++i) {
		if (fam[i] != curFam) continue;
		struct sockaddr_storage s;
		fill((struct sockaddr *)&s, i, fam[i]);
		if (curFam == AF_INET) ((struct sockaddr_in *)&s)->sin_port = htons(10004);
		else ((struct sockaddr_in6 *)&s)->sin6_port = htons(10004);
		if (!memcmp(&s, addr, len)) break;
	}
	mc_assert(i < nHosts, "connecting to an address that is not the host's, or to a wrong port");
	mc_assert(!tries[i]++, "address %d is tried more than once", i);
	order[nTried++] = i;
	maybe_cancel("connect");
	if (pMany ? nTried - 1 != target : mc_choose(2, "connecting fails")) {
		errno = ECONNREFUSED;
		return -1;
	}
	connected = fd;
	return 0;
}
int mc_close(int fd)
{
	maybe_cancel("close");
	chk(fd, "close");
	fdOpen[fd - FD0] = false;
	return 0;
}
static void onAbort(const char * why)
{
	mc_assert(mc_malloc_failed, "the process ends: %s", why);
	mc_outcome("out of memory", nTried);
	mc_eval(true);
	mc_end();
}
static void client(void * a)
{
	(void)a;
	int depth = mc_cleanup_depth();
	result = NETC_connect("TEST", "the.host", 10004);
	done = true;
	mc_assert(mc_cleanup_depth() == depth, "cleanup handlers are left");
}
static bool p_done(void * t) { return mc_thread_done((int)(intptr_t)t); }

void mc_harness(void)
{
	mc_preempt_budget = 0;
	pOrder = mc_param("order", 0);
	pMany = mc_param("many", 0);
	mc_on_abort = &onAbort;
	for (int round = 0; round < mc_param("rounds", 1); ++round) {
		cancels = mc_param("cancel", 1);
		randMax = mc_param("randmax", 1);
		nHosts = nTried = nFd = 0;
		memset(tries, 0, sizeof tries); memset(order, 0, sizeof order);
		memset(fdOpen, 0, sizeof fdOpen); memset(fdConn, 0, sizeof fdConn);
		connected = -1; asked[0] = asked[1] = 0; resolveFails = done = false; result = 0;
		unsigned heap = mc_heap_blocks();
		mc_malloc_budget = mc_param("nomem", 0);
		int t = mc_thread(&client, NULL, "client");
		mc_block(&p_done, (void *)(intptr_t)t, false, "join");
		mc_assert(!mc_malloc_failed, "goes on without memory");
		mc_assert(!listLive, "the list of addresses is not released");
		mc_assert(mc_heap_blocks() == heap, "memory is not released");
		if (!done) {
			mc_assert(mc_param("cancel", 1) > 0, "cancelled without reason");
			mc_assert(!openSocks(), "a socket is left open when cancelled");
			mc_outcome("cancelled", nFd);
			mc_eval(nFd > 0);
			continue;
		}
		if (connected >= 0) {
			mc_assert(result == connected, "returned %d instead of the connected socket %d", result, connected);
			mc_assert(fdOpen[result - FD0] && openSocks() == 1, "other sockets than the returned one are open, or it was closed");
		} else {
			mc_assert(result == SOCK_INVALID, "returned %d although not connected", result);
			mc_assert(!openSocks(), "a socket is left open");
			if (!resolveFails) {
				/* with a socket asked for each address, and none tried twice, each was tried */
				int n[2] = { 0, 0 };
				for (int i = 0; i < nHosts; ++i)
					if (fam[i] != 77) ++n[fam[i] == AF_INET6];
				mc_assert(n[0] == asked[0] && n[1] == asked[1], "%d IPv4 and %d IPv6 addresses tried instead of %d and %d", asked[0], asked[1], n[0], n[1]);
			}
		}
		uint64_t o = 0;
		for (int i = 0; i < nTried; ++i) o = o << 3 | (order[i] + 1);
		if (pOrder && nTried == nHosts)
			mc_outcome("order", o);
		else if (!pOrder)
			mc_outcome("end", o << 1 | (connected >= 0));
		mc_eval(nTried > 0);
		if (nTried > 1) mc_sample("%d addresses, %d tried, result %d", nHosts, nTried, result);
	}
}
