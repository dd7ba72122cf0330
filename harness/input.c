/* I01: the drivers of receiver and GPS against a model of files, terminals and
 * sockets. -DUART or not, -DGPS or not. */
#include "common.h"
#include <errno.h>
#include <stdlib.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <termios.h>
#include "util/net_common.h"
#ifdef MC_GPS
#include "trimble/trimble_input.h"
#define IN(f) TRIMBLE_INPUT_##f
#define HOSTDEF "localhost"
#define PORTDEF 10685
#define SECT "GPS"
#else
#include "radarcape/rc-input.h"
#define IN(f) RC_INPUT_##f
#define HOSTDEF "localhost"
#define PORTDEF 10003
#define SECT "INPUT"
#endif

static int fd = -1;              /* the open connection */
static int next_fd = 7;
static int opens, closes;
static bool configured, getattr;
static int fails, waits, cancels;
static int64_t next_try;
static bool connecting, finished, must_fail;
static bool shut;
static int budget;               /* of answers other than the plain one */

static void point(void)
{
	if (cancels > 0 && mc_choose(2, "cancelled")) { --cancels; mc_cancel(mc_self()); }
	mc_testcancel();
}
static int answer(int n, const char * what)
{
	if (budget <= 0) return 0;
	int c = mc_choose(n, what);
	if (c) --budget;
	return c;
}
static void on_sleep(uint64_t us)
{
	mc_assert(connecting, "sleeps although not connecting");
	point();
	mc_time_s += us / 1000000;
	mc_time_ns += us % 1000000 * 1000;
}
static void attempt(void)
{
	mc_assert(connecting, "connects although it was not asked to");
	mc_assert(fd == -1, "a second connection is opened");
	mc_assert(mc_time_s == next_try, "the next attempt is after %ld s instead of 10 s", (long)(mc_time_s - next_try + 10));
	next_try = mc_time_s + 10;
	configured = getattr = shut = false;
}
static void use(int f, const char * what)
{
	mc_assert(f == fd && f != -1, "%s on %s", what, f == -1 ? "no connection" : "a connection that is not open");
}
/* ---- UART ---- */
#ifdef MC_UART
static const uint8_t setSpeed[] = { 0x10, 0xbc, 0x00, 0x0b, 0x0b, 0x03, 0x01, 0x00, 0x00, 0x02, 0x02, 0x00, 0x10, 0x03 };
static struct termios tio;
static int baud, cmds;           /* speed set, speed commands written: at which speed */
int mc_open(const char * path, int flags, ...)
{
	attempt();
#ifdef MC_GPS
	mc_assert(!strcmp(path, "/dev/ttyS2"), "'%s' is opened", path);
#else
	mc_assert(!strcmp(path, "/dev/ttyS5"), "'%s' is opened", path);
#endif
	mc_assert((flags & O_ACCMODE) == O_RDWR, "the line is not opened for reading and writing");
	mc_assert(flags & O_NOCTTY, "the line may become the controlling terminal");
	mc_assert(flags & O_CLOEXEC, "the line is inherited by programs that are executed");
	point();
	if (answer(2, "open fails")) { errno = ENOENT; return -1; }
	++opens;
	baud = cmds = 0;
	return fd = next_fd++;
}
int mc_tcgetattr(int f, struct termios * t)
{
	use(f, "tcgetattr");
	if (answer(2, "tcgetattr fails")) { errno = EIO; return -1; }
	memset(t, 0, sizeof *t);
	t->c_lflag = ISIG | ICANON | IEXTEN | ECHO | ECHOE;
	t->c_iflag = ICRNL | IXON;
	t->c_oflag = OPOST | ONLCR;
	t->c_cflag = CS7 | CREAD | PARENB;
	getattr = true;
	return 0;
}
int mc_cfsetospeed(struct termios * t, speed_t s) { t->c_ospeed = s; return 0; }
int mc_cfsetispeed(struct termios * t, speed_t s) { t->c_ispeed = s; return 0; }
int mc_tcsetattr(int f, int how, const struct termios * t)
{
	use(f, "tcsetattr");
	mc_assert(getattr, "settings are written that were not read before");
	mc_assert(!(t->c_lflag & (ISIG | ICANON | IEXTEN | ECHO)) && !(t->c_oflag & OPOST), "the line is not transparent");
	mc_assert(!(t->c_iflag & (ICRNL | INLCR | IGNCR | ISTRIP | IXON | IXOFF)), "the line changes the data");
	mc_assert((t->c_cflag & CSIZE) == CS8 && (t->c_cflag & CREAD) && (t->c_cflag & CLOCAL) && !(t->c_cflag & CSTOPB), "wrong settings %x", t->c_cflag);
	mc_assert(t->c_ispeed == t->c_ospeed, "different speeds for input and output");
#ifdef MC_GPS
	mc_assert((t->c_cflag & PARENB) && (t->c_cflag & PARODD) && !(t->c_cflag & CRTSCTS), "wrong settings %x", t->c_cflag);
	mc_assert(t->c_ospeed == B9600 || t->c_ospeed == B115200, "wrong speed");
	if (t->c_ospeed == B115200) mc_assert(how != TCSANOW, "the speed is changed before the command was transmitted");
#else
	mc_assert(!(t->c_cflag & PARENB) && (t->c_cflag & CRTSCTS), "wrong settings %x", t->c_cflag);
	mc_assert(t->c_ospeed == B3500000, "wrong speed");
#endif
	if (answer(2, "tcsetattr fails")) { errno = EIO; return -1; }
	baud = t->c_ospeed == B9600 ? 9600 : t->c_ospeed == B115200 ? 115200 : 3500000;
	tio = *t;
	return 0;
}
int mc_tcflush(int f, int q) { use(f, "tcflush"); return 0; }
int mc_tcdrain(int f) { use(f, "tcdrain"); point(); return 0; }
static bool ready(void)
{
#ifdef MC_GPS
	return fd != -1 && baud == 115200 && cmds == 3;
#else
	return fd != -1 && baud == 3500000;
#endif
}
#else
/* ---- network ---- */
sock_t NETC_connect(const char * prefix, const char * host, uint16_t port)
{
	attempt();
	mc_assert(!strcmp(host, mc_param("cfg", 0) ? "receiver.example" : HOSTDEF), "connects to '%s'", host);
	mc_assert(port == (mc_param("cfg", 0) ? 12345 : PORTDEF), "connects to port %d", port);
	point();
	if (answer(2, "connection fails")) return SOCK_INVALID;
	++opens;
	return fd = next_fd++;
}
int mc_shutdown(int f, int how) { use(f, "shutdown"); shut = true; if (answer(2, "shutdown fails")) { errno = ENOTCONN; return -1; } return 0; }
static bool ready(void) { return fd != -1; }
#endif
int mc_close(int f)
{
	use(f, "close");
	fd = -1;
	++closes;
	return 0;
}

/* ---- transfers ---- */
static uint8_t * rbuf;
static size_t rlen;
static uint8_t given[8];
static int ngiven;
static bool nodata, reading;
static ssize_t do_read(int f, void * buf, size_t n)
{
	use(f, "read");
	mc_assert(reading, "data is read although nobody asked for it");
	mc_assert(buf == rbuf && n <= rlen, "read of %zu bytes into a buffer of %zu", n, rlen);
	mc_assert(!nodata, "reads again without waiting for data");
	point();
	ngiven = 0;
#ifdef MC_UART
	switch (answer(6, "read")) {
	case 1: nodata = true; return 0;
	case 2: nodata = true; errno = EAGAIN; return -1;
	case 3: errno = EIO; must_fail = true; return -1;
#else
	switch (answer(6, "recv")) {
	case 1: case 2: must_fail = true; return 0;
	case 3: errno = ECONNRESET; must_fail = true; return -1;
#endif
	case 4: ngiven = n; break;
	case 5: ngiven = n > 1 ? n - 1 : 1; break;
	default: ngiven = 1;
	}
	for (int i = 0; i < ngiven; ++i) ((uint8_t *)buf)[i] = given[i] = 0x1a + 37 * i;
	return ngiven;
}
ssize_t mc_read(int f, void * buf, size_t n) { return do_read(f, buf, n); }
ssize_t mc_recv(int f, void * buf, size_t n, int flags)
{
	mc_assert(!(flags & ~MSG_NOSIGNAL), "recv with flags %x", flags);
	return do_read(f, buf, n);
}
int mc_poll(struct pollfd * p, nfds_t n, int timeout)
{
	mc_assert(n == 1, "poll of %lu files", (unsigned long)n);
	use(p->fd, "poll");
	mc_assert(p->events == POLLIN, "poll waits for the wrong event %x", p->events);
	mc_assert(nodata, "waits although there may be data");
	mc_assert(timeout < 0 || timeout >= 100, "does not wait, but polls every %d ms", timeout);
	point();
	nodata = false;
	p->revents = POLLIN;
	if (answer(2, "poll is interrupted")) { errno = EINTR; return -1; }
	return 1;
}
static const uint8_t * wbuf;
static size_t wlen;
static ssize_t wret;
static ssize_t do_write(int f, const void * buf, size_t n)
{
#if defined(MC_GPS) && defined(MC_UART)
	if (connecting) {
		use(f, "write");
		mc_assert(n == sizeof setSpeed && !memcmp(buf, setSpeed, n), "wrong command to change the speed");
		point();
		if (answer(2, "command is cut")) return 3;
		cmds |= baud == 9600 ? 1 : baud == 115200 ? 2 : 4;
		return n;
	}
#endif
	mc_assert(!connecting, "data is written while connecting");
	mc_assert(buf == wbuf && n == wlen, "something else is written");
	if (f == -1) {
		mc_assert(fd == -1, "write without connection");
		errno = EBADF;
		return wret = -1;
	}
	use(f, "write");
	point();
	switch (answer(4, "write")) {
	case 1: errno = EIO; return wret = -1;
	case 2: return wret = n - 1;
	case 3: return wret = 0;
	default: return wret = n;
	}
}
ssize_t mc_write(int f, const void * buf, size_t n) { return do_write(f, buf, n); }
ssize_t mc_send(int f, const void * buf, size_t n, int flags) { return do_write(f, buf, n); }

/* ---- user ---- */
static void user(void * arg)
{
	int n = mc_param("ops", 6);
	bool connected = false;
	while (n-- > 0) {
		switch (mc_choose(5, "operation")) {
		case 0: n = 0; break;
		case 1:
			connecting = true;
			next_try = mc_time_s;
			IN(connect)();
			connecting = false;
			mc_assert(ready(), "reports a connection that was not set up");
			connected = true;
			break;
		case 2:
			IN(disconnect)();
			connected = false;
			mc_assert(fd == -1, "the connection stays open");
			break;
		case 3: {
			if (!connected) mc_prune();
			rlen = mc_param("buf", 3);
			rbuf = mc_malloc(rlen);
			memset(rbuf, 0xee, rlen);
			reading = true; must_fail = false; nodata = false; ngiven = 0;
			size_t r = IN(read)(rbuf, rlen);
			reading = false;
			if (must_fail) {
				mc_assert(r == 0, "a failing connection delivers %zu bytes", r);
				connected = false;
			} else {
				mc_assert(ngiven && r == (size_t)ngiven, "%zu bytes are delivered instead of %d", r, ngiven);
				mc_assert(!memcmp(rbuf, given, r), "wrong bytes are delivered");
				mc_eval(true);
			}
			for (size_t i = r; i < rlen; ++i) mc_assert(rbuf[i] == 0xee, "byte %zu of the buffer is changed", i);
			mc_free(rbuf);
			rbuf = NULL;
			break;
		}
		case 4: {
			uint8_t w[3] = { 0x1a, '1', 'C' };
			wbuf = w; wlen = sizeof w;
			wret = -2;
			size_t r = IN(write)(w, sizeof w);
#if defined(MC_GPS) && !defined(MC_UART)
			mc_assert(wret == -2 && r == sizeof w, "data is written");
#else
			mc_assert(wret != -2, "nothing is written");
			mc_assert(r == (wret > 0 ? (size_t)wret : 0), "write reports %zu bytes instead of %ld", r, (long)wret);
#endif
			wret = 0; wbuf = NULL;
			break;
		}
		}
		mc_assert(opens - closes == (fd != -1), "connection counted wrong");
	}
	finished = true;
}
static bool thread_done(void * t) { return mc_thread_done((intptr_t)t); }
void mc_harness(void)
{
	mc_on_sleep = on_sleep;
	mc_preempt_budget = 0;
	IN(register)();
#ifndef MC_UART
	{
		/* defaults and sanity of the configuration */
		CFG_loadDefaults();
		mc_assert(CFG_check(), "the default configuration is refused");
		CFG_setString(SECT, "host", "");
		mc_assert(!CFG_check(), "a missing host name is accepted");
		CFG_setString(SECT, "host", "receiver.example");
		CFG_setPort(SECT, "port", 0);
		mc_assert(!CFG_check(), "port 0 is accepted");
		CFG_setPort(SECT, "port", 12345);
		mc_assert(CFG_check(), "the configuration is refused");
		if (!mc_param("cfg", 0)) CFG_loadDefaults();
	}
#endif
	int rounds = mc_param("rounds", 1);
	for (int r = 0; r < rounds; ++r) {
		cancels = mc_param("cancel", 1);
		budget = mc_param("budget", 3);
		finished = false;
		IN(init)();
		int t = mc_thread(user, NULL, "input");
		mc_block(thread_done, (void *)(intptr_t)t, false, "wait");
		connecting = reading = false;
		int was = fd;
		IN(disconnect)();
		mc_assert(fd == -1, "the connection stays open");
		mc_assert(opens == closes, "connection counted wrong");
		(void)was;
		if (rbuf) { mc_free(rbuf); rbuf = NULL; }
	}
	CFG_unregisterAll();
	mc_assert(mc_heap_blocks() == 0, "memory leak");
}
