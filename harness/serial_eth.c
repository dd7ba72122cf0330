/* S02: serial number from the MAC address */
#include "common.h"
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <linux/if.h>
#include <linux/if_arp.h>
#include "core/serial.h"
#include "util/serial_eth.h"

static const char * dev;
static int socks, files;
static int asked;                 /* system calls of the current query */
static uint8_t mac[6];
static bool from_ioctl, from_sysfs;
static const char * content;
static char text[64];
static int budget;
static bool may_fail(const char * what) { return budget > 0 && mc_choose(2, what) && budget--; }
static bool cancels;
static void cancel_point(void)
{
	if (cancels && mc_choose(2, "cancel here")) { cancels = false; mc_cancel(mc_self()); }
	mc_testcancel();
}

char * mc_getenv(const char * n) { mc_fail("the environment is asked for %s", n); }
int mc_socket(int d, int t, int p)
{
	++asked;
	if (may_fail("socket fails")) { errno = EMFILE; return -1; }
	++socks;
	return 5;
}
int mc_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	mc_assert(fd == 5 && socks == 1, "ioctl on something that is no socket");
	mc_assert(req == SIOCGIFHWADDR, "request %lx", req);
	mc_assert(strnlen(r->ifr_name, IFNAMSIZ) < IFNAMSIZ && !strcmp(r->ifr_name, dev), "interface '%.16s' is asked for", r->ifr_name);
	cancel_point();
	if (may_fail("ioctl fails")) { errno = ENODEV; return -1; }
	memset(&r->ifr_hwaddr, 0xaa, sizeof r->ifr_hwaddr);
	r->ifr_hwaddr.sa_family = ARPHRD_ETHER;
	memcpy(r->ifr_hwaddr.sa_data, mac, 6);
	if (may_fail("not ethernet")) {
		static const int k[] = { ARPHRD_LOOPBACK, 0, ARPHRD_PPP, ARPHRD_ETHER + 0x100 };
		r->ifr_hwaddr.sa_family = k[mc_choose(4, "kind")];
		return 0;
	}
	from_ioctl = true;
	return 0;
}
int mc_close(int fd)
{
	cancel_point();
	mc_assert(fd == 5 && socks == 1, "something that is no open socket is closed");
	--socks;
	return 0;
}
FILE * mc_fopen(const char * path, const char * mode)
{
	++asked;
	char want[64];
	snprintf(want, sizeof want, "/sys/class/net/%s/address", dev);
	mc_assert(!strcmp(path, want), "'%s' is opened", path);
	mc_assert(mode[0] == 'r' && !strchr(mode, '+'), "opened in mode '%s'", mode);
	cancel_point();
	if (may_fail("fopen fails")) { errno = ENOENT; return NULL; }
	++files;
	content = text;
	return (FILE *)text;
}
static int scan(FILE * f, const char * fmt, va_list ap)
{
	mc_assert(f == (FILE *)text && files == 1, "reading from something that is no open file");
	cancel_point();
	if (budget > 0) {
		int k = mc_choose(7, "content");
		if (k) { --budget; from_sysfs = false; }
		switch (k) {
		case 0: from_sysfs = true; break;
		case 1: text[0] = 0; break;
		case 2: text[14] = 0; break;               /* five bytes */
		case 3: strcpy(text, "zz:11:22:33:44:55\n"); break;
		case 4: text[2] = '-'; break;
		case 5: text[15] = 'g'; break;
		case 6: text[9] = '\n'; text[8] = 'x'; break;
		}
	} else from_sysfs = true;
	return vsscanf(text, fmt, ap);
}
int mc_fscanf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = scan(f, fmt, ap); va_end(ap); return r; }
int mc___isoc99_fscanf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = scan(f, fmt, ap); va_end(ap); return r; }
int mc___isoc23_fscanf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = scan(f, fmt, ap); va_end(ap); return r; }
char * mc_fgets(char * b, int n, FILE * f)
{
	mc_assert(f == (FILE *)text && files == 1, "reading from something that is no open file");
	cancel_point();
	from_sysfs = true;
	if (!*content) return NULL;
	int l = snprintf(b, n, "%s", content);
	content += l < n ? l : n - 1;
	return b;
}
int mc_fclose(FILE * f)
{
	mc_assert(f == (FILE *)text && files == 1, "closing something that is no open file");
	--files;
	return 0;
}
static bool known;
static uint32_t number;
static bool done;
static void queries(void * a)
{
	int n = mc_param("queries", 3);
	while (n-- > 0) {
		asked = 0;
		from_ioctl = from_sysfs = false;
		static const uint8_t v[] = { 0, 0x7f, 0x80, 0xff, 0x1a };
		mac[0] = 0xb8; mac[1] = 0xa7;
		for (int i = 2; i < 6; ++i) mac[i] = known ? i : v[mc_choose(i == 2 ? 5 : mc_param("vals", 3), "byte")];
		bool upper = mc_choose(2, "upper case");
		snprintf(text, sizeof text, upper ? "%02X:%02X:%02X:%02X:%02X:%02X\n" : "%02x:%02x:%02x:%02x:%02x:%02x\n", mac[0], mac[1], mac[2], mac[3], mac[4], mac[5]);
		bool null = mc_choose(2, "no buffer");
		uint32_t s = 0xdeadbeef;
		enum SERIAL_RETURN r = SERIAL_ETH_getSerial(null ? NULL : &s);
		mc_assert(!socks && !files, "%d sockets and %d files stay open", socks, files);
		if (known) {
			mc_assert(!asked, "the system is asked although the number is known");
			mc_assert(r == SERIAL_RETURN_SUCCESS, "known number is not returned");
		} else if (from_ioctl || from_sysfs) {
			mc_assert(r == SERIAL_RETURN_SUCCESS, "fails although the address is available");
			known = true;
			number = (mac[2] & 0x7f) << 24 | mac[3] << 16 | mac[4] << 8 | mac[5];
			mc_outcome("serial", number);
			mc_outcome("source", from_ioctl);
			mc_sample("%.17s -> %u", text, number);
			mc_eval(from_sysfs);
		} else {
			mc_assert(r == SERIAL_RETURN_FAIL_PERM, "%d is reported although no address is available", r);
			mc_outcome("failure", 0);
			mc_eval(true);
			continue;
		}
		if (!null) mc_assert(s == number, "number %x instead of %x", s, number);
	}
}
static bool t_done(void * a) { return mc_thread_done(*(int *)a); }
void mc_harness(void)
{
	mc_preempt_budget = 0;
	cancels = mc_param("cancel", 0);
	dev = mc_param_str("dev", "eth0");
	budget = mc_param("fail", 3);
	const struct CFG_Option * o = cfg_opt(SERIAL_comp.config, "serial");
	mc_assert(o->given, "harness: option");
	if (mc_choose(2, "configured")) {
		static const uint32_t v[] = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff };
		number = *(uint32_t *)o->var = v[mc_choose(5, "number")];
		*o->given = known = true;
	}
	int t = mc_thread(queries, NULL, "query");
	mc_block(t_done, &t, false, "wait");
	mc_assert(!socks && !files, "%d sockets and %d files stay open", socks, files);
	mc_assert(mc_locks_held(t) == 0, "locks");
}
