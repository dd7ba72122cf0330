/* M02: the radarcape daemon from its main() on: command line, configuration,
 * serial number, FPGA, receivers, remote commands, saving the configuration,
 * restart and shutdown */
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <signal.h>
#include <getopt.h>
#include <poll.h>
#include <termios.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <linux/if.h>
#include <linux/if_arp.h>
#include "util/net_common.h"
#include "util/proc.h"
#include "core/tb.h"
#include "radarcape/gpio.h"
#include "fmt.h"

int mc_main(int argc, char ** argv);
#if defined(INPUT_RADARCAPE_UART)
enum { UART = 1, NET = 0, DUMMY = 0, DEVICE = 2 };
#elif defined(INPUT_RADARCAPE_NETWORK)
enum { UART = 0, NET = 1, DUMMY = 0, DEVICE = 3 };
#else
enum { UART = 0, NET = 0, DUMMY = 1, DEVICE = 1 };
#endif

static int events, stopAt;
static bool released, must_abort, nothreads, finished, inert, black, execed;
static int result, run;
static void active(const char * what)
{
	mc_assert(!inert, "%s although the daemon should not start", what);
}
static bool p_released(void * a) { (void)a; return released; }
static void event(const char * what)
{
	if (!stopAt || events >= stopAt) return;
	if (++events == stopAt) {
		mc_note("stopped at %s", what);
		mc_block(&p_released, NULL, false, "parked");
	}
}

/* ---- configuration ---- */
enum { IHOST, IPORT, GHOST, GPORT, SHOST, SPORT, FEC, CRC, EXTSQ, SYNC, SERIAL, FCONF, FFILE, STATS, N_O };
static const struct { const char * sect, * name; const char * vals[4]; const char * def; int variants; } O[N_O] = {
	{ "INPUT", "Host", { "10.1.2.3", "rc.example.org", "" }, "localhost", 2 },
	{ "INPUT", "Port", { "10010", "0", "65535" }, "10003", 2 },
	{ "GPS", "Host", { "10.1.2.4", "" }, "localhost", 2 },
	{ "GPS", "Port", { "10700", "0" }, "10685", 2 },
	{ "NETWORK", "Host", { "srv.example.org", "" }, "collector.opensky-network.org", 7 },
	{ "NETWORK", "Port", { "4242", "0" }, "10004", 7 },
	{ "INPUT", "fec", { "false", "true" }, "true", 7 },
	{ "FILTER", "CRC", { "false", "true" }, "true", 7 },
	{ "FILTER", "ModeSExtSquitterOnly", { "false", "true" }, "true", 7 },
	{ "FILTER", "SyncFilter", { "false", "true" }, "true", 7 },
	{ "Device", "Serial", { "4711", "4294967295", "0" }, NULL, 7 },
	{ "FPGA", "Configure", { "false", "true" }, "true", 7 },
	{ "FPGA", "File", { "other.rbf", "" }, "openskyd.rbf", 7 },
	{ "STATISTICS", "Enabled", { "false", "true" }, "true", 7 },
};
static const char * eff[N_O];
static char conf[1500], saved[1500];
static unsigned conflen;
static bool conf_there;
static bool saved_used;
static void configure(long vary)
{
	conf_there = !mc_param("nofile", 0);
	conflen = snprintf(conf, sizeof conf, "%s", conf_there ? "[BUFFER]\nStaticBacklog=4\n" : "");
	for (int o = 0; o < N_O; ++o) {
		eff[o] = o == STATS && conf_there ? "false" : O[o].def;
		if (!(O[o].variants & (UART | NET << 1 | DUMMY << 2))) continue;
		if (vary >> o & 1) {
			int n = 0;
			while (n < 4 && O[o].vals[n]) ++n;
			int v = mc_choose(n + 1, O[o].name);
			if (v == n) { if (o == STATS) eff[o] = O[o].def; continue; }
			if (!conf_there) continue;
			/* an empty value stands for the default */
			eff[o] = *O[o].vals[v] ? O[o].vals[v] : O[o].def;
			conflen += snprintf(conf + conflen, sizeof conf - conflen, "[%s]\n%s = %s\n", O[o].sect, O[o].name, O[o].vals[v]);
		} else if (o == STATS && conf_there)
			conflen += snprintf(conf + conflen, sizeof conf - conflen, "[STATISTICS]\nEnabled=false\n");
	}
	mc_assert(conflen < sizeof conf, "harness: file too long");
}
static bool fpga_on(void) { return UART && !strcmp(eff[FCONF], "true"); }
static bool on(int o) { return !strcmp(eff[o], "true"); }
static bool acceptable(void)
{
	if (NET && (!*eff[IHOST] || !atoi(eff[IPORT]) || !*eff[GHOST] || !atoi(eff[GPORT]))) return false;
	if (fpga_on() && !*eff[FFILE]) return false;
	return *eff[SHOST] && atoi(eff[SPORT]);
}
static uint8_t mac[6] = { 0x02, 0x11, 0x9a, 0x1a, 0x00, 0x01 };
static bool mac_ioctl, mac_sysfs;
static bool has_serial(void) { return eff[SERIAL] || mac_ioctl || mac_sysfs; }
static uint32_t serial(void) { return eff[SERIAL] ? strtoul(eff[SERIAL], NULL, 10) : 0x1a1a0001; }

/* ---- files ---- */
enum { FD_CONF = 5, FD_SOCK = 6, FD_UART = 7, FD_GPS = 8, FD_RBF = 9 };
static bool fd_open[10];
static bool rbf_missing, chip_dead;
static void * map_ptr;
static int wfails;
static bool wfailed;
static char the_file, sys_file;
static int wr;            /* 0: not, 1: being written, 2: written */
static unsigned savedlen;
static struct { uint8_t buf[128]; uint8_t len, pos; bool broken; char fmt, df, crc, ts, hs, fec, ac; uint8_t part; bool started; } in, gps;
static int frames, fed, inBreaks, gpsBreaks, got_ext, got_short, got, fixes, fixed;
static bool synced, mlat;
static bool programmed;
int mc_open(const char * path, int flags, ...)
{
	int fd;
	active(path);
	if (!strcmp(path, "/e/openskyd.conf")) {
		mc_assert((flags & O_ACCMODE) == O_RDONLY, "the configuration is opened for writing");
		if (!conf_there) { errno = ENOENT; return -1; }
		fd = FD_CONF;
	} else if (UART && !strcmp(path, "/dev/ttyS5")) {
		mc_assert((flags & (O_ACCMODE | O_NOCTTY)) == (O_RDWR | O_NOCTTY), "the UART is opened with flags %x", flags);
		mc_assert(!fpga_on() || programmed, "the receiver is used before the FPGA is programmed");
		event("open");
		fd = FD_UART;
		memset(&in, 0, sizeof in);
		synced = false;
	} else if (UART && !strcmp(path, "/dev/ttyS2")) {
		mc_assert((flags & (O_ACCMODE | O_NOCTTY)) == (O_RDWR | O_NOCTTY), "the UART is opened with flags %x", flags);
		event("open");
		fd = FD_GPS;
		memset(&gps, 0, sizeof gps);
		fixes = fixed + mc_param("fixes", 1);
	} else {
		char want[60];
		snprintf(want, sizeof want, "/f/%s", eff[FFILE]);
		mc_assert(UART && !strcmp(path, want) && (flags & O_ACCMODE) == O_RDONLY, "'%s' is opened", path);
		mc_assert(fpga_on(), "the FPGA is programmed although it should not be");
		if (rbf_missing) { errno = ENOENT; return -1; }
		fd = FD_RBF;
	}
	mc_assert(!fd_open[fd], "%s is opened twice", path);
	fd_open[fd] = true;
	return fd;
}
int mc_fstat(int fd, struct stat * st)
{
	mc_assert((fd == FD_CONF || fd == FD_RBF) && fd_open[fd], "fstat on something that is no open file");
	memset(st, 0, sizeof *st);
	st->st_mode = S_IFREG | 0644;
	st->st_size = fd == FD_CONF ? conflen : 1;
	return 0;
}
int mc_stat(const char * path, struct stat * st) { (void)st; mc_fail("stat of '%s'", path); }
void * mc_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	(void)a; (void)prot; (void)flags;
	mc_assert((fd == FD_CONF || fd == FD_RBF) && fd_open[fd] && !off && !map_ptr, "mmap of something that is no open file");
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	mc_assert(len == (fd == FD_CONF ? conflen : 1), "not the whole file is mapped");
	int b = mc_malloc_budget;
	mc_malloc_budget = 0; /* what happens if a file cannot be read is another question */
	map_ptr = mc_malloc(len);
	mc_malloc_budget = b;
	if (fd == FD_CONF) memcpy(map_ptr, conf, len);
	else *(uint8_t *)map_ptr = 0x5a;
	return map_ptr;
}
int mc_munmap(void * p, size_t len)
{
	(void)len;
	mc_assert(p && p == map_ptr, "munmap of something that is not mapped");
	mc_free(p);
	map_ptr = NULL;
	return 0;
}
/* serial number */
int mc_socket(int d, int t, int p)
{
	(void)d; (void)p;
	active("socket");
	mc_assert((t & 15) == SOCK_DGRAM && !fd_open[FD_SOCK], "socket of type %d", t);
	fd_open[FD_SOCK] = true;
	return FD_SOCK;
}
int mc_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	mc_assert(fd == FD_SOCK && fd_open[fd] && req == SIOCGIFHWADDR && !strcmp(r->ifr_name, "eth0"), "ioctl");
	if (!mac_ioctl) { errno = ENODEV; return -1; }
	r->ifr_hwaddr.sa_family = ARPHRD_ETHER;
	memcpy(r->ifr_hwaddr.sa_data, mac, 6);
	return 0;
}
static int scan(const char * fmt, va_list ap)
{
	char text[40];
	snprintf(text, sizeof text, "%02x:%02x:%02x:%02x:%02x:%02x\n", mac[0], mac[1], mac[2], mac[3], mac[4], mac[5]);
	return vsscanf(text, fmt, ap);
}
int mc_fscanf(FILE * f, const char * fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); int r = scan(fmt, ap); va_end(ap); return r; }
int mc___isoc99_fscanf(FILE * f, const char * fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); int r = scan(fmt, ap); va_end(ap); return r; }
int mc___isoc23_fscanf(FILE * f, const char * fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); int r = scan(fmt, ap); va_end(ap); return r; }
/* saving the configuration */
static const char * savefile;
static bool wfail(const char * what) { if (wfails > 0 && mc_choose(2, what)) { --wfails; return wfailed = true; } return false; }
FILE * mc_fopen(const char * path, const char * mode)
{
	active(path);
	if (!strcmp(path, "/sys/class/net/eth0/address")) {
		mc_assert(*mode == 'r', "mode '%s'", mode);
		if (!mac_sysfs) { errno = ENOENT; return NULL; }
		return (FILE *)&sys_file;
	}
	mc_assert(savefile && !strcmp(path, savefile), "'%s' is opened for writing", path);
	mc_assert(*mode == 'w' && !wr, "the file is opened twice or not for writing");
	if (wfail("cannot be created")) { errno = EROFS; return NULL; }
	wr = 1;
	savedlen = 0;
	return (FILE *)&the_file;
}
static unsigned printed;
int mc_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	char buf[400];
	memset(buf, 0, sizeof buf);
	fmt_check(fmt, ap);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	if (f == stdout) printed += n;
	if (f == stderr || f == stdout) return n;
	mc_assert((void *)f == &the_file && wr == 1, "output to a file that is not open");
	if (wfail("disk is full")) { errno = ENOSPC; return -1; }
	mc_assert(savedlen + n < sizeof saved, "too much output");
	memcpy(saved + savedlen, buf, n);
	savedlen += n;
	return n;
}
int mc_fprintf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = mc_vfprintf(f, fmt, ap); va_end(ap); return r; }
int mc_vprintf(const char * fmt, va_list ap) { return mc_vfprintf(stdout, fmt, ap); }
int mc_printf(const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = mc_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int mc_puts(const char * s) { return mc_fprintf(stdout, "%s\n", s); }
int mc_putchar(int c) { printed++; return c; }
int mc_fputs(const char * s, FILE * f) { return mc_fprintf(f, "%s", s); }
int mc_fputc(int c, FILE * f) { return mc_fprintf(f, "%c", c) < 0 ? EOF : c; }
int mc_putc(int c, FILE * f) { return mc_fputc(c, f); }
size_t mc_fwrite(const void * p, size_t s, size_t n, FILE * f) { return mc_fprintf(f, "%.*s", (int)(s * n), (const char *)p) < 0 ? 0 : n; }
int mc_fflush(FILE * f) { (void)f; return 0; }
int mc_ferror(FILE * f) { (void)f; return wfailed; }
int mc_fsync(int fd) { (void)fd; return 0; }
int mc_fclose(FILE * f)
{
	if ((void *)f == &sys_file) return 0;
	mc_assert((void *)f == &the_file && wr == 1, "close of a file that is not open");
	wr = 2;
	if (wfail("closing fails")) { errno = ENOSPC; return EOF; }
	return 0;
}
void mc_setlinebuf(FILE * f) { (void)f; }
void mc_srand(unsigned x) { (void)x; }
void mc_srandom(unsigned x) { (void)x; }

/* ---- FPGA and watchdog ---- */
static bool gpio_ready;
static int pulses, wd;
static bool gpio_init(void) { active("GPIO"); gpio_ready = true; return true; }
struct Component GPIO_comp = { .description = "GPIO", .onConstruct = &gpio_init, .dependencies = { NULL } };
static int bits, clk;
static bool reset, wrongboard;
void GPIO_setDirection(uint_fast32_t g, enum GPIO_DIRECTION d) { (void)g; (void)d; active("GPIO"); mc_assert(gpio_ready, "GPIO is used before it is ready"); }
void GPIO_set(uint_fast32_t g)
{
	mc_assert(gpio_ready, "GPIO is used before it is ready");
	if (g == 60) { wd = 1; return; }
	if (g == 44) return;
	wrongboard |= g != (black ? 61 : 37) && g != (black ? 47 : 39);
	if (g == (black ? 61 : 37)) { reset = true; bits = 0; }
	if (g == (black ? 47 : 39)) clk = 1;
}
void GPIO_clear(uint_fast32_t g)
{
	mc_assert(gpio_ready, "GPIO is used before it is ready");
	if (g == 60) { pulses += wd; wd = 0; return; }
	if (g == 44) return;
	wrongboard |= g != (black ? 61 : 37) && g != (black ? 47 : 39);
	if (g == (black ? 61 : 37)) { reset = false; programmed = false; }
	if (g == (black ? 47 : 39)) { bits += clk && reset; clk = 0; if (bits == 8 && !wrongboard) programmed = true; }
}
uint_fast32_t GPIO_read(uint_fast32_t g)
{
	mc_assert(gpio_ready, "GPIO is used before it is ready");
	if (chip_dead) return 0;
	if (g == (black ? 46 : 34)) return reset;
	if (g == (black ? 45 : 38)) return programmed;
	wrongboard = true;
	return 0;
}

/* ---- receivers ---- */
static void feed(uint8_t b, bool esc, uint8_t e)
{
	in.buf[in.len++] = b;
	if (esc && b == e) in.buf[in.len++] = b;
}
static void position(uint8_t * buf, uint8_t * len, int n)
{
	uint8_t p[69] = { 0x8f, 0xac, 7, 0 };
	double v[3] = { 0.8, 0.14, 512.5 + n };
	for (int i = 0; i < 3; ++i) {
		uint64_t u;
		memcpy(&u, &v[i], 8);
		for (int k = 0; k < 8; ++k) p[1 + 36 + 8 * i + k] = u >> (56 - 8 * k);
	}
	unsigned l = 0;
	buf[l++] = 0x10;
	for (unsigned i = 0; i < sizeof p; ++i) {
		buf[l++] = p[i];
		if (p[i] == 0x10) buf[l++] = 0x10;
	}
	buf[l++] = 0x10;
	buf[l++] = 0x03;
	*len = l;
}

/** is there something to read from the receiver (0) or from the GPS receiver (1)? */
static bool readable(int dev)
{
	if (dev) return gps.broken || gps.pos < gps.len || fixes > fixed || gpsBreaks > 0;
	return in.broken || in.pos < in.len || !in.started || frames > 0 || inBreaks > 0;
}
static bool p_readable(void * a) { return readable(a != NULL); }
static ssize_t take(int dev, uint8_t * p, size_t n)
{
	if (dev) {
		if (gps.pos == gps.len) {
			if (gpsBreaks > 0 && (fixes <= fixed || mc_choose(2, "GPS receiver fails"))) { --gpsBreaks; gps.broken = true; errno = EIO; return -1; }
			gps.pos = 0;
			position(gps.buf, &gps.len, ++fixed);
		}
		unsigned m = gps.len - gps.pos < (int)n ? gps.len - gps.pos : n;
		memcpy(p, gps.buf + gps.pos, m);
		gps.pos += m;
		if (gps.pos == gps.len) { memset(gps.buf, 0, sizeof gps.buf); gps.pos = gps.len = 0; }
		return m;
	}
	if (in.pos == in.len) {
		if (inBreaks > 0 && in.started && (!frames || mc_choose(2, "receiver fails"))) { --inBreaks; in.broken = true; synced = false; errno = EIO; return -1; }
		in.pos = in.len = 0;
		if (!in.started) {
			in.started = true;
			feed(0x1a, false, 0x1a);
			feed('4', false, 0x1a);
			for (int i = 0; i < 21; ++i) feed(i == 3 && mlat ? 0x1a : 0, true, 0x1a);
			synced = mlat;
		} else {
			--frames;
			++fed;
			for (int k = 0; k < 2; ++k) {
				feed(0x1a, false, 0x1a);
				feed(k ? '3' : '2', false, 0x1a);
				for (int i = 0; i < 6; ++i) feed(i, true, 0x1a);
				feed(0x1a, true, 0x1a);
				feed(k ? 17 << 3 : 11 << 3, true, 0x1a);
				if (k) feed(0x1a, true, 0x1a);
				feed(fed, true, 0x1a);
				for (int i = 0; i < (k ? 11 : 5); ++i) feed(0, true, 0x1a);
			}
		}
	}
	unsigned m = in.len - in.pos < (int)n ? in.len - in.pos : n;
	memcpy(p, in.buf + in.pos, m);
	in.pos += m;
	if (in.pos == in.len) { memset(in.buf, 0, sizeof in.buf); in.pos = in.len = 0; }
	return m;
}
ssize_t mc_read(int fd, void * p, size_t n)
{
	mc_assert((fd == FD_UART || fd == FD_GPS) && fd_open[fd], "read from something that is not open");
	mc_sched("read");
	mc_testcancel();
	event("read");
	if (!readable(fd == FD_GPS)) { errno = EAGAIN; return -1; }
	return take(fd == FD_GPS, p, n);
}
int mc_poll(struct pollfd * f, nfds_t n, int ms)
{
	mc_assert(n == 1 && (f->fd == FD_UART || f->fd == FD_GPS) && fd_open[f->fd] && f->events & POLLIN && ms < 0, "poll");
	mc_block(&p_readable, f->fd == FD_GPS ? &gps : NULL, true, "poll");
	return 1;
}
ssize_t mc_write(int fd, const void * p, size_t n)
{
	if (fd == -1) { errno = EBADF; return -1; }
	mc_assert((fd == FD_UART || fd == FD_GPS) && fd_open[fd], "write to something that is not open");
	mc_sched("write");
	mc_testcancel();
	event("write");
	if (fd == FD_GPS) return n;
	for (size_t i = 0; i < n; ++i) {
		uint8_t b = ((const uint8_t *)p)[i];
		if (in.part < 2) { mc_assert(b == (in.part ? '1' : 0x1a), "the receiver gets garbage"); ++in.part; continue; }
		in.part = 0;
		switch (b) {
		case 'c': case 'C': in.fmt = b; break;
		case 'd': case 'D': in.df = b; break;
		case 'f': case 'F': in.crc = b; break;
		case 'g': case 'G': in.ts = b; break;
		case 'h': case 'H': in.hs = b; break;
		case 'i': case 'I': in.fec = b; break;
		case 'j': case 'J': in.ac = b; break;
		}
	}
	return n;
}
int mc_tcgetattr(int fd, struct termios * t) { mc_assert((fd == FD_UART || fd == FD_GPS) && fd_open[fd], "tcgetattr"); memset(t, 0, sizeof *t); return 0; }
int mc_tcsetattr(int fd, int a, const struct termios * t) { (void)a; (void)t; mc_assert((fd == FD_UART || fd == FD_GPS) && fd_open[fd], "tcsetattr"); return 0; }
int mc_tcflush(int fd, int q) { (void)fd; (void)q; return 0; }
int mc_tcdrain(int fd) { (void)fd; return 0; }
int mc_cfsetispeed(struct termios * t, speed_t s) { (void)t; (void)s; return 0; }
int mc_cfsetospeed(struct termios * t, speed_t s) { (void)t; (void)s; return 0; }

/* ---- network ---- */
enum Peer { P_SRV, P_IN, P_GPS };
enum { SK_MAX = 10, SK0 = 100 };
struct Conn {
	bool open, shut, broken; uint8_t peer;
	uint8_t buf[48]; uint8_t len; uint8_t stage, pos; bool esc;
};
static struct Conn sk[SK_MAX];
static int skN, breaks, cfails, cmds, logins;
static struct Conn * conn(int fd, const char * what)
{
	mc_assert(fd >= SK0 && fd < SK0 + skN && sk[fd - SK0].open, "%s: %d is no open socket", what, fd);
	return &sk[fd - SK0];
}
sock_t NETC_connect(const char * prefix, const char * host, uint16_t port)
{
	(void)prefix;
	active("connect");
	mc_sched("connect");
	mc_testcancel();
	event("connect");
	enum Peer peer;
	if (!strcmp(host, eff[SHOST]) && port == atoi(eff[SPORT])) peer = P_SRV;
	else if (NET && !strcmp(host, eff[IHOST]) && port == atoi(eff[IPORT])) peer = P_IN;
	else if (NET && !strcmp(host, eff[GHOST]) && port == atoi(eff[GPORT])) peer = P_GPS;
	else mc_fail("connects to %s:%u", host, port);
	for (int i = 0; i < skN; ++i)
		mc_assert(!sk[i].open || sk[i].peer != peer || sk[i].broken || sk[i].shut, "there is already a connection to %s", host);
	if (cfails > 0 && mc_choose(2, "connecting fails")) { --cfails; return -1; }
	mc_assert(skN < SK_MAX, "harness: too many connections");
	int i = skN++;
	memset(&sk[i], 0, sizeof sk[0]);
	sk[i].open = true;
	sk[i].peer = peer;
	if (peer == P_IN) { memset(&in, 0, sizeof in); synced = false; }
	if (peer == P_GPS) { memset(&gps, 0, sizeof gps); fixes = fixed + mc_param("fixes", 1); }
	event("connected");
	return SK0 + i;
}
static const int plen[256] = { ['1'] = 9, ['2'] = 14, ['3'] = 21, ['4'] = 21, ['5'] = 4, ['7'] = 24, [65] = 16, [67] = 40 };
static uint32_t be32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double bedbl(const uint8_t * p)
{
	uint64_t v = (uint64_t)be32(p) << 32 | be32(p + 4);
	double d;
	memcpy(&d, &v, 8);
	return d;
}
#define R2D 57.2957795130823208767981548141051703
static bool near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
static void message(struct Conn * c, uint8_t type, const uint8_t * p)
{
	mc_note("server gets message %c (%u)", type, type);
	switch (type) {
	case 65: {
		mc_assert(c->stage == 0, "device id is sent in the middle of a connection");
		mc_assert(be32(p) == DEVICE, "device type %u is sent", be32(p));
		char ver[60];
		snprintf(ver, sizeof ver, "%u.%u.%u", be32(p + 4), be32(p + 8), be32(p + 12));
		mc_assert(!strcmp(ver, PACKAGE_VERSION), "version %s is sent", ver);
		c->stage = 1;
		break;
	}
	case '5':
		mc_assert(c->stage == 1, "the serial number is sent at the wrong time");
		mc_assert(be32(p) == serial(), "the serial number is %u instead of %u", be32(p), serial());
		c->stage = 2;
		++logins;
		break;
	case '7':
		mc_assert(c->stage == 2, "the position is sent before the login");
		mc_assert(!DUMMY && bedbl(p + 16) >= 513.5 && bedbl(p + 16) <= 512.5 + fixed, "a position is made up");
		mc_assert(near(bedbl(p), 0.8 * R2D) && near(bedbl(p + 8), 0.14 * R2D), "position %f %f is sent", bedbl(p), bedbl(p + 8));
		mc_assert(bedbl(p + 16) - 512.5 >= c->pos, "an older position is sent");
		c->pos = bedbl(p + 16) - 512.5;
		break;
	case '6':
		mc_assert(c->stage == 2, "keep alive before the login");
		break;
	case '2': case '3':
		mc_assert(c->stage == 2, "a frame is sent before the login");
		if (DUMMY) {
			mc_assert(type == '3' && p[7] == 0x8a, "the frame is altered");
			++got;
			break;
		}
		for (int i = 0; i < 7; ++i) mc_assert(p[i] == (i == 6 ? 0x1a : i), "the frame is altered");
		if (type == '3') {
			mc_assert(p[7] == 17 << 3 && p[8] == 0x1a && p[9] > 0 && p[9] <= fed, "the frame is altered");
			mc_assert(p[9] > got_ext, "frames are repeated or reordered");
			got_ext = p[9];
		} else {
			mc_assert(p[7] == 11 << 3 && p[8] > 0 && p[8] <= fed && p[8] > got_short, "the frame is altered, repeated or reordered");
			got_short = p[8];
		}
		break;
	default:
		mc_fail("message of type %u", type);
	}
}
static void stream(struct Conn * c, uint8_t b)
{
	if (c->len == 0) { mc_assert(b == 0x1a, "byte %02x instead of a message", b); c->buf[c->len++] = b; return; }
	if (c->len >= 2) {
		if (c->esc) { mc_assert(b == 0x1a, "a message is cut off"); c->esc = false; }
		else if (b == 0x1a) { c->esc = true; return; }
	}
	c->buf[c->len++] = b;
	if (c->len >= 2 && c->len == 2 + plen[c->buf[1]]) {
		message(c, c->buf[1], c->buf + 2);
		memset(c->buf, 0, sizeof c->buf);
		c->len = 0;
	}
}
ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	mc_sched("send");
	mc_testcancel();
	if (fd == -1) { errno = EBADF; return -1; }
	event("send");
	struct Conn * c = conn(fd, "send");
	mc_assert(c->peer == P_SRV, "something is sent to a receiver");
	mc_assert(flags & MSG_NOSIGNAL, "sending may raise SIGPIPE");
	if (c->shut || c->broken || (breaks > 0 && mc_choose(2, "connection breaks"))) {
		if (!c->shut && !c->broken) --breaks;
		c->broken = true;
		errno = EPIPE;
		return -1;
	}
	for (size_t i = 0; i < n; ++i) stream(c, ((const uint8_t *)p)[i]);
	event("sent");
	return n;
}
static int curExt, curSync;      /* filter as set by the server */
static int expect[4], did[4];    /* reverse shell, restart, reboot, upgrade */
static bool p_rx(void * a)
{
	struct Conn * c = a;
	if (c->shut || c->broken) return true;
	switch (c->peer) {
	case P_IN: return readable(0);
	case P_GPS: return readable(1);
	}
	return c->stage == 2 && (cmds > 0 || breaks > 0);
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	(void)flags;
	if (fd == -1) { mc_sched("recv"); mc_testcancel(); errno = EBADF; return -1; }
	event("recv");
	struct Conn * c = conn(fd, "recv");
	mc_block(&p_rx, c, true, "recv");
	if (c->shut || c->broken) return 0;
	if (c->peer != P_SRV) {
		ssize_t r = take(c->peer == P_GPS, p, n);
		if (r < 0) { c->broken = true; return mc_choose(2, "orderly") ? -1 : 0; }
		event("received");
		return r;
	}
	if (cmds > 0 && (!breaks || mc_choose(2, "command"))) {
		--cmds;
		mc_assert(n >= 10, "no room for the command");
		int k = mc_choose(9, "which");
		switch (k) {
		case 0: case 1: case 2: case 3: {
			uint8_t m[6] = { 0, TB_PACKET_TYPE_FILTER, 0, 6, 3, k };
			curSync = k & 1;
			curExt = k >> 1;
			memcpy(p, m, 6);
			return 6;
		}
		case 4: {
			uint8_t m[10] = { 0, TB_PACKET_TYPE_REVERSE_SHELL, 0, 10, 1, 2, 3, 4, 0x12, 0x34 };
			expect[0] += UART;
			memcpy(p, m, 10);
			return 10;
		}
		case 5: case 6: case 7: {
			uint8_t m[4] = { 0, k - 4, 0, 4 };
#ifdef WITH_SYSTEMD
			expect[k - 4] += UART && k == 6;
#endif
#ifdef WITH_PACMAN
			expect[k - 4] += UART && k == 7;
#endif
			expect[k - 4] += UART && k == 5;
			memcpy(p, m, 4);
			return 4;
		}
		default: {
			uint8_t m[8] = { 0, TB_PACKET_TYPE_SERIAL_RES, 0, 8, 0, 0, 0, 9 };
			memcpy(p, m, 8);
			return 8;
		}
		}
	}
	--breaks;
	c->broken = true;
	return 0;
}
int mc_shutdown(int fd, int how) { (void)how; mc_sched("shutdown"); conn(fd, "shutdown")->shut = true; return 0; }
int mc_close(int fd)
{
	if (fd >= 0 && fd < 10) {
		mc_assert(fd_open[fd], "close of something that is not open");
		fd_open[fd] = false;
		if (fd == FD_UART || fd == FD_GPS) mc_sched("close");
		return 0;
	}
	mc_sched("close");
	conn(fd, "close")->open = false;
	return 0;
}

/* ---- commands ---- */
static int nextarg;
static char arg0[] = "openskyd-rc", aBlack[] = "--black", aSave[] = "--save", aFile[] = "/s/c.conf", aSaveEq[] = "--save=/s/c.conf",
	aHelp[] = "--help", aH[] = "-h", aBad[] = "--white", aBad2[] = "-x", aBad3[] = "-b", aBad4[] = "-s";
static bool p_never(void * a) { (void)a; return false; }
bool PROC_fork(void) { ++did[3]; return false; }
void PROC_execRaw(char * const argv[])
{
	++did[1];
	mc_assert(argv[0] && !strcmp(argv[0], arg0), "restarted as '%s'", argv[0]);
	mc_assert(black ? argv[1] && !strcmp(argv[1], "--black") && !argv[2] : !argv[1], "restarted with another board type");
	execed = true;
	mc_block(&p_never, NULL, false, "replaced");
}
void PROC_execAndFinalize(char * const argv[]) { mc_fail("'%s' is executed in the daemon", argv[0]); }
bool PROC_execAndReturn(char * const argv[]) { mc_fail("'%s' is executed in the daemon", argv[0]); }
void PROC_forkAndExec(char * const argv[])
{
	bool reboot = false, addr = false;
	for (int i = 0; argv[i]; ++i) { reboot |= !strcmp(argv[i], "reboot"); addr |= !strcmp(argv[i], "1.2.3.4:4660"); }
	mc_assert(reboot != addr, "'%s' is executed", argv[0]);
	++did[reboot ? 2 : 0];
}

/* ---- process ---- */
static bool sigint;
static bool p_sig(void * a) { (void)a; return sigint; }
static int tMain;
int mc_sigwait(const sigset_t * s, int * sig)
{
	mc_assert(sigismember(s, SIGINT), "not waiting for SIGINT");
	mc_block(&p_sig, NULL, true, "sigwait");
	*sig = SIGINT;
	return 0;
}
static void on_abort(const char * why)
{
	mc_assert(must_abort || mc_malloc_failed, "the daemon terminates: %s", why);
	mc_assert(!nothreads || mc_live_threads() == 2, "threads were started before the daemon refused to work");
	mc_assert(!nothreads || skN == 0, "a connection was opened before the daemon refused to work");
	mc_assert(!wr, "a configuration is saved that cannot be used");
	mc_outcome("refused", mc_malloc_failed);
	mc_eval(true);
	mc_end();
}
static void on_thread(const char * op, int t, int res)
{
	(void)t;
	if (!strcmp(op, "create")) {
		mc_assert(!savefile && !inert, "a thread is started although the daemon should not start");
		if (res) must_abort = true;
	}
}
extern void (*mc_on_thread)(const char * op, int t, int result);
enum { A_PLAIN, A_BLACK, A_SAVE, A_SAVEEQ, A_BLACKSAVE, A_HELP, A_H, A_BAD, A_BAD2, A_BAD3, A_BAD4, A_MISSING, A_BADAFTER, N_A };
static char * const args[N_A][5] = {
	[A_PLAIN] = { arg0 }, [A_BLACK] = { arg0, aBlack }, [A_SAVE] = { arg0, aSave, aFile }, [A_SAVEEQ] = { arg0, aSaveEq },
	[A_BLACKSAVE] = { arg0, aBlack, aSave, aFile }, [A_HELP] = { arg0, aHelp }, [A_H] = { arg0, aH }, [A_BAD] = { arg0, aBad },
	[A_BAD2] = { arg0, aBad2 }, [A_BAD3] = { arg0, aBad3 }, [A_BAD4] = { arg0, aBad4, aFile }, [A_MISSING] = { arg0, aSave }, [A_BADAFTER] = { arg0, aSave, aFile, aBad },
};
static void process(void * a)
{
	int n = 0, k = (intptr_t)a;
	char * argv[6] = { NULL };
	while (args[k][n]) { argv[n] = args[k][n]; ++n; }
	optind = 0;
	opterr = 0;
	result = mc_main(n, argv);
	finished = true;
}
static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i)))
			return false;
	return true;
}
static bool stopped(void) { return stopAt && events >= stopAt && !released; }
static bool p_now(void * a) { (void)a; return finished || execed || stopped() || p_quiet(NULL); }
static bool p_done(void * a) { (void)a; return mc_thread_done(tMain); }
static bool early;
static int open_socks(void) { if (early) fd_open[FD_UART] = fd_open[FD_GPS] = false; /* the process ends while it configures a device */ int n = 0; for (int i = 0; i < skN; ++i) n += sk[i].open; for (int i = 0; i < 10; ++i) n += fd_open[i]; return n; }
static struct Conn * up(enum Peer peer)
{
	for (int i = 0; i < skN; ++i)
		if (sk[i].open && !sk[i].broken && !sk[i].shut && sk[i].peer == peer) return &sk[i];
	return NULL;
}
static bool in_up(void) { return DUMMY || (UART ? fd_open[FD_UART] && !in.broken && in.ac : up(P_IN) != NULL); }
static bool gps_up(void) { return DUMMY || (UART ? fd_open[FD_GPS] && !gps.broken : up(P_GPS) != NULL); }
static bool asleep[MC_MAX_THREADS];
static bool p_awake(void * t) { return !asleep[(intptr_t)t]; }
static void on_sleep(uint64_t us)
{
	if (us < 1000000 && mc_self() == tMain) return; /* hardware delays */
	mc_assert(us >= 1000000 || DUMMY, "waiting only %lu us", (unsigned long)us);
	asleep[mc_self()] = us < 500000000; /* statistics */
	if (!asleep[mc_self()]) asleep[0] = true;
	mc_block(&p_awake, (void *)(intptr_t)(asleep[mc_self()] ? mc_self() : 0), true, "sleep");
}
static bool mainwaits(void) { return mc_thread_wait(tMain) && !strcmp(mc_thread_wait(tMain), "sigwait"); }
static bool established(void)
{
	struct Conn * c = up(P_SRV);
	return mainwaits() && in_up() && gps_up() && c && c->stage == 2 && (c->pos || !fixed) && fixed >= fixes && !cmds;
}
static void await(void)
{
	for (int i = 0; i < 6 && !stopped() && !execed && !established(); ++i) {
		for (int t = 1; t < MC_MAX_THREADS; ++t) asleep[t] = false;
		mc_block(&p_quiet, NULL, false, "until quiet");
		struct Conn * c = up(P_SRV);
		if (in_up() && !DUMMY && c && c->stage < 2) ++frames; /* the loss of a connection is noticed with the next message */
		mc_block(&p_quiet, NULL, false, "until quiet");
	}
}
static void checked(void)
{
	struct Conn * c = up(P_SRV);
	mc_assert(mainwaits(), "the daemon does not wait for SIGINT");
	mc_assert(c, "not connected to the network");
	mc_assert(in_up(), "not connected to the receiver");
	mc_assert(gps_up(), "not connected to the GPS receiver");
	mc_assert(c->stage == 2, "not logged in");
	mc_assert(!c->pos == !fixed, "the position is not sent");
	if (UART) {
		mc_assert(pulses > 0, "the watchdog is not served");
		mc_assert(!fpga_on() || programmed, "the FPGA is not programmed");
		mc_assert(!fpga_on() || !wrongboard, "the FPGA is programmed as for the other board");
		mc_assert(in.fmt == 'C' && in.ts == 'G' && in.hs == 'H' && in.ac == 'j', "the receiver has the wrong mode (%c%c%c%c)", in.fmt, in.ts, in.hs, in.ac);
		mc_assert(in.df == (curExt ? 'D' : 'd'), "the receiver has the wrong filter");
		mc_assert(in.crc == (on(CRC) ? 'f' : 'F'), "the receiver checks CRC or not");
		mc_assert(in.fec == (on(FEC) ? 'i' : 'I'), "the receiver corrects errors or not");
	}
	mc_assert(!cmds, "commands of the server are not received");
	for (int i = 0; i < 4; ++i) mc_assert(did[i] == expect[i], "remote command %d is executed %d times instead of %d", i, did[i], expect[i]);
}
/** one run of the daemon; returns which arguments the next one gets */
static int live(int arg, long nstop)
{
	events = 0;
	black = arg == A_BLACK || arg == A_BLACKSAVE;
	bool usage = (arg >= A_HELP && arg <= A_BADAFTER) || (black && !UART);
	bool save = !usage && (arg == A_SAVE || arg == A_SAVEEQ || arg == A_BLACKSAVE);
	inert = usage;
	savefile = save ? aFile : NULL;
	wr = 0;
	wfailed = false;
	stopAt = nstop ? mc_choose(nstop, "stop at") : 0;
	released = sigint = finished = execed = false;
	nothreads = !acceptable() || (!save && !has_serial());
	must_abort = nothreads || (fpga_on() && (rbf_missing || chip_dead));
	fed = got_ext = got_short = got = 0;
	frames = mc_param("frames", 1);
	fixes = 0;
	curExt = on(EXTSQ);
	curSync = on(SYNC);
	tMain = mc_thread(&process, (void *)(intptr_t)arg, "main");
	mc_block(&p_now, NULL, false, "until stop");
	int next = arg;
	if (usage || save) {
		mc_assert(finished, "the daemon does not end");
		mc_assert(mc_live_threads() == 1 && !skN && !gpio_ready && !open_socks(), "something has been started");
		mc_assert(!mc_heap_blocks(), "memory is leaked: %u blocks", mc_heap_blocks());
		if (usage) {
			mc_assert(result != 0 || arg == A_HELP || arg == A_H, "exit code %d for wrong arguments", result);
			mc_outcome("usage", arg);
		} else {
			mc_assert(wr != 1, "the file is left open");
			mc_assert((result == 0) == (wr == 2 && !wfailed), "exit code %d although saving %s", result, wfailed ? "failed" : "succeeded");
			mc_assert(!must_abort || rbf_missing || chip_dead || !has_serial(), "an unusable configuration is accepted");
			mc_outcome("saved", wfailed);
			if (!wfailed) {
				memcpy(conf, saved, savedlen);
				conflen = savedlen;
				conf_there = true;
				next = black ? A_BLACK : A_PLAIN;
			}
		}
		mc_eval(true);
		goto end;
	}
	mc_assert(!finished, "the daemon ends with %d", result);
	if (!stopped() && !execed) {
		/* it works now */
		mc_assert(!must_abort, "the daemon runs although it should have refused to");
		await();
	}
	if (!stopped() && !execed) {
		checked();
		/* frames get through */
		breaks = inBreaks = gpsBreaks = 0;
		cfails = 0;
		int f0 = fed + frames, g0 = got;
		await();
		if (DUMMY) {
			for (int i = 0; i < 3; ++i) {
				for (int t = 1; t < MC_MAX_THREADS; ++t) asleep[t] = false;
				mc_block(&p_quiet, NULL, false, "until quiet");
			}
			mc_assert(got > g0 || stopped(), "no frame arrives");
		} else {
			++frames;
			mc_block(&p_quiet, NULL, false, "until quiet");
			bool pass = !curSync || synced;
			if (!stopped()) {
				mc_assert(frames == 0 && fed == f0 + 1, "frames are not read from the receiver");
				mc_assert((got_ext == fed) == pass, "extended squitter %d of %d arrived", got_ext, fed);
				mc_assert((got_short == fed) == (pass && !curExt), "frame %d of %d arrived", got_short, fed);
			}
		}
		if (!stopped()) checked();
		int p0 = pulses;
		for (int t = 1; t < MC_MAX_THREADS; ++t) asleep[t] = false;
		mc_block(&p_quiet, NULL, false, "until quiet");
		mc_assert(!UART || pulses > p0, "the watchdog is not served any longer");
		if (stopped()) ;
		else if (on(STATS)) {
			unsigned n = printed;
			asleep[0] = false;
			mc_block(&p_quiet, NULL, false, "until quiet");
			mc_assert(printed > n || stopped(), "no statistics are printed");
		} else
			mc_assert(!printed, "statistics are printed although they are disabled");
		mc_outcome("run", logins);
		mc_eval(true);
	}
	if (execed) {
		for (int i = 0; i < 4; ++i) mc_assert(did[i] <= expect[i], "remote command %d is executed without being asked to", i);
		mc_outcome("restarted", black);
		cmds = 0;
	} else if (mainwaits() || (stopped() && mc_param("early", 0))) {
		early = stopped();
		sigint = true;
		released = true;
		mc_timeouts_on = true; /* a component which waits for another one is joined later */
		mc_block(&p_done, NULL, false, "exit");
		mc_timeouts_on = false;
		mc_assert(finished && result == 0, "exit code %d", result);
		mc_assert(!open_socks(), "%d sockets or devices stay open", open_socks());
		mc_assert(mc_live_threads() == 1, "%d threads are left", mc_live_threads() - 1);
		mc_assert(!mc_heap_blocks(), "memory is leaked: %u blocks", mc_heap_blocks());
		mc_outcome("SIGINT", stopAt);
	} else
		mc_outcome("killed", stopAt);
end:
	mc_process_end();
	memset(sk, 0, sizeof sk);
	memset(&in, 0, sizeof in);
	memset(&gps, 0, sizeof gps);
	memset(fd_open, 0, sizeof fd_open);
	memset(asleep, 0, sizeof asleep);
	memset(expect, 0, sizeof expect);
	memset(did, 0, sizeof did);
	map_ptr = NULL;
	printed = skN = fixed = pulses = wd = bits = clk = 0;
	gpio_ready = programmed = reset = wrongboard = synced = false;
	return next;
}
void mc_harness(void)
{
	breaks = mc_param("breaks", 0); cfails = mc_param("cfails", 0); inBreaks = mc_param("ibreaks", 0); gpsBreaks = mc_param("gbreaks", 0);
	wfails = mc_param("wfails", 0); cmds = mc_param("cmds", 0);
	mc_fixed_schedule = mc_param("fixed", 1);
	mc_preempt_budget = mc_param("preempt", 0);
	mc_on_abort = &on_abort;
	mc_on_thread = &on_thread;
	mc_on_sleep = &on_sleep;
	mc_timeouts_on = false;
	mlat = mc_param("unsync", 0) ? !mc_choose(2, "unsynchronized") : true;
	if (mc_param("hw", 0)) {
		int k = mc_choose(4, "MAC address");
		mac_ioctl = k & 1;
		mac_sysfs = k & 2;
		rbf_missing = mc_choose(2, "bitstream is missing");
		chip_dead = mc_choose(2, "FPGA does not answer");
	} else
		mac_ioctl = true;
	configure(mc_param("vary", 0));
	mc_malloc_budget = mc_param("nomem", 0);
	mc_thread_budget = mc_param("nothreads", 0);
	long runs = mc_param("runs", 1), stop = mc_param("stop", 0);
	int arg = mc_param("args", 0) == 1 ? mc_choose(N_A, "arguments") : mc_param("args", 0) == 2 ? A_SAVE + mc_choose(3, "save") : mc_param("args", 0) == 3 ? mc_choose(2, "black") : A_PLAIN;
	if (!UART && arg == A_BLACKSAVE) mc_prune();
	for (run = 0; run < runs; ++run)
		arg = live(arg, run + 1 < runs || runs == 1 ? stop : 0);
}
