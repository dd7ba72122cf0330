/* M01: the feeder daemon from its main() on: configuration files, identity,
 * connections, shutdown, restart and crash */
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <dirent.h>
#include <signal.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include "util/net_common.h"
#include "core/tb.h"
#include "fmt.h"

int mc_main(int argc, char ** argv);
enum { DEV_FEEDER = 5, DEV_DONATED = 6, DEV_KIT = 7, DEV_HPTOA = 8 };
#if defined(DUMP1090_DONATED)
#define DEVICE DEV_DONATED
#elif defined(DUMP1090_KIT)
#define DEVICE DEV_KIT
#else
#define DEVICE 0 /* configured */
#endif

/* ---- events: the process may be killed or stopped at each of them ---- */
static int events, stopAt;
static bool released, killed, must_abort, nothreads, finished, dying;
static int result, run;
static bool p_released(void * a) { (void)a; return released; }
static void event(const char * what)
{
	if (!stopAt || events >= stopAt) return;
	if (++events == stopAt) {
		mc_note("stopped at %s", what);
		mc_block(&p_released, NULL, false, "parked");
	}
}

/* ---- files ---- */
enum { F_SERIAL, F_VAR, F_ETC, F_BAD, N_F };
static const char * fname[N_F] = { "/v/conf.d/05-serial.conf", "/v/conf.d/10-user.conf", "/e/conf.d/10-system.conf", "" };
static bool bad_unreadable;
static struct { char data[700]; unsigned len; bool there; } file[N_F];
static int rd = -1, wr = -1;            /* file being read, written */
static char wbuf[300];
static unsigned wlen, writes, files_read, dirs_read;
static int noMem;
static void * map_ptr;
static int wfails;
static char the_file;
static enum { D_OK, D_MISSING, D_DENIED, D_FILE, D_OTHER } vdir, cdir, edir;
static bool mkfails;

static int lookup(const char * path)
{
	for (int i = 0; i < N_F; ++i)
		if (!strcmp(path, fname[i])) return i;
	return -1;
}
static bool in_etc(int f) { return fname[f][1] == 'e'; }
static bool accessible(int f) { return in_etc(f) ? edir == D_OK : vdir == D_OK && cdir == D_OK; }
int mc_open(const char * path, int flags, ...)
{
	int f = lookup(path);
	mc_assert(f >= 0, "'%s' is opened", path);
	mc_assert((flags & O_ACCMODE) == O_RDONLY && rd == -1, "file opened for writing or twice");
	if (!file[f].there || !accessible(f)) { errno = ENOENT; return -1; }
	if (f == F_BAD && bad_unreadable) { errno = EACCES; return -1; }
	rd = f;
	++files_read;
	return 5;
}
int mc_fstat(int fd, struct stat * st)
{
	mc_assert(fd == 5 && rd >= 0, "fstat on a file that is not open");
	memset(st, 0, sizeof *st);
	st->st_mode = S_IFREG | 0644;
	st->st_size = file[rd].len;
	return 0;
}
void * mc_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	(void)a; (void)prot; (void)flags; (void)off;
	mc_assert(fd == 5 && rd >= 0 && !map_ptr, "mmap of a file that is not open");
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	mc_assert(len == file[rd].len, "not the whole file is mapped");
	map_ptr = mc_malloc(len);
	memcpy(map_ptr, file[rd].data, len);
	return map_ptr;
}
int mc_munmap(void * p, size_t len)
{
	(void)len;
	mc_assert(p && p == map_ptr, "munmap of something that is not mapped");
	mc_free(p);
	map_ptr = NULL;
	return 0;
}
int mc_scandir(const char * p, struct dirent *** list, int (*filter)(const struct dirent *),
	int (*cmp)(const struct dirent **, const struct dirent **))
{
	bool var = !strcmp(p, "/v/conf.d");
	mc_assert(var || !strcmp(p, "/e/conf.d"), "directory '%s' is read", p);
	++dirs_read;
	if (mc_malloc_budget) noMem = mc_malloc_budget;
	mc_malloc_budget = 0; /* what happens if the files cannot be read is another question */
	if (var ? cdir != D_OK || vdir != D_OK : edir != D_OK) { errno = ENOENT; return -1; }
	struct dirent ** l = mc_malloc((N_F + 1) * sizeof *l);
	int n = 0;
	for (int i = 0; i < N_F; ++i) {
		if (!file[i].there || in_etc(i) == var) continue;
		struct dirent d;
		memset(&d, 0, sizeof d);
		d.d_type = DT_REG;
		strcpy(d.d_name, strrchr(fname[i], '/') + 1);
		if (filter && !filter(&d)) continue;
		size_t sz = offsetof(struct dirent, d_name) + strlen(d.d_name) + 1;
		struct dirent * c = mc_malloc(sz);
		memcpy(c, &d, sz);
		l[n++] = c;
	}
	for (int i = 1; i < n && cmp; ++i)
		for (int j = i; j > 0 && cmp((const struct dirent **)&l[j - 1], (const struct dirent **)&l[j]) > 0; --j) {
			struct dirent * t = l[j - 1]; l[j - 1] = l[j]; l[j] = t;
		}
	*list = l;
	return n;
}
int mc_stat(const char * path, struct stat * st)
{
	bool v = !strcmp(path, "/v");
	mc_assert(v || !strcmp(path, "/v/conf.d"), "'%s' is examined", path);
	memset(st, 0, sizeof *st);
	switch (v ? vdir : vdir == D_OK ? cdir : D_MISSING) {
	case D_OK: st->st_mode = S_IFDIR | 0755; return 0;
	case D_FILE: st->st_mode = S_IFREG | 0755; return 0;
	case D_OTHER: st->st_mode = S_IFIFO | 0755; return 0;
	case D_MISSING: errno = ENOENT; return -1;
	case D_DENIED: errno = EACCES; return -1;
	}
	return -1;
}
int mc_mkdir(const char * path, mode_t mode)
{
	bool v = !strcmp(path, "/v");
	mc_assert(v || !strcmp(path, "/v/conf.d"), "'%s' is created", path);
	mc_assert((mode & 0700) == 0700 && !(mode & 0022), "directory is created with mode %o", mode);
	mc_assert((v ? vdir : cdir) == D_MISSING, "directory is created although it exists");
	if (mkfails) { errno = EROFS; return -1; }
	*(v ? &vdir : &cdir) = D_OK;
	return 0;
}
FILE * mc_fopen(const char * path, const char * mode)
{
	event("fopen");
	mc_assert(!strcmp(path, fname[F_SERIAL]), "'%s' is opened for writing", path);
	mc_assert(mode[0] == 'w', "mode '%s'", mode);
	mc_assert(wr == -1, "the file is opened twice");
	if (wfails > 0 && mc_choose(2, "cannot be created")) { --wfails; must_abort = true; errno = EROFS; return NULL; }
	wr = F_SERIAL;
	wlen = 0;
	file[wr].there = true;
	file[wr].len = 0;
	event("fopen done");
	return (FILE *)&the_file;
}
static unsigned printed;
static int put(FILE * f, const char * s, unsigned n)
{
	if (f == stdout || f == stderr) { printed += f == stdout; return n; }
	mc_assert((void *)f == &the_file && wr >= 0, "output to a file that is not open");
	mc_assert(wlen + n < sizeof wbuf, "too much output");
	memcpy(wbuf + wlen, s, n);
	wlen += n;
	event("write");
	return n;
}
int mc_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	char buf[200];
	memset(buf, 0, sizeof buf);
	fmt_check(fmt, ap);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	return put(f, buf, n);
}
int mc_fprintf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = mc_vfprintf(f, fmt, ap); va_end(ap); return r; }
int mc_vprintf(const char * fmt, va_list ap) { return mc_vfprintf(stdout, fmt, ap); }
int mc_printf(const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = mc_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int mc_puts(const char * s) { (void)s; ++printed; return 1; }
int mc_putchar(int c) { ++printed; return c; }
int mc_fputs(const char * s, FILE * f) { return put(f, s, strlen(s)); }
int mc_fputc(int c, FILE * f) { char b = c; return put(f, &b, 1); }
int mc_putc(int c, FILE * f) { return mc_fputc(c, f); }
size_t mc_fwrite(const void * p, size_t s, size_t n, FILE * f) { put(f, p, s * n); return n; }
static void flushed(void)
{
	memcpy(file[wr].data, wbuf, wlen);
	file[wr].len = wlen;
}
int mc_fflush(FILE * f) { if (f == stdout || f == stderr) return 0; mc_assert(wr >= 0, "flushing a file that is not open"); flushed(); event("flush"); return 0; }
int mc_fsync(int fd) { (void)fd; return 0; }
int mc_ferror(FILE * f) { (void)f; return 0; }
int mc_fclose(FILE * f)
{
	mc_assert((void *)f == &the_file && wr >= 0, "close of a file that is not open");
	event("fclose");
	if (wfails > 0 && mc_choose(2, "disk is full")) { --wfails; must_abort = true; wr = -1; errno = ENOSPC; return EOF; }
	flushed();
	memset(wbuf, 0, sizeof wbuf);
	wr = -1;
	++writes;
	event("fclose done");
	return 0;
}

/* ---- configuration ---- */
enum { LAT, LON, ALT, USER, TYPE, SERIAL, IHOST, IPORT, SHOST, SPORT, EXTSQ, SYNC, N_O };
static const struct { const char * sect, * name; const char * vals[6]; int base; int basewhere; } O[N_O] = {
	{ "GPS", "Latitude", { "48.5", "-90", "90", "90.01", "-91", "nan" }, 0, 2 },
	{ "GPS", "Longitude", { "8.25", "180", "-180", "180.5", "-181", "-nan" }, 0, 2 },
	{ "GPS", "Altitude", { "300.25", "-12", "inf", "nan" }, 0, 2 },
	{ "IDENT", "Username", { "joe", "user-of-39-characters-0123456789-abcdef", "user-of-40-characters-0123456789-abcdefg", "" }, 0, 2 },
	{ "Device", "Type", { "hptoa", "OpenSky", "radarcape", "hptoax", "HPTOA" }, -1, 0 },
	{ "Device", "Serial", { "4711", "4294967295", "0" }, 0, 1 },
	{ "INPUT", "Host", { "10.1.2.3", "sdr.example.org" }, -1, 0 },
	{ "INPUT", "Port", { "30105", "0", "65535" }, -1, 0 },
	{ "NETWORK", "Host", { "srv.example.org" }, -1, 0 },
	{ "NETWORK", "Port", { "4242", "0" }, -1, 0 },
	{ "FILTER", "ModeSExtSquitterOnly", { "false", "true" }, -1, 0 },
	{ "FILTER", "SyncFilter", { "true", "false" }, -1, 0 },
};
static const char * eff[N_O];     /* effective values, NULL: not configured */
static int nvals(int o) { int n = 0; while (n < 6 && O[o].vals[n]) ++n; return n; }
static void addopt(int f, int o, const char * val)
{
	int n = snprintf(file[f].data + file[f].len, sizeof file[f].data - file[f].len, "[%s]\n%s = %s\n", O[o].sect, O[o].name, val);
	file[f].len += n;
	mc_assert(file[f].len < sizeof file[f].data, "harness: file too long");
	file[f].there = true;
}
static void configure(long vary)
{
	bool noetc = edir != D_OK, novar = vdir != D_OK || cdir != D_OK;
	for (int o = 0; o < N_O; ++o) {
		int where = O[o].basewhere, v = O[o].base;
		if (vary >> o & 1) {
			where = mc_choose(4, "where configured");
			if (where) v = mc_choose(nvals(o), "value");
		}
		if (v < 0 || (o == SERIAL && mc_param("noserial", 0))) where = 0;
		eff[o] = NULL;
		int n = nvals(o);
		/* if it is in both, the system's value counts */
		if (where & 1) {
			if (!novar) { addopt(o == SERIAL ? F_SERIAL : F_VAR, o, where == 3 ? O[o].vals[(v + 1) % n] : O[o].vals[v]); eff[o] = where == 3 ? O[o].vals[(v + 1) % n] : O[o].vals[v]; }
		}
		if (where & 2) {
			if (!noetc) { addopt(F_ETC, o, O[o].vals[v]); eff[o] = O[o].vals[v]; }
		}
	}
	if (!noetc) {
		int n = snprintf(file[F_ETC].data + file[F_ETC].len, 200, "[BUFFER]\nStaticBacklog=4\n[STATISTICS]\nEnabled=%s\n", mc_param("stats", 0) ? "true" : "false");
		file[F_ETC].len += n;
		file[F_ETC].there = true;
	}
}
static bool acceptable(void)
{
	for (int o = LAT; o <= ALT; ++o)
		if (!eff[o]) return false;
	double lat = strtod(eff[LAT], NULL), lon = strtod(eff[LON], NULL);
	if (!(lat >= -90 && lat <= 90 && lon >= -180 && lon <= 180)) return false;
	double alt = strtod(eff[ALT], NULL);
	if (alt - alt != 0) return false; /* infinite or not a number */
	if ((eff[IPORT] && !atoi(eff[IPORT])) || (eff[SPORT] && !atoi(eff[SPORT]))) return false;
	return true;
}

/* ---- network ---- */
enum { SK_MAX = 8, SK0 = 100 };
struct Conn {
	bool open, shut, broken, input;
	uint8_t buf[64]; uint8_t len; uint8_t stage; bool esc, pos, user, used, asked;
	uint8_t answers, given, keep;
};
static struct Conn sk[SK_MAX];
static int cmds, wanted, shells;
static int skN, breaks, cfails, inBreaks;
static uint32_t serial, assigned;
static bool has_serial, used;     /* the number of the last login */
static uint32_t usedSerial;
static int frames, fed, got_ext, got_short, logins;
static int sentFrames;
static struct Conn * conn(int fd, const char * what)
{
	mc_assert(fd >= SK0 && fd < SK0 + skN && sk[fd - SK0].open, "%s: %d is no open socket", what, fd);
	return &sk[fd - SK0];
}
sock_t NETC_connect(const char * prefix, const char * host, uint16_t port)
{
	(void)prefix;
	mc_sched("connect");
	mc_testcancel();
	event("connect");
	const char * sh = eff[SHOST] ? eff[SHOST] : "collector.opensky-network.org", * ih = eff[IHOST] ? eff[IHOST] : "localhost";
	int sp = eff[SPORT] ? atoi(eff[SPORT]) : 10004, ip = eff[IPORT] ? atoi(eff[IPORT]) : 30005;
	bool in = !strcmp(host, ih) && port == ip;
	mc_assert(in || (!strcmp(host, sh) && port == sp), "connects to %s:%u instead of %s:%d or %s:%d", host, port, sh, sp, ih, ip);
	for (int i = 0; i < skN; ++i)
		mc_assert(!sk[i].open || sk[i].input != in || sk[i].broken || sk[i].shut, "there is already a connection to %s", host);
	if (cfails > 0 && mc_choose(2, "connecting fails")) { --cfails; return -1; }
	mc_assert(skN < SK_MAX, "harness: too many connections");
	int i = skN++;
	memset(&sk[i], 0, sizeof sk[0]);
	sk[i].open = true;
	sk[i].input = in;
	event("connected");
	return SK0 + i;
}
static const int plen[256] = { ['1'] = 9, ['2'] = 14, ['3'] = 21, ['4'] = 21, ['5'] = 4, ['7'] = 24, [65] = 16, [67] = 40 };
static uint32_t be32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double bedbl(const uint8_t * p)
{
	uint64_t v = (uint64_t)be32(p) << 32 | be32(p + 4);
	double d;
	memcpy(&d, &v, 8);
	return d;
}
static void message(struct Conn * c, uint8_t type, const uint8_t * p)
{
	mc_note("server gets message %c (%u)", type, type);
	switch (type) {
	case 65: {
		mc_assert(c->stage == 0, "device id is sent in the middle of a connection");
		unsigned dev = DEVICE ? DEVICE : eff[TYPE] && (!strcasecmp(eff[TYPE], "hptoa") || !strcasecmp(eff[TYPE], "opensky")) ? DEV_HPTOA : DEV_FEEDER;
		mc_assert(be32(p) == dev, "device type %u is sent instead of %u", be32(p), dev);
		char ver[60];
		snprintf(ver, sizeof ver, "%u.%u.%u", be32(p + 4), be32(p + 8), be32(p + 12));
		mc_assert(!strcmp(ver, PACKAGE_VERSION), "version %s is sent", ver);
		c->stage = 1;
		break;
	}
	case 66:
		mc_assert(c->stage == 1, "a serial number is requested at the wrong time");
		mc_assert(!has_serial, "a serial number is requested although there is one");
		mc_assert(!c->asked, "a serial number is requested twice");
		c->asked = true;
		++c->answers;
		break;
	case '5':
		mc_assert(c->stage == 1, "the serial number is sent at the wrong time");
		mc_assert(!must_abort, "a serial number is used that cannot be stored");
		mc_assert(has_serial || assigned, "a serial number is made up");
		mc_assert(be32(p) == (has_serial ? serial : assigned), "the serial number is %u instead of %u", be32(p), has_serial ? serial : assigned);
		mc_assert(!used || usedSerial == be32(p), "the serial number changes from %u to %u", usedSerial, be32(p));
		used = true;
		usedSerial = be32(p);
		serial = usedSerial;
		has_serial = true;
		c->stage = 2;
		if (eff[USER] && *eff[USER]) break;
		c->stage = 3;
		c->user = true;
		++logins;
		break;
	case '7':
		mc_assert(c->stage >= 2, "the position is sent before the login");
		mc_assert(bedbl(p) == strtod(eff[LAT], NULL) && bedbl(p + 8) == strtod(eff[LON], NULL) && bedbl(p + 16) == strtod(eff[ALT], NULL),
			"position %f %f %f is sent", bedbl(p), bedbl(p + 8), bedbl(p + 16));
		c->pos = true;
		break;
	case 67: {
		mc_assert(c->stage == 2, "the user name is sent at the wrong time");
		mc_assert(eff[USER] && *eff[USER] && !c->user, "a user name is sent although there is none, or twice");
		char name[41] = { 0 };
		strncpy(name, eff[USER], 40);
		mc_assert(!memcmp(name, p, 40), "user name '%.40s' is sent instead of '%s'", p, name);
		c->user = true;
		c->stage = 3;
		++logins;
		break;
	}
	case '6':
		mc_assert(c->stage == 3, "keep alive before the login");
		++c->keep;
		break;
	case '2': case '3':
		mc_assert(c->stage == 3, "a frame is sent before the login");
		for (int i = 0; i < 7; ++i) mc_assert(p[i] == (i == 6 ? 0x1a : i), "the frame is altered");
		if (type == '3') {
			mc_assert(p[7] == 17 << 3 && p[8] == 0x1a && p[9] > 0 && p[9] <= fed, "the frame is altered");
			mc_assert(p[9] > got_ext, "frames are repeated or reordered");
			got_ext = p[9];
		} else {
			mc_assert(p[7] == 11 << 3 && p[8] > 0 && p[8] <= fed && p[8] > got_short, "the frame is altered, repeated or reordered");
			got_short = p[8];
		}
		++sentFrames;
		break;
	default:
		mc_fail("message of type %u", type);
	}
}
static void stream(struct Conn * c, uint8_t b)
{
	if (c->len == 0) { mc_assert(b == 0x1a, "byte %02x instead of a message", b); c->buf[c->len++] = b; return; }
	if (c->len >= 2) {
		if (c->esc) { mc_assert(b == 0x1a, "a message is cut off"); c->esc = false; }
		else if (b == 0x1a) { c->esc = true; return; }
	}
	c->buf[c->len++] = b;
	if (c->len >= 2 && c->len == 2 + plen[c->buf[1]]) {
		message(c, c->buf[1], c->buf + 2);
		memset(c->buf, 0, sizeof c->buf);
		c->len = 0;
	}
}
ssize_t mc_send(int fd, const void * p, size_t n, int flags)
{
	mc_sched("send");
	mc_testcancel();
	if (fd == -1) { errno = EBADF; return -1; }
	event("send");
	struct Conn * c = conn(fd, "send");
	mc_assert(!c->input, "something is sent to the receiver");
	mc_assert(flags & MSG_NOSIGNAL, "sending may raise SIGPIPE");
	if (c->shut || c->broken || (breaks > 0 && mc_choose(2, "connection breaks"))) {
		if (!c->shut && !c->broken) --breaks;
		c->broken = true;
		errno = EPIPE;
		return -1;
	}
	for (size_t i = 0; i < n; ++i) stream(c, ((const uint8_t *)p)[i]);
	event("sent");
	return n;
}
static uint8_t inbuf[60];
static unsigned inlen, inpos;
static void feed(uint8_t b, bool esc) { inbuf[inlen++] = b; if (esc && b == 0x1a) inbuf[inlen++] = b; }
static bool p_rx(void * a)
{
	struct Conn * c = a;
	if (c->shut || c->broken) return true;
	if (c->input) return inBreaks > 0 || frames > 0 || inpos < inlen;
	return c->answers > c->given || ((breaks > 0 || cmds > 0) && c->stage == 3);
}
ssize_t mc_recv(int fd, void * p, size_t n, int flags)
{
	(void)flags;
	if (fd == -1) { mc_sched("recv"); mc_testcancel(); errno = EBADF; return -1; }
	event("recv");
	struct Conn * c = conn(fd, "recv");
	mc_block(&p_rx, c, true, "recv");
	if (c->shut || c->broken) return 0;
	if (c->input) {
		if (inBreaks > 0 && inpos == inlen && (!frames || mc_choose(2, "receiver fails"))) { --inBreaks; c->broken = true; return 0; }
		if (inpos == inlen) {
			inlen = inpos = 0;
			--frames;
			++fed;
			for (int k = 0; k < 2; ++k) {
				feed(0x1a, false);
				feed(k ? '3' : '2', false);
				for (int i = 0; i < 6; ++i) feed(i, true);
				feed(0x1a, true);
				feed(k ? 17 << 3 : 11 << 3, true);
				if (k) feed(0x1a, true);
				feed(fed, true);
				for (int i = 0; i < (k ? 11 : 5); ++i) feed(0, true);
			}
		}
		unsigned m = inlen - inpos < n ? inlen - inpos : n;
		memcpy(p, inbuf + inpos, m);
		inpos += m;
		if (inpos == inlen) { memset(inbuf, 0, sizeof inbuf); inpos = inlen = 0; }
		event("received");
		return m;
	}
	if (c->answers > c->given) {
		++c->given;
		if (!has_serial) assigned = assigned ? assigned + 1 : 0x1a2b1a;
		mc_assert(n >= 8, "no room for the answer");
		uint8_t m[8] = { 0, TB_PACKET_TYPE_SERIAL_RES, 0, 8, assigned >> 24, assigned >> 16, assigned >> 8, assigned };
		memcpy(p, m, 8);
		event("answered");
		return 8;
	}
	if (cmds > 0 && (!breaks || mc_choose(2, "command"))) {
		--cmds;
		mc_assert(n >= 10, "no room for the command");
		int k = mc_choose(3, "which");
		if (k == 2) {
			memcpy(p, (uint8_t[6]){ 0, TB_PACKET_TYPE_FILTER, 0, 6, 3, 2 }, 6); /* frames need not be synchronized, extended squitter only */
			eff[SYNC] = "false";
			eff[EXTSQ] = "true";
			return 6;
		}
		if (k) {
			memcpy(p, (uint8_t[4]){ 0, TB_PACKET_TYPE_RESTART, 0, 4 }, 4);
			return 4;
		}
#ifdef DUMP1090_DONATED
		++wanted;
#endif
		memcpy(p, (uint8_t[10]){ 0, TB_PACKET_TYPE_REVERSE_SHELL, 0, 10, 1, 2, 3, 4, 0x12, 0x34 }, 10);
		return 10;
	}
	--breaks;
	c->broken = true;
	return 0;
}
bool PROC_fork(void) { mc_fail("the daemon forks"); }
void PROC_execRaw(char * const argv[]) { mc_fail("'%s' is executed", argv[0]); }
void PROC_execAndFinalize(char * const argv[]) { mc_fail("'%s' is executed", argv[0]); }
bool PROC_execAndReturn(char * const argv[]) { mc_fail("'%s' is executed", argv[0]); }
void PROC_forkAndExec(char * const argv[])
{
	bool addr = false;
	for (int i = 0; argv[i]; ++i) addr |= !strcmp(argv[i], "1.2.3.4:4660");
	mc_assert(addr, "'%s' is executed", argv[0]);
	++shells;
}
int mc_shutdown(int fd, int how) { (void)how; mc_sched("shutdown"); conn(fd, "shutdown")->shut = true; return 0; }
int mc_close(int fd)
{
	if (fd == 5) { mc_assert(rd >= 0, "close of a file that is not open"); if (rd == F_ETC) mc_malloc_budget = noMem; rd = -1; return 0; }
	mc_sched("close");
	conn(fd, "close")->open = false;
	return 0;
}
int mc_gettimeofday(struct timeval * tv, void * tz) { (void)tz; tv->tv_sec = mc_time_s; tv->tv_usec = 0; return 0; }

void mc_setlinebuf(FILE * f) { (void)f; }
void mc_srand(unsigned x) { (void)x; }
static bool asleep[MC_MAX_THREADS];
/* ---- process ---- */
static bool sigint;
static bool p_sig(void * a) { (void)a; return sigint; }
static int tMain;
int mc_sigwait(const sigset_t * s, int * sig)
{
	mc_assert(sigismember(s, SIGINT), "not waiting for SIGINT");
	mc_block(&p_sig, NULL, true, "sigwait");
	*sig = SIGINT;
	return 0;
}
static bool reason;
static void on_abort(const char * why)
{
	mc_assert(must_abort || mc_malloc_failed, "the daemon terminates: %s", why);
	mc_assert(!nothreads || mc_live_threads() == 2, "threads were started before the daemon refused to work");
	mc_assert(!nothreads || skN == 0, "a connection was opened before the daemon refused to work");
	mc_outcome("refused", mc_malloc_failed);
	mc_eval(true);
	dying = true;
	mc_end();
}
static void on_thread(const char * op, int t, int res)
{
	if (!strcmp(op, "create") && res) must_abort = true;
}
extern void (*mc_on_thread)(const char * op, int t, int result);
static void process(void * a)
{
	(void)a;
	static char arg0[] = "openskyd-dump1090";
	char * argv[] = { arg0, NULL };
	result = mc_main(1, argv);
	finished = true;
}
static bool p_quiet(void * a)
{
	(void)a;
	for (int i = 1; i < MC_MAX_THREADS; ++i)
		if (!mc_thread_done(i) && (!mc_thread_wait(i) || mc_thread_ready(i)))
			return false;
	return true;
}
static bool stopped(void) { return stopAt && events >= stopAt && !released; }
static bool p_now(void * a) { (void)a; return finished || stopped() || p_quiet(NULL); }
static bool p_done(void * a) { return mc_thread_done(tMain); }
static int open_socks(void) { int n = 0; for (int i = 0; i < skN; ++i) n += sk[i].open; return n; }
static struct Conn * up(bool input)
{
	for (int i = 0; i < skN; ++i)
		if (sk[i].open && !sk[i].broken && sk[i].input == input) return &sk[i];
	return NULL;
}
static bool p_awake(void * t) { return !asleep[(intptr_t)t]; }
static void on_sleep(uint64_t us)
{
	mc_assert(us >= 1000000, "waiting only %lu us", (unsigned long)us);
	asleep[mc_self()] = us < 600000000; /* statistics */
	if (!asleep[mc_self()]) asleep[0] = true;
	mc_block(&p_awake, (void *)(intptr_t)(asleep[mc_self()] ? mc_self() : 0), true, "sleep");
}
/** one run of the daemon */
static void live(long nstop)
{
	events = 0;
	stopAt = nstop ? mc_choose(nstop, "stop at") : 0;
	released = killed = sigint = finished = false;
	nothreads = must_abort = !acceptable() || mkfails || vdir >= D_FILE || cdir >= D_FILE || vdir == D_DENIED || cdir == D_DENIED;
	if (vdir == D_OK && cdir == D_OK && mkfails) nothreads = must_abort = !acceptable();
	has_serial = used || writes || eff[SERIAL];
	if (!used && writes) serial = assigned;
	else if (!used && eff[SERIAL]) serial = strtoul(eff[SERIAL], NULL, 10);
	fed = got_ext = got_short = sentFrames = 0;
	frames = mc_param("frames", 1);
	skN = 0;
	logins = 0;
	tMain = mc_thread(&process, NULL, "main");
	mc_block(&p_now, NULL, false, "until stop");
	bool waiting = mc_thread_wait(tMain) && !strcmp(mc_thread_wait(tMain), "sigwait");
	mc_assert(!finished, "the daemon ends with %d", result);
	if (!stopped()) {
		/* it works now */
		mc_assert(!must_abort, "the daemon runs although it should have refused to");
		for (int i = 0; i < 6 && !stopped(); ++i) {
			struct Conn * c = up(false);
			if (waiting && up(true) && c && c->stage == 3 && c->pos) break;
			/* time passes */
			for (int t = 0; t < MC_MAX_THREADS; ++t) if (t) asleep[t] = false;
			mc_block(&p_quiet, NULL, false, "until quiet");
			c = up(false);
			if (up(true) && c && c->stage < 3) ++frames; /* the loss of a connection is noticed with the next message */
			mc_block(&p_quiet, NULL, false, "until quiet");
			waiting = mc_thread_wait(tMain) && !strcmp(mc_thread_wait(tMain), "sigwait");
		}
	}
	if (!stopped()) {
		mc_assert(waiting, "the daemon does not wait for SIGINT");
		struct Conn * c = up(false);
		mc_assert(c, "not connected to the network");
		mc_assert(up(true), "not connected to the receiver");
		mc_assert(c->stage == 3, "not logged in (stage %d)", c->stage);
		mc_assert(c->pos, "the position is not sent");
		mc_assert(c->user == 1, "the user name is not sent");
		/* frames get through */
		breaks = inBreaks = 0;
		++frames;
		mc_block(&p_quiet, NULL, false, "until quiet");
	}
	if (!stopped()) {
		bool sync = eff[SYNC] && !strcmp(eff[SYNC], "true"), ext = !eff[EXTSQ] || !strcmp(eff[EXTSQ], "true");
		mc_assert(frames == 0 && got_ext == (sync ? 0 : fed), "extended squitter %d of %d arrived", got_ext, fed);
		mc_assert(got_short == (ext || sync ? 0 : fed), "frame %d of %d arrived", got_short, fed);
		mc_assert(!cmds && shells == wanted, "%d reverse shells are started instead of %d", shells, wanted);
		if (mc_param("stats", 0)) {
			mc_assert(!printed, "statistics are printed too early");
			asleep[0] = false;
			mc_block(&p_quiet, NULL, false, "until quiet");
			mc_assert(printed || stopped(), "no statistics are printed");
		} else
			mc_assert(!printed, "statistics are printed although they are disabled");
		mc_outcome("run", skN);
		mc_eval(true);
	} else
		mc_outcome("stopped at", stopAt);
	int how = mc_param("kill", 0) ? mc_choose(2, "kill") : 0;
	if (!waiting || how) {
		/* the process is gone at once */
		mc_outcome("killed", logins);
		wr = rd = -1;
		wlen = 0;
		memset(wbuf, 0, sizeof wbuf);
		map_ptr = NULL;
	} else {
		mc_outcome("SIGINT", logins);
		sigint = true;
		released = true;
		mc_timeouts_on = true; /* a component which waits for another one is joined later */
		mc_block(&p_done, NULL, false, "exit");
		mc_timeouts_on = false;
		mc_assert(finished && result == 0, "exit code %d", result);
		mc_assert(!open_socks(), "%d sockets stay open", open_socks());
		mc_assert(mc_live_threads() == 1, "%d threads are left", mc_live_threads() - 1);
		mc_assert(!mc_heap_blocks(), "memory is leaked: %u blocks", mc_heap_blocks());
		mc_assert(wr == -1 && rd == -1, "a file stays open");
	}
	mc_process_end();
	memset(sk, 0, sizeof sk);
	skN = printed = wanted = shells = 0;
	memset(asleep, 0, sizeof asleep);
	inlen = inpos = 0;
	memset(inbuf, 0, sizeof inbuf);
}
void mc_harness(void)
{
	static const char dirs[] = "dirs";
	breaks = mc_param("breaks", 0); cfails = mc_param("cfails", 0); inBreaks = mc_param("ibreaks", 0); wfails = mc_param("wfails", 0); cmds = mc_param("cmds", 0);
	mc_fixed_schedule = mc_param("fixed", 1);
	mc_preempt_budget = mc_param("preempt", 0);
	mc_on_abort = &on_abort;
	mc_on_thread = &on_thread;
	mc_on_sleep = &on_sleep;
	mc_timeouts_on = false;
	if (mc_param(dirs, 0)) {
		vdir = mc_choose(5, "state of the directory");
		cdir = mc_choose(5, "state of the configuration directory");
		edir = mc_choose(2, "state of the system directory");
		mkfails = mc_choose(2, "mkdir fails");
		if (vdir != D_MISSING && cdir != D_MISSING && mkfails) mc_prune();
	}
	if (mc_param("badfile", 0)) {
		/* one more file which cannot be read, or only consists of nonsense */
		static const char * const names[] = { "/v/conf.d/00-bad.conf", "/v/conf.d/20-bad.conf", "/e/conf.d/00-bad.conf", "/e/conf.d/20-bad.conf" };
		fname[F_BAD] = names[mc_choose(4, "file")];
		bad_unreadable = mc_choose(2, "not readable");
		file[F_BAD].there = true;
		strcpy(file[F_BAD].data, "[GPS\nLatitude = 12\n");
		file[F_BAD].len = strlen(file[F_BAD].data);
	}
	configure(mc_param("vary", 0));
	if (vdir == D_MISSING) cdir = D_MISSING;
	mc_malloc_budget = mc_param("nomem", 0);
	mc_thread_budget = mc_param("nothreads", 0);
	long runs = mc_param("runs", 1), stop = mc_param("stop", 0);
	for (run = 0; run < runs; ++run)
		live(run + 1 < runs || runs == 1 ? stop : 0);
}
