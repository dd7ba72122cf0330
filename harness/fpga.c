/* H01: programming the FPGA. The device is a small state machine behind the
 * GPIO functions; time passes in usleep() only. */
#include "common.h"
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "radarcape/gpio.h"
#include "radarcape/fpga.h"

struct Component GPIO_comp = { .description = "GPIO", .dependencies = { NULL } };

/* ---- the board ---- */
struct board { int confd, dclk, nstat, data0, nconf; };
static const struct board boards[2] = { { 38, 39, 34, 44, 37 }, { 45, 47, 46, 44, 61 } };
static const struct board * b;
static bool known[128];            /* direction is set */
static bool output[128];
static int level[128];             /* of outputs; -1: not known */

/* ---- the device ---- */
static enum { IDLE, RESET, SYNC, DATA } stage;
static int64_t now;
static int64_t low_since, sync_at, done_at;   /* -1: never */
static bool seen_ready;
static int attempts, bits;
static bool error, error_lasts, any_error;
static uint8_t got[8];
static int pos;

/* ---- the file ---- */
static uint8_t content[8];
static int size;
static int fds, maps;
static uint8_t * map;
static char * path;                /* that has to be opened, NULL: too long */
static bool exists;                /* the absolute name */
static const char * conf;
static int budget;
static bool io_failed;
static bool io_fail(const char * what) { if (budget > 0 && mc_choose(2, what)) { --budget; return io_failed = true; } return false; }
static int dev_budget;
static int64_t delay(const char * what)
{
	static const int64_t d[] = { 0, 450, -1, 1, 50, 400 };
	if (dev_budget <= 0) return 0;
	int k = mc_choose(mc_param("delays", 4), what);
	if (k) --dev_budget;
	return d[k];
}

static void pin(uint_fast32_t gpio, bool out, const char * what)
{
	mc_assert(gpio < 128 && (gpio == b->confd || gpio == b->dclk || gpio == b->nstat || gpio == b->data0 || gpio == b->nconf),
		"%s pin %u, which does not belong to the FPGA of this board", what, (unsigned)gpio);
	bool is_out = gpio != b->confd && gpio != b->nstat;
	mc_assert(is_out == out, "%s pin %u in the wrong direction", what, (unsigned)gpio);
}
void GPIO_setDirection(uint_fast32_t gpio, enum GPIO_DIRECTION dir)
{
	pin(gpio, dir == GPIO_DIRECTION_OUT, "configures");
	known[gpio] = true;
	output[gpio] = dir == GPIO_DIRECTION_OUT;
}
/** the current attempt ends: was there a reason? */
static void give_up(void)
{
	if (stage == SYNC) mc_assert(sync_at < 0, "gives up although the device becomes ready in time");
	if (stage == DATA) mc_assert(any_error || (bits == size * 8 && done_at < 0), "gives up although the device did not signal an error (%d bits sent)", bits);
}
static void set(uint_fast32_t gpio, int v)
{
	pin(gpio, true, v ? "sets" : "clears");
	mc_assert(known[gpio], "pin %u is used without being configured", (unsigned)gpio);
	int old = level[gpio];
	level[gpio] = v;
	if (gpio == b->nconf) {
		if (!v && old != 0) {
			give_up();
			stage = RESET;
			low_since = now;
			done_at = -1;
			error = any_error = seen_ready = false;
			bits = 0;
		} else if (v && old == 0 && stage == RESET) {
			mc_assert(now > low_since, "the reset signal is too short");
			++attempts;
			mc_assert(attempts <= 3, "more than 3 attempts");
			stage = SYNC;
			int64_t d = delay("ready");
			sync_at = d < 0 ? -1 : now + d;
		}
	} else if (gpio == b->dclk) {
		if (v && old == 0) {
			if (stage == RESET || stage == IDLE)
				mc_fail("clock pulse while the device is not out of reset");
			mc_assert(seen_ready, "data is sent before the device signalled that it is ready");
			stage = DATA;
			mc_assert(level[b->data0] >= 0, "no data on the data pin");
			mc_assert(bits < size * 8, "more bits than the file has");
			if (!error_lasts) error = false;
			got[bits / 8] = got[bits / 8] >> 1 | level[b->data0] << 7;
			++bits;
			if (bits % 8 == 0) {
				mc_assert(any_error || got[bits / 8 - 1] == content[bits / 8 - 1], "byte %d arrives as %02x instead of %02x", bits / 8 - 1, got[bits / 8 - 1], content[bits / 8 - 1]);
				if (dev_budget > 0) {
					int k = mc_choose(3, "error");
					if (k) { --dev_budget; error = any_error = true; error_lasts = k == 1; }
				}
			}
			if (bits == size * 8 && (!error || !error_lasts)) {
				int64_t d = delay("done");
				done_at = d < 0 ? -1 : now + d;
			}
		}
	}
}
void GPIO_set(uint_fast32_t gpio) { set(gpio, 1); }
void GPIO_clear(uint_fast32_t gpio) { set(gpio, 0); }
uint_fast32_t GPIO_read(uint_fast32_t gpio)
{
	pin(gpio, false, "reads");
	mc_assert(known[gpio], "pin %u is used without being configured", (unsigned)gpio);
	if (gpio == b->nstat) {
		if (stage == IDLE) return 1;
		if (stage == RESET) return 0;
		bool r = sync_at >= 0 && now >= sync_at && !error;
		if (r) seen_ready = true;
		return r;
	}
	return stage == DATA && done_at >= 0 && now >= done_at;
}
static void slept(uint64_t us) { now += us; }

/* ---- files ---- */
int mc_stat(const char * p, struct stat * st)
{
	mc_assert(!strcmp(p, conf), "'%.40s' is examined", p);
	if (exists) { memset(st, 0, sizeof *st); return 0; }
	errno = ENOENT;
	return -1;
}
int mc_access(const char * p, int mode) { struct stat st; return mc_stat(p, &st); }
int mc_open(const char * p, int flags, ...)
{
	if (!path) {
		mc_assert(strlen(p) >= PATH_MAX, "the shortened name of a file is opened");
		io_failed = true;
		errno = ENAMETOOLONG;
		return -1;
	}
	mc_assert(!strcmp(p, path), "'%.60s' is opened instead of '%.60s'", p, path);
	mc_assert((flags & O_ACCMODE) == O_RDONLY, "the file is opened for writing");
	if (io_fail("open fails")) { errno = EACCES; return -1; }
	++fds;
	return 7;
}
int mc_fstat(int fd, struct stat * st)
{
	mc_assert(fd == 7 && fds == 1, "fstat on a file that is not open");
	if (io_fail("fstat fails")) { errno = EIO; return -1; }
	memset(st, 0, sizeof *st);
	st->st_size = size;
	st->st_mode = S_IFREG | 0644;
	return 0;
}
void * mc_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	mc_assert(fd == 7 && fds == 1, "mapping a file that is not open");
	mc_assert(!off && len == size && (prot & PROT_READ) && !(prot & PROT_EXEC), "wrong mapping");
	if (!len) { io_failed = true; errno = EINVAL; return MAP_FAILED; }
	if (io_fail("mmap fails")) { errno = ENOMEM; return MAP_FAILED; }
	++maps;
	map = mc_malloc(len);
	memcpy(map, content, len);
	return map;
}
int mc_munmap(void * a, size_t len)
{
	mc_assert(maps == 1 && a == map && len == size, "something is unmapped that is not mapped");
	--maps;
	mc_free(map);
	map = NULL;
	return 0;
}
ssize_t mc_read(int fd, void * buf, size_t n)
{
	mc_assert(fd == 7 && fds == 1, "reading from a file that is not open");
	if (io_fail("read fails")) { errno = EIO; return -1; }
	if (n > size - pos) n = size - pos;
	memcpy(buf, content + pos, n);
	pos += n;
	return n;
}
int mc_close(int fd)
{
	mc_assert(fd == 7 && fds == 1, "something is closed that is not open");
	--fds;
	return 0;
}

static char * name(int len, bool absolute)
{
	static char s[PATH_MAX + 1];
	memset(s, 'x', len);
	for (int i = 250; i < len; i += 250) s[i] = '/';
	if (absolute) s[0] = '/';
	s[len] = 0;
	return s;
}

void mc_harness(void)
{
	mc_on_sleep = slept;
	int names = mc_param("names", 0);
	int lib = strlen(FWDIR) + 1;
	static const int lens[] = { 1, 5, PATH_MAX - 2, PATH_MAX - 1 };
	bool absolute = false;
	char * n;
	if (names) {
		absolute = mc_choose(2, "absolute");
		int k = mc_choose(absolute ? 4 : 6, "length");
		n = name(k == 4 ? PATH_MAX - 1 - lib : k == 5 ? PATH_MAX - lib : lens[k], absolute);
		exists = mc_choose(2, "exists in the working directory");
	} else n = name(5, false);
	FPGA_bbwhite = mc_choose(2, "white board");
	b = &boards[FPGA_bbwhite ? 0 : 1];
	const struct CFG_Section * s = FPGA_comp.config;
	cfg_bool(s, "Configure", true);
	if (names && mc_choose(2, "no name")) {
		cfg_str(s, "File", "");
		mc_assert(!cfg_accept(s), "configuration without file name is accepted");
		cfg_bool(s, "Configure", false);
		mc_assert(cfg_accept(s), "file name is demanded although the FPGA is not to be programmed");
		return;
	}
	cfg_str(s, "File", n);
	mc_assert(cfg_accept(s), "configuration is not accepted");
	conf = n;
	static char full[2 * PATH_MAX];
	if (absolute && exists) path = n;
	else {
		snprintf(full, sizeof full, "%s/%s", FWDIR, n);
		path = strlen(full) < PATH_MAX ? full : NULL;
	}
	memset(level, -1, sizeof level);
	mc_assert(FPGA_comp.onConstruct(NULL), "construction fails");
	for (int i = 0; i < 5; ++i) {
		int p = ((const int *)b)[i];
		mc_assert(known[p] && output[p] == (p != b->confd && p != b->nstat), "direction of pin %d is not set", p);
	}
	mc_assert(level[b->dclk] == 0, "the clock is not low after construction");
	size_t heap = mc_heap_bytes();
	int alpha = mc_param("alpha", 5);
	int rounds = mc_param("rounds", 1);
	budget = mc_param("iofails", 1);
	while (rounds--) {
		static const uint8_t v[] = { 0xa1, 0, 1, 0x80, 0xff, 0x7e };
		int maxsize = mc_param("size", 2);
		size = mc_param("minsize", 0);
		size += mc_choose(maxsize - size + 1, "size");
		for (int i = 0; i < size; ++i) {
			int k = mc_choose(alpha, "byte");
			content[i] = alpha == 256 ? k : v[k];
		}
		dev_budget = mc_param("faults", 3);
		attempts = 0;
		io_failed = false;
		pos = 0;
		bits = 0;
		seen_ready = any_error = error = false;
		done_at = sync_at = -1;
		stage = level[b->nconf] == 0 ? RESET : IDLE;
		low_since = now - 1;
		bool r = FPGA_comp.onStart(NULL);
		mc_assert(!fds, "%d files stay open", fds);
		mc_assert(!maps, "%d mappings stay", maps);
		mc_assert(mc_heap_bytes() == heap, "memory is leaked");
		bool ok = !io_failed && size && path && stage == DATA && bits == size * 8 && !any_error && done_at >= 0;
		if (ok) mc_assert(!memcmp(got, content, size), "the device got something else than the file");
		mc_assert(r == ok, "%s is reported, but the device is %s (attempt %d, %d bits, error %d)", r ? "success" : "failure", ok ? "programmed" : "not programmed", attempts, bits, any_error);
		if (!r) give_up();
		if (!ok && !io_failed && path && size) mc_assert(attempts == 3, "gives up after %d attempts", attempts);
		if (io_failed || !path || !size) mc_assert(!attempts, "programming without a file");
		mc_outcome(r ? "programmed in attempt" : "failed", attempts);
		mc_outcome("first byte", content[0]);
		mc_outcome("board", FPGA_bbwhite);
		mc_sample("board %d, %d bytes, %d attempts: %s", FPGA_bbwhite, size, attempts, r ? "programmed" : "failed");
		mc_eval(r && attempts > 1);
		memset(got, 0, sizeof got);
		now = 0;
	}
}
