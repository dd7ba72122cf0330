/* H02: GPIO registers and the watchdog. The mapped register blocks are plain
 * memory; before each access they are filled with what the hardware would
 * show, afterwards the effect of the writes is derived from what changed. */
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include "radarcape/gpio.h"
#include "radarcape/watchdog.h"

enum { OE = 0x134, IN = 0x138, OUT = 0x13c, CLEAR = 0x190, SET = 0x194 };
static const uint32_t bases[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
static uint8_t * map[4];
static int maps, fds;
static int budget;
static bool failed;

int mc_open(const char * p, int flags, ...)
{
	mc_assert(!strcmp(p, "/dev/mem"), "'%s' is opened", p);
	mc_assert((flags & O_ACCMODE) == O_RDWR, "opened with flags %x", flags);
	mc_assert(flags & (O_SYNC | O_DSYNC), "the registers are mapped cached");
	if (budget > 0 && mc_choose(2, "open fails")) { --budget; failed = true; errno = EACCES; return -1; }
	++fds;
	return 9;
}
int mc_close(int fd)
{
	mc_assert(fd == 9 && fds == 1, "something is closed that is not open");
	--fds;
	return 0;
}
void * mc_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	mc_assert(fd == 9 && fds == 1, "mapping of a file that is not open");
	mc_assert(len == 4096 && prot == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED), "wrong mapping");
	int i;
	for (i = 0; i < 4 && bases[i] != (uint32_t)off; ++i);
	mc_assert(i < 4 && off == bases[i], "there is no controller at %lx", (long)off);
	mc_assert(!map[i], "controller %d is mapped twice", i);
	if (budget > 0 && mc_choose(2, "mmap fails")) { --budget; failed = true; errno = EPERM; return MAP_FAILED; }
	++maps;
	return map[i] = mc_calloc(1, len);
}
int mc_munmap(void * a, size_t len)
{
	int i;
	for (i = 0; i < 4 && (map[i] != a || !a); ++i);
	mc_assert(i < 4 && len == 4096, "something is unmapped that is not mapped");
	mc_free(map[i]);
	map[i] = NULL;
	--maps;
	return 0;
}

struct hw { uint32_t out, oe, in; };
static struct hw hw[4];
static void before(void)
{
	for (int i = 0; i < 4; ++i) {
		memset(map[i], 0x5a, 4096);
		*(uint32_t *)(map[i] + OE) = hw[i].oe;
		*(uint32_t *)(map[i] + IN) = hw[i].in;
		*(uint32_t *)(map[i] + OUT) = hw[i].out;
		*(uint32_t *)(map[i] + SET) = hw[i].out;
		*(uint32_t *)(map[i] + CLEAR) = hw[i].out;
	}
}
/** the effect of what was written; @op register that may show its old value
 * after having been written */
static void after(const char * what, int pin, int op)
{
	for (int i = 0; i < 4; ++i) {
		uint32_t set = *(uint32_t *)(map[i] + SET), clear = *(uint32_t *)(map[i] + CLEAR), out = *(uint32_t *)(map[i] + OUT);
		bool cset = set != hw[i].out || (op == SET && pin / 32 == i), cclear = clear != hw[i].out || (op == CLEAR && pin / 32 == i);
		if (out != hw[i].out) {
			mc_assert(set == hw[i].out && clear == hw[i].out, "%s pin %d writes several registers", what, pin);
			hw[i].out = out;
		} else {
			if (cset) out |= set;
			if (cclear) out &= ~clear;
			hw[i].out = out;
		}
		hw[i].oe = *(uint32_t *)(map[i] + OE);
		mc_assert(*(uint32_t *)(map[i] + IN) == hw[i].in, "%s pin %d writes to the input register", what, pin);
		for (int j = 0; j < 4096; j += 4)
			mc_assert(j == OE || j == IN || j == OUT || j == SET || j == CLEAR || *(uint32_t *)(map[i] + j) == 0x5a5a5a5a, "%s pin %d changes register %x of controller %d", what, pin, j, i);
	}
}
static const uint32_t pattern(int k, uint32_t bit)
{
	switch (k) {
	case 0: return 0;
	case 1: return ~0u;
	case 2: return bit;
	case 3: return ~bit;
	case 4: return 0x80000000;
	case 5: return 0xa5c3f00f;
	case 6: return bit << 1 | bit >> 1;
	default: return bit | 1;
	}
}
static void check(const char * what, int pin, const struct hw * want)
{
	for (int i = 0; i < 4; ++i) {
		mc_assert(hw[i].out == want[i].out, "%s pin %d: output of controller %d becomes %08x instead of %08x", what, pin, i, hw[i].out, want[i].out);
		mc_assert(hw[i].oe == want[i].oe, "%s pin %d: direction of controller %d becomes %08x instead of %08x", what, pin, i, hw[i].oe, want[i].oe);
	}
}
static void pins(void)
{
	int pats = mc_param("pats", 8);
	int op = mc_choose(5, "operation");
	static const char * const name[] = { "setting", "clearing", "input", "output", "reading" };
	for (int pin = 0; pin < 128; ++pin)
		for (int k = 0; k < pats; ++k)
			for (int l = 0; l < pats; ++l) {
				uint32_t bit = (uint32_t)1 << (pin % 32);
				for (int i = 0; i < 4; ++i) {
					bool own = i == pin / 32;
					uint32_t a = pattern(own ? k : l, bit), c = pattern(own ? l : k, bit);
					hw[i] = (struct hw){ .out = op < 2 ? a : c, .oe = op == 2 || op == 3 ? a : c, .in = op == 4 ? a : ~c };
				}
				struct hw want[4];
				memcpy(want, hw, sizeof hw);
				struct hw * w = &want[pin / 32];
				before();
				bool changed = false;
				switch (op) {
				case 0: GPIO_set(pin); changed = !(w->out & bit); w->out |= bit; break;
				case 1: GPIO_clear(pin); changed = w->out & bit; w->out &= ~bit; break;
				case 2: GPIO_setDirection(pin, GPIO_DIRECTION_IN); changed = !(w->oe & bit); w->oe |= bit; break;
				case 3: GPIO_setDirection(pin, GPIO_DIRECTION_OUT); changed = w->oe & bit; w->oe &= ~bit; break;
				case 4: {
					uint_fast32_t r = GPIO_read(pin);
					changed = w->in & bit;
					mc_assert(r == changed, "pin %d is %d but reads as %lx", pin, changed, (unsigned long)r);
					mc_outcome("level", r);
				}
				}
				after(name[op], pin, op == 0 ? SET : op == 1 ? CLEAR : 0);
				check(name[op], pin, want);
				mc_eval(changed);
			}
	mc_outcome("operation", op);
	mc_sample("%s: 128 pins", name[op]);
}

#ifdef MC_WD
/* ---- the watchdog: GPIO functions are recorded ---- */
static long now;
enum { INTERVAL = 30000000 };
static int wd_level = -1, wd_pulses, sleeps;
static bool wd_out, dropped, constructed, in_main;
void GPIO_setDirection(uint_fast32_t gpio, enum GPIO_DIRECTION dir)
{
	mc_assert(constructed, "pins are accessed before the GPIO subsystem is ready");
	mc_assert(gpio == 60, "pin %u is configured", (unsigned)gpio);
	mc_assert(dir == GPIO_DIRECTION_OUT, "the pin becomes an input");
	wd_out = true;
}
void GPIO_set(uint_fast32_t gpio)
{
	mc_assert(constructed, "pins are accessed before the GPIO subsystem is ready");
	mc_assert(gpio == 60, "pin %u is set", (unsigned)gpio);
	mc_assert(in_main, "the pin is set while configuring");
	mc_assert(wd_out, "the pin is set before it is an output");
	mc_assert(wd_level == 0, "the pin is set without having been cleared");
	wd_level = 1;
}
void GPIO_clear(uint_fast32_t gpio)
{
	mc_assert(constructed, "pins are accessed before the GPIO subsystem is ready");
	mc_assert(gpio == 60, "pin %u is cleared", (unsigned)gpio);
	if (wd_level == 1) {
		mc_assert(now == (long)INTERVAL * wd_pulses, "pulse %d after %ld us", wd_pulses + 1, now);
		++wd_pulses;
	}
	wd_level = 0;
}
uint_fast32_t GPIO_read(uint_fast32_t gpio) { mc_fail("pin %u is read", (unsigned)gpio); }
static bool gpio_fails;
static bool gpio_construct(void * d) { if (gpio_fails) return false; constructed = true; return true; }
static void gpio_destruct(void * d) { constructed = false; }
struct Component GPIO_comp = { .description = "GPIO", .onConstruct = gpio_construct, .onDestruct = gpio_destruct, .dependencies = { NULL } };
static int intervals;
static bool forever;
static void on_sleep(uint64_t us)
{
	mc_assert(wd_level == 0, "the pin stays set during the interval");
	mc_assert(wd_pulses == 1 + now / INTERVAL, "%d pulses after %ld us", wd_pulses, now);
	now += us;
	if (now / INTERVAL == sleeps) return;
	mc_assert(now / INTERVAL == sleeps + 1, "sleeps longer than the interval");
	mc_outcome("intervals", ++sleeps);
	mc_eval(sleeps > 1);
	if (sleeps == intervals) {
		if (forever) mc_end();
		mc_cancel(mc_self());
		mc_testcancel();
		mc_fail("the watchdog cannot be cancelled while waiting");
	}
}
uid_t mc_getuid(void) { return 0; }
static void body(void * a)
{
	in_main = true;
	WD_comp.main(NULL);
	mc_fail("the watchdog ends");
}
#ifdef MC_WDMAIN
extern int mc_main(int, char **);
void UTIL_dropPrivileges(void) { mc_assert(constructed || gpio_fails, "privileges are dropped before the registers are mapped"); dropped = true; }
#endif
void mc_harness(void)
{
	mc_on_sleep = on_sleep;
	intervals = 1 + mc_choose(mc_param("intervals", 5), "intervals");
#ifdef MC_WDMAIN
	gpio_fails = mc_choose(2, "no GPIO");
	forever = true;
	in_main = false;
	char * argv[] = { "rc-wd", NULL };
	in_main = true;
	int r = mc_main(1, argv);
	mc_assert(gpio_fails && r, "the program ends with %d", r);
	mc_outcome("fails", r);
	mc_eval(true);
#else
	bool dep = false;
	for (int i = 0; WD_comp.dependencies[i]; ++i) dep |= WD_comp.dependencies[i] == &GPIO_comp;
	mc_assert(dep, "the watchdog does not depend on the GPIO subsystem");
	constructed = true;
	wd_level = mc_choose(2, "initially set");
	mc_assert(WD_comp.onConstruct(NULL), "construction fails");
	mc_assert(wd_out && wd_level == 0, "the pin is not a cleared output after construction");
	wd_pulses = 0;
	mc_thread(body, NULL, "WD");
#endif
}
#else
void mc_harness(void)
{
	int cycles = mc_param("cycles", 1);
	size_t heap = mc_heap_bytes();
	budget = mc_param("fails", 0);
	while (cycles--) {
		failed = false;
		bool r = GPIO_comp.onConstruct(NULL);
		mc_assert(r == !failed, "%s is reported", r ? "success" : "failure");
		mc_assert(!fds, "the device file stays open");
		mc_outcome(r ? "constructed" : "failed", budget);
		if (!r) {
			mc_assert(!maps, "%d mappings stay after a failure", maps);
			mc_eval(false);
		} else {
			mc_assert(maps == 4, "%d controllers are mapped", maps);
			if (mc_param("pins", 1)) pins(); else mc_eval(true);
			GPIO_comp.onDestruct(NULL);
			mc_assert(!maps, "%d mappings stay", maps);
		}
		mc_assert(mc_heap_bytes() == heap, "memory is leaked");
	}
}
#endif
