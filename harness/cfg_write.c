/* O02: configuration written and read back, set programmatically, checked */
#include <ctype.h>
#include <math.h>
#include "cfgmock.h"

/* ---- a file being written ---- */
static char wbuf[2000];
static size_t wlen;
static int w_open, w_opened, w_closed;
static int fail_at, ncalls;      /* index of the failing call, -1: none */
static bool fail_open, fail_close;
static char the_file;
FILE * mc_fopen(const char * name, const char * mode)
{
	mc_assert(!strcmp(name, "/out"), "file '%s' is opened", name);
	mc_assert(mode[0] == 'w' && !strchr(mode, '+'), "file is opened with mode '%s'", mode);
	mc_assert(!w_open, "the file is opened twice");
	if (fail_open) { errno = EACCES; return NULL; }
	w_open = 1; ++w_opened;
	wlen = 0;
	return (FILE *)&the_file;
}
static bool w_fail(FILE * f)
{
	mc_assert((void *)f == &the_file && w_open, "output to a file that is not open");
	if (ncalls++ == fail_at) { errno = ENOSPC; return true; }
	return false;
}
static int errstate;
int mc_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	if (w_fail(f)) { errstate = 1; return -1; }
	int n = vsnprintf(wbuf + wlen, sizeof wbuf - wlen, fmt, ap);
	mc_assert(n >= 0 && wlen + n < sizeof wbuf, "too much output");
	wlen += n;
	return n;
}
int mc_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = mc_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int mc_fputs(const char * s, FILE * f) { return mc_fprintf(f, "%s", s); }
int mc_fputc(int c, FILE * f) { return mc_fprintf(f, "%c", c) < 0 ? EOF : c; }
int mc_putc(int c, FILE * f) { return mc_fputc(c, f); }
size_t mc_fwrite(const void * p, size_t sz, size_t n, FILE * f)
{
	return mc_fprintf(f, "%.*s", (int)(sz * n), (const char *)p) < 0 ? 0 : n;
}
int mc_fflush(FILE * f) { return w_fail(f) || fail_close ? EOF : 0; }
int mc_ferror(FILE * f) { return errstate; }
int mc_fclose(FILE * f)
{
	mc_assert((void *)f == &the_file && w_open, "close of a file that is not open");
	w_open = 0; ++w_closed;
	if (fail_close) { errno = ENOSPC; return EOF; }
	return 0;
}

static int aborted;
static const char * str_vals[] = { "", "a", "abcde", "a b", "x=y", ";", "#", "[s]", "0", "\x80", "a  " };
static const uint32_t int_vals[] = { 0, 1, 9, 0x7fffffff, 0x80000000, 0xffffffff };
static const uint16_t port_vals[] = { 0, 80, 0x7fff, 0x8000, 0xffff };
static const double dbl_vals[] = { 0, -0.5, 51.123456, -179.999999, 1e15, 4503599627370496.5, 12345.678901 };
#define N(a) (int)(sizeof a / sizeof *a)

static void expect_headers(bool * want)
{
	/* every section header is there exactly once, sections of the same name are merged */
	wbuf[wlen] = 0;
	int have[4] = { 0 };
	for (char * p = wbuf; p && *p; p = strchr(p, '\n') ? strchr(p, '\n') + 1 : NULL) {
		if (*p != '[') continue;
		int ok = 0;
		for (int i = 0; i < 4; ++i)
			if (!strncasecmp(p + 1, secname[i], strlen(secname[i])) && p[1 + strlen(secname[i])] == ']') { ++have[i]; ok = 1; }
		mc_assert(ok, "unknown section in '%s'", esc(wbuf, wlen));
	}
	for (int i = 0; i < 4; ++i)
		mc_assert(have[i] == want[i], "section %s is written %d times, should be %d", secname[i], have[i], want[i]);
}
static unsigned reg;
static int sel;
static void roundtrip(const struct vals * v0, unsigned hasgiven, unsigned empty)
{
	/* which options are expected in the file */
	val_apply(v0);
	ncalls = 0; errstate = 0; w_opened = w_closed = 0; wlen = 0;
	bool ok = sel < 0 ? CFG_write("/out") : CFG_writeSection("/out", SEC[sel]);
	mc_assert(!w_open && w_closed == w_opened, "the file stays open");
	const char * d = val_diff(v0);
	mc_assert(!d, "writing changes options: %s", d);
	bool failing = fail_open || fail_close || (fail_at >= 0 && fail_at < ncalls);
	mc_assert(ok == !failing, "writing reports %s, but %s", ok ? "success" : "failure", failing ? "failed" : "did not fail");
	if (failing) { mc_eval(false); return; }
	bool want[4];
	for (int i = 0; i < 4; ++i) want[i] = sel < 0 ? reg >> i & 1 : i == sel;
	if (want[0] || want[2]) want[0] = want[2] = true;     /* the same name */
	expect_headers(want);
	/* read it back */
	CFG_loadDefaults();
	struct vals v = *v0, e = defs;
	for (int o = 0; o < NOPT; ++o) {
		bool w = sel < 0 ? reg >> optsec[o] & 1 : optsec[o] == sel;
		bool unset = (hasgiven >> o & 1) && !v0->given[o] && (empty >> o & 1);
		if (!w || unset) {
			if (reg >> optsec[o] & 1) val_default(&v, o);
			else continue;    /* not registered, not reset by CFG_loadDefaults */
		} else {
			bool isempty = (o == O_STR && !*v.str) || (o == O_STR2 && !*v.str2);
			if (isempty) val_default(&v, o);   /* an empty value means the default */
			else v.given[o] = true;
		}
	}
	file_data = wbuf; file_len = wlen;
	mc_assert(CFG_readFile("/out", true, true, false), "'%s' cannot be read back", esc(wbuf, wlen));
	file_closed();
	/* numbers with decimals are written with six of them */
	mc_assert(fabs(*V.d - v.d) <= 0.0000005, "Dbl is %.17g, should be %.17g", *V.d, v.d);
	*V.d = v.d;
	d = val_diff(&v);
	mc_assert(!d, "written and read back '%s': %s", esc(wbuf, wlen), d);
	mc_eval(true);
	mc_sample("%s", esc(wbuf, wlen));
}
static void rt(void)
{
	static const unsigned regs[] = { 15, 15, 7, 4, 9 };
	int r = mc_param("reg", 0);
	reg = regs[r];
	/* order of registration */
	unsigned hasgiven = mc_choose(2, "optional") ? 0xff : 0x6;
	unsigned empty = mc_choose(2, "default empty") ? 0xff : 0x5;
	cfg_setup(hasgiven, empty);
	for (int i = 0; i < 4; ++i) {
		int j = r == 1 ? 3 - i : i;
		if (reg >> j & 1) CFG_registerSection(SEC[j]);
	}
	sel = mc_choose(5, "section") - 1;
	if (sel >= 0 && !(reg >> sel & 1)) mc_prune();
	unsigned blocks = mc_heap_blocks();
	fail_at = -1;
	struct vals v = prior0;
	int full = mc_param("full", 0);
	for (int s = 0; s < N(str_vals); ++s) for (int i = 0; i < N(int_vals); ++i) for (int p = 0; p < N(port_vals); ++p)
		for (int b = 0; b < 2; ++b) for (int d = 0; d < N(dbl_vals); ++d) for (unsigned g = 0; g < (full ? 256 : 8); ++g) {
			strcpy(v.str, str_vals[s]); v.i = int_vals[i]; v.port = port_vals[p]; v.b = b; v.d = dbl_vals[d];
			v.k = int_vals[(i + 1) % N(int_vals)]; v.two = int_vals[(i + 2) % N(int_vals)];
			strcpy(v.str2, (const char *[]){ "", "q", ";", "[" }[(s + d) % 4]);
			unsigned gg = full ? g : (g & 1 ? 0x55 : 0) | (g & 2 ? 0xaa : 0) | (g & 4 ? 0x18 : 0);
			for (int o = 0; o < NOPT; ++o) v.given[o] = gg >> o & 1;
			roundtrip(&v, hasgiven, empty);
		}
	mc_assert(mc_heap_blocks() == blocks, "memory leak");
	/* failures */
	for (int f = 0; f < 60; ++f) {
		fail_at = f - 2; fail_open = f == 0; fail_close = f == 1;
		roundtrip(&v, hasgiven, empty);
		if (f >= 2 && fail_at >= ncalls) break;
	}
	mc_assert(mc_heap_blocks() == blocks, "memory leak");
	CFG_unregisterAll();
	cfg_free();
	mc_assert(mc_heap_blocks() == 0, "memory leak");
}

/* ---- setters, defaults, checks ---- */
static void on_abort(const char * why)
{
	if (!aborted) mc_fail("the process is terminated: %s", why);
	mc_end();
}
static const char * recase(const char * s, int how)
{
	static char buf[4][16];
	static int n;
	char * d = buf[n++ & 3];
	strcpy(d, s);
	for (char * p = d; *p; ++p) *p = how == 1 ? toupper((unsigned char)*p) : how == 2 ? tolower((unsigned char)*p) : *p;
	return d;
}
static void set(void)
{
	cfg_setup(mc_choose(2, "optional") ? 0xff : 0, 0);
	int order = mc_choose(2, "order");
	for (int i = 0; i < 4; ++i) CFG_registerSection(SEC[order ? 3 - i : i]);
	unsigned blocks = mc_heap_blocks();
	struct vals v = prior0;
	for (int i = 0; i < NOPT; ++i) v.given[i] = i & 1;
	val_apply(&v);
	int n = mc_param("ops", 3);
	while (n-- > 0) {
		int op = mc_choose(11, "operation"), how = mc_choose(3, "case");
		const char * net = recase("Net", how);
		switch (op) {
		case 0: {
			static const char * const s[] = { "", "w", "abcde", "abcdef", "abcdefghijklmnopqrstuvwxyz" };
			int i = mc_choose(5, "string");
			CFG_setString(net, recase("Str", how), s[i]);
			snprintf(v.str, STRLEN, "%s", s[i]);
			break;
		}
		case 1: { int i = mc_choose(N(int_vals), "value"); CFG_setInteger(net, recase("Int", how), int_vals[i]); v.i = int_vals[i]; break; }
		case 2: { int i = mc_choose(N(port_vals), "value"); CFG_setPort(net, recase("Port", how), port_vals[i]); v.port = port_vals[i]; break; }
		case 3: v.b = mc_choose(2, "value"); CFG_setBoolean(net, recase("Bool", how), v.b); break;
		case 4: { int i = mc_choose(N(dbl_vals), "value"); CFG_setDouble(net, recase("Dbl", how), dbl_vals[i]); v.d = dbl_vals[i]; break; }
		case 5: CFG_setInteger(recase("x y", how), recase("k", how), 77); v.k = 77; break;
		case 6: CFG_setInteger(net, recase("Two", how), 78); v.two = 78; break;
		case 7: { static const char * const s[] = { "", "p", "pq" }; int i = mc_choose(3, "string");
			CFG_setString(recase("s", how), recase("k", how), s[i]); snprintf(v.str2, 2, "%s", s[i]); break; }
		case 8:
			CFG_loadDefaults();
			for (int i = 0; i < NOPT; ++i) val_default(&v, i);
			break;
		case 9: {
			unsigned m = mc_choose(16, "checks");
			memset(checked, 0, sizeof checked);
			for (int i = 0; i < 4; ++i) check_ok[i] = m >> i & 1;
			bool r = CFG_check();
			mc_assert(r == (m == 15), "check with results %x returns %d", m, r);
			for (int i = 0; i < 4; ++i)
				mc_assert(m != 15 || checked[i] == 1, "section %s is checked %d times", secname[i], checked[i]);
			break;
		}
		case 10: {
			/* without callbacks */
			int which = mc_choose(4, "section");
			SEC[which]->check = NULL; SEC[which]->fix = NULL;
			memset(checked, 0, sizeof checked); memset(fixed, 0, sizeof fixed);
			for (int i = 0; i < 4; ++i) check_ok[i] = true;
			mc_assert(CFG_check(), "check fails");
			file_data = "\n"; file_len = 1;
			mc_assert(CFG_readFile("/cfg", true, true, true), "file cannot be read");
			for (int i = 0; i < 4; ++i) {
				mc_assert(checked[i] == !!SEC[i]->check, "section %s is checked %d times", secname[i], checked[i]);
				mc_assert(fixed[i] == !!SEC[i]->fix, "section %s is fixed %d times", secname[i], fixed[i]);
			}
			for (int i = 0; i < 4; ++i) { SEC[i]->fix = fixcb; SEC[i]->check = checkcb; }
			break;
		}
		}
		const char * d = val_diff(&v);
		mc_assert(!d, "after operation %d: %s", op, d);
		mc_assert(mc_heap_blocks() == blocks, "memory leak");
	}
	CFG_unregisterAll();
	/* nothing is left: neither defaults nor checks */
	val_apply(&prior0);
	CFG_loadDefaults();
	memset(checked, 0, sizeof checked);
	mc_assert(CFG_check() && !checked[0] && !checked[1] && !checked[2] && !checked[3], "unregistered sections are checked");
	const char * d = val_diff(&prior0);
	mc_assert(!d, "unregistered section is changed: %s", d);
	CFG_registerSection(SEC[1]);
	CFG_loadDefaults();
	mc_assert(*V.k == 0 && *V.i == prior0.i, "registering again does not work");
	CFG_unregisterAll();
	cfg_free();
	mc_assert(mc_heap_blocks() == 0, "memory leak");
	mc_eval(true);
}
void mc_harness(void)
{
	mc_on_abort = on_abort;
	fail_at = -1;
	if (mc_param("set", 0)) set(); else rt();
}
