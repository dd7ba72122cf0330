/* A file system of a few files in memory, below the configuration parser, and
 * registered sections with an option of every type */
#ifndef CFGMOCK_H
#define CFGMOCK_H
#include "common.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>

/* ---- files ---- */
enum { FAULT_NONE, FAULT_OPEN, FAULT_STAT, FAULT_MAP };
static int fault;
static const char * file_data;
static size_t file_len;
static int fd_open, fd_opened;
static void * map_ptr;
static size_t map_len;
/* called upon open: sets file_data, file_len; @return false: no such file */
static bool (*on_open)(const char * path);

int mc_open(const char * path, int flags, ...)
{
	mc_assert((flags & O_ACCMODE) == O_RDONLY, "file opened for writing");
	mc_assert(!fd_open, "another file is still open");
	if (fault == FAULT_OPEN || (on_open && !on_open(path))) {
		errno = ENOENT;
		return -1;
	}
	++fd_opened;
	fd_open = 1;
	return 5;
}
int mc_fstat(int fd, struct stat * st)
{
	mc_assert(fd == 5 && fd_open, "fstat on a file that is not open");
	if (fault == FAULT_STAT) { errno = EIO; return -1; }
	memset(st, 0, sizeof *st);
	st->st_mode = S_IFREG | 0644;
	st->st_size = file_len;
	return 0;
}
int mc_close(int fd)
{
	mc_assert(fd == 5 && fd_open, "close of a file that is not open");
	fd_open = 0;
	return 0;
}
void * mc_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	mc_assert(fd == 5 && fd_open, "mmap of a file that is not open");
	mc_assert(!map_ptr, "another file is still mapped");
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	if (fault == FAULT_MAP) { errno = ENOMEM; return MAP_FAILED; }
	mc_assert(len == file_len && off == 0, "not the whole file is mapped");
	map_ptr = mc_malloc(len);
	map_len = len;
	memcpy(map_ptr, file_data, len);
	return map_ptr;
}
int mc_munmap(void * p, size_t len)
{
	mc_assert(p && p == map_ptr && len == map_len, "munmap of something that is not mapped");
	mc_free(p);
	map_ptr = NULL;
	return 0;
}
/* alternatives to mmap */
static size_t file_pos;
ssize_t mc_read(int fd, void * buf, size_t n)
{
	mc_assert(fd == 5 && fd_open, "read from a file that is not open");
	if (fault == FAULT_MAP) { errno = EIO; return -1; }
	if (n > file_len - file_pos) n = file_len - file_pos;
	memcpy(buf, file_data + file_pos, n);
	file_pos += n;
	return n;
}
static void file_closed(void)
{
	mc_assert(!fd_open && !map_ptr, "a file or mapping stays open");
	file_pos = 0;
}

/* ---- sections ---- */
enum { T_STR = CFG_VALUE_TYPE_STRING, T_INT = CFG_VALUE_TYPE_INT, T_PORT = CFG_VALUE_TYPE_PORT,
	T_BOOL = CFG_VALUE_TYPE_BOOL, T_DBL = CFG_VALUE_TYPE_DOUBLE };
#define STRLEN 6
#define NOPT 8
/* the options' storage, each in a heap block of its own */
static struct { char * str, * str2; uint32_t * i, * two, * k; uint_fast16_t * port; bool * b; double * d; } V;
static bool given[NOPT];
static int fixed[4], checked[4];
static bool check_ok[4];
static struct CFG_Section * SEC[4];
static const char * const secname[] = { "Net", "x y", "NET", "s" };
enum { O_STR, O_INT, O_PORT, O_BOOL, O_DBL, O_K, O_TWO, O_STR2 };
/* section (index) and option (index within) of each option */
static struct CFG_Option * OPT[NOPT];
static const int optsec[NOPT] = { 0, 0, 0, 0, 0, 1, 2, 3 };
static const char * const optname[NOPT] = { "Str", "Int", "Port", "Bool", "Dbl", "k", "Two", "k" };

static int secidx(const struct CFG_Section * s)
{
	for (int i = 0; i < 4; ++i)
		if (SEC[i] == s) return i;
	mc_fail("callback with something that is not a section");
}
static void fixcb(const struct CFG_Section * s) { ++fixed[secidx(s)]; }
static bool checkcb(const struct CFG_Section * s)
{
	int i = secidx(s);
	++checked[i];
	return check_ok[i];
}
static struct CFG_Section * mksec(int idx, int n)
{
	struct CFG_Section * s = mc_calloc(1, sizeof *s + n * sizeof(struct CFG_Option));
	s->name = secname[idx];
	s->fix = fixcb;
	s->check = checkcb;
	SEC[idx] = s;
	return s;
}
static void mkopt(struct CFG_Section * s, int o, int type, void * var, size_t maxlen)
{
	struct CFG_Option * p = &s->options[s->n_opt++];
	p->name = optname[o];
	p->type = type;
	p->var = var;
	p->maxlen = maxlen;
	OPT[o] = p;
}
/* @optional: which options have a "given" flag */
static void cfg_setup(unsigned hasgiven, unsigned empty)
{
	V.str = mc_calloc(1, STRLEN); V.str2 = mc_calloc(1, 2); V.i = mc_calloc(1, 4); V.two = mc_calloc(1, 4); V.k = mc_calloc(1, 4);
	V.port = mc_calloc(1, sizeof(uint_fast16_t)); V.b = mc_calloc(1, 1); V.d = mc_calloc(1, 8);
	struct CFG_Section * s = mksec(0, 5);
	mkopt(s, O_STR, T_STR, V.str, STRLEN);
	OPT[O_STR]->def.string = "ab";
	mkopt(s, O_INT, T_INT, V.i, 0);
	OPT[O_INT]->def.integer = 7;
	mkopt(s, O_PORT, T_PORT, V.port, 0);
	OPT[O_PORT]->def.port = 80;
	mkopt(s, O_BOOL, T_BOOL, V.b, 0);
	OPT[O_BOOL]->def.boolean = true;
	mkopt(s, O_DBL, T_DBL, V.d, 0);
	OPT[O_DBL]->def.dbl = 1.5;
	s = mksec(1, 1);
	mkopt(s, O_K, T_INT, V.k, 0);
	s = mksec(2, 1);
	mkopt(s, O_TWO, T_INT, V.two, 0);
	OPT[O_TWO]->def.integer = 0xffffffff;
	s = mksec(3, 1);
	mkopt(s, O_STR2, T_STR, V.str2, 2);
	for (int i = 0; i < NOPT; ++i) {
		if (hasgiven >> i & 1) OPT[i]->given = &given[i];
		if (empty >> i & 1) OPT[i]->defaultEmpty = true;
	}
	for (int i = 0; i < 4; ++i) check_ok[i] = true;
}
static void cfg_free(void)
{
	for (int i = 0; i < 4; ++i) mc_free(SEC[i]);
	mc_free(V.str); mc_free(V.str2); mc_free(V.i); mc_free(V.two); mc_free(V.k); mc_free(V.port); mc_free(V.b); mc_free(V.d);
}

/* ---- values ---- */
struct vals { char str[STRLEN], str2[2]; uint32_t i, two, k; uint_fast16_t port; bool b; double d; bool given[NOPT]; };
static void val_apply(const struct vals * v)
{
	memset(V.str, 0x55, STRLEN); memset(V.str2, 0x55, 2);
	strcpy(V.str, v->str); strcpy(V.str2, v->str2);
	*V.i = v->i; *V.two = v->two; *V.k = v->k; *V.port = v->port; *V.b = v->b; *V.d = v->d;
	memcpy(given, v->given, sizeof given);
}
/* value that the options have before reading */
static const struct vals prior0 = { .str = "pq", .str2 = "z", .i = 3, .two = 4, .k = 5, .port = 6, .b = false, .d = 2.5 };
static const struct vals defs = { .str = "ab", .str2 = "", .i = 7, .two = 0xffffffff, .k = 0, .port = 80, .b = true, .d = 1.5 };
static void val_default(struct vals * v, int o)
{
	switch (o) {
	case O_STR: strcpy(v->str, defs.str); break;
	case O_STR2: strcpy(v->str2, defs.str2); break;
	case O_INT: v->i = defs.i; break;
	case O_TWO: v->two = defs.two; break;
	case O_K: v->k = defs.k; break;
	case O_PORT: v->port = defs.port; break;
	case O_BOOL: v->b = defs.b; break;
	case O_DBL: v->d = defs.d; break;
	}
	v->given[o] = false;
}
static const char * val_diff(const struct vals * v)
{
	static char buf[120];
	if (!memchr(V.str, 0, STRLEN) || !memchr(V.str2, 0, 2)) return "a string is not terminated";
#define D(c, ...) if (c) { snprintf(buf, sizeof buf, __VA_ARGS__); return buf; }
	D(strcmp(V.str, v->str), "Str is '%s', should be '%s'", V.str, v->str)
	D(strcmp(V.str2, v->str2), "s.k is '%s', should be '%s'", V.str2, v->str2)
	D(*V.i != v->i, "Int is %u, should be %u", *V.i, v->i)
	D(*V.two != v->two, "Two is %u, should be %u", *V.two, v->two)
	D(*V.k != v->k, "k is %u, should be %u", *V.k, v->k)
	D(*V.port != v->port, "Port is %u, should be %u", (unsigned)*V.port, (unsigned)v->port)
	D(*V.b != v->b, "Bool is %d, should be %d", *V.b, v->b)
	D(memcmp(V.d, &v->d, 8), "Dbl is %g, should be %g", *V.d, v->d)
	for (int o = 0; o < NOPT; ++o)
		D(OPT[o]->given && given[o] != v->given[o], "%s is%s marked as given", optname[o], given[o] ? "" : " not")
	return NULL;
}
static char * esc(const char * s, size_t n)
{
	static char buf[400];
	size_t o = 0;
	for (size_t i = 0; i < n && o < sizeof buf - 8; ++i) {
		unsigned char c = s[i];
		if (c == '\n') o += sprintf(buf + o, "\\n");
		else if (c == '\r') o += sprintf(buf + o, "\\r");
		else if (c < 32 || c > 126) o += sprintf(buf + o, "\\x%02x", c);
		else buf[o++] = c;
	}
	buf[o] = 0;
	return buf;
}
static void val_check(const struct vals * v, const char * what, const char * f, size_t n)
{
	const char * d = val_diff(v);
	mc_assert(!d, "%s '%s': %s", what, esc(f, n), d);
}
#endif
