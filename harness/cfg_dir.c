/* O03: reading a directory of configuration files */
#include <dirent.h>
#include <limits.h>
#include "cfgmock.h"

#define MAXE 5
struct file { const char * name; unsigned type; bool take; unsigned long num; };
static const struct file FILES[] = {
	{ "5.conf", DT_REG, true, 5 },
	{ "10-a.conf", DT_REG, true, 10 },
	{ "09-b.conf", DT_LNK, true, 9 },
	{ "010.conf", DT_REG, true, 10 },
	{ "a5.conf", DT_REG, false, 0 },
	{ "4294967297-x.conf", DT_REG, true, 4294967297ul },
	{ "6.conf", DT_DIR, false, 0 },
	{ "7.conf~", DT_REG, false, 0 },
	{ "0x20.conf", DT_REG, true, 0 },
	{ "8", DT_REG, false, 0 },
	{ "2.CONF", DT_REG, false, 0 },
	{ "1conf", DT_REG, false, 0 },
	{ ".conf", DT_REG, false, 0 },
	{ "3.conf.bak", DT_LNK, false, 0 },
	{ "2147483653.conf", DT_REG, true, 2147483653ul },
	{ "99.conf", DT_LNK, true, 99 },
	{ "4.conf", DT_FIFO, false, 0 },
	{ "/1.conf", DT_REG, false, 0 },
	{ ":1.conf", DT_REG, false, 0 },
	{ "0.conf", DT_REG, true, 0 },
	{ "12345678901.conf", DT_REG, true, 12345678901ul },
	{ "11.conf", DT_UNKNOWN, true, 11 },
};
#define NF (int)(sizeof FILES / sizeof *FILES)
/* contents: 0 good, 1 malformed, 2 unreadable, 3 value that does not parse, 4 empty */
static int n_ent, ent[MAXE], content[MAXE];
static char bodies[MAXE][64];
static const char * path;
static bool fail_scan;
static struct dirent * made[MAXE];
static unsigned made_n;

int mc_scandir(const char * p, struct dirent *** list, int (*filter)(const struct dirent *),
	int (*cmp)(const struct dirent **, const struct dirent **))
{
	mc_assert(!strcmp(p, path), "directory '%s' is read", p);
	if (fail_scan) { errno = ENOENT; return -1; }
	struct dirent ** l = mc_malloc((n_ent + 1) * sizeof *l);
	int n = 0;
	for (int i = 0; i < n_ent; ++i) {
		struct dirent d;
		memset(&d, 0, sizeof d);
		d.d_type = FILES[ent[i]].type;
		strcpy(d.d_name, FILES[ent[i]].name);
		if (filter && !filter(&d)) continue;
		size_t sz = offsetof(struct dirent, d_name) + strlen(d.d_name) + 1;
		struct dirent * c = mc_malloc(sz);
		memcpy(c, &d, sz);
		l[n++] = c;
	}
	if (cmp)
		for (int i = 1; i < n; ++i)
			for (int j = i; j > 0 && cmp((const struct dirent **)&l[j - 1], (const struct dirent **)&l[j]) > 0; --j) {
				struct dirent * t = l[j]; l[j] = l[j - 1]; l[j - 1] = t;
			}
	*list = l;
	return n;
}

static int opened[MAXE * 2], n_opened;
static bool opening(const char * p)
{
	size_t l = strlen(path);
	mc_assert(!strncmp(p, path, l) && p[l] == '/', "file '%s' is opened", p);
	for (int i = 0; i < n_ent; ++i)
		if (!strcmp(p + l + 1, FILES[ent[i]].name)) {
			opened[n_opened++] = i;
			if (content[i] == 2) return false;
			file_data = bodies[i];
			file_len = strlen(bodies[i]);
			return true;
		}
	mc_fail("file '%s' is opened", p);
}
static void one(bool strict, bool stop)
{
	for (int i = 0; i < n_ent; ++i) {
		snprintf(bodies[i], sizeof bodies[i],
			content[i] == 0 ? "[Net]\nInt=%d\n" : content[i] == 1 ? "[Net]\nInt=%d\n[x" : content[i] == 3 ? "[Net]\nInt=%d\nPort=x\n" : "", i + 100);
	}
	n_opened = 0;
	memset(fixed, 0, sizeof fixed);
	struct vals v = prior0;
	val_apply(&v);
	unsigned blocks = mc_heap_blocks();
	bool ok = CFG_readDirectory(path, true, true, !strict, stop);
	file_closed();
	mc_assert(mc_heap_blocks() == blocks, "memory leak");
	/* what was read, in this order? */
	size_t plen = strlen(path);
	bool want = !fail_scan, seen[MAXE] = { 0 };
	unsigned nfixed = 0;
	if (plen > PATH_MAX - 1) want = false;
	bool stopped = !want;
	int at = 0, todo = 0;
	for (int i = 0; i < n_ent; ++i) todo += want && FILES[ent[i]].take;
	/* walk through in ascending order; a file of the same number in the order it was opened */
	while (todo && !stopped) {
		unsigned long min = ~0ul;
		for (int i = 0; i < n_ent; ++i)
			if (!seen[i] && FILES[ent[i]].take && FILES[ent[i]].num < min) min = FILES[ent[i]].num;
		int f = -1, toolong = -1;
		for (int i = 0; i < n_ent; ++i)
			if (!seen[i] && FILES[ent[i]].take && FILES[ent[i]].num == min) {
				if (plen + 1 + strlen(FILES[ent[i]].name) > PATH_MAX - 1) toolong = i;
				if (at < n_opened && opened[at] == i) f = i;
			}
		if (f < 0 && toolong >= 0) {
			seen[toolong] = true; --todo;
			want = false;
			if (stop) stopped = true;
			continue;
		}
		if (f < 0) {
			mc_assert(at < n_opened, "a file with number %lu is not read", min);
			mc_fail("file %s is read, but one with number %lu is due", FILES[ent[opened[at]]].name, min);
		}
		++at;
		seen[f] = true; --todo;
		if (content[f] != 2 && content[f] != 4) { v.i = f + 100; v.given[O_INT] = true; }
		if (content[f] == 3 && !strict) { v.port = defs.port; }
		bool good = content[f] == 0 || content[f] == 4 || (content[f] == 3 && !strict);
		if (good) ++nfixed;
		else {
			want = false;
			if (stop) stopped = true;
		}
	}
	mc_assert(at == n_opened, "file '%s' is read", FILES[ent[opened[at]]].name);
	mc_assert(ok == want, "reading the directory %s", ok ? "succeeds" : "fails");
	for (int i = 0; i < 4; ++i) mc_assert((unsigned)fixed[i] == nfixed, "fix is called %d times, should be %u", fixed[i], nfixed);
	const char * d = val_diff(&v);
	mc_assert(!d, "%s", d);
	mc_eval(n_opened > 1);
	if (n_opened > 1) mc_sample("%d files opened: %s, %s ...", n_opened, FILES[ent[opened[0]]].name, FILES[ent[opened[1]]].name);
}
static int mode;
static void modes(void)
{
	one(mode & 1, mode & 2);
}
static void contents(int i)
{
	if (i == n_ent) { modes(); return; }
	if (!FILES[ent[i]].take) { content[i] = 0; contents(i + 1); return; }
	for (content[i] = 0; content[i] < 5; ++content[i]) contents(i + 1);
}
static void entries(int i, int n)
{
	if (i == n) { n_ent = n; contents(0); return; }
	for (ent[i] = 0; ent[i] < NF; ++ent[i]) {
		bool dup = false;
		for (int j = 0; j < i; ++j) dup |= ent[j] == ent[i];
		if (!dup) entries(i + 1, n);
	}
}
static char longpath[PATH_MAX + 10];
void mc_harness(void)
{
	mode = mc_choose(4, "strict, stop on error");
	cfg_setup(0xff, 0);
	on_open = opening;
	for (int i = 0; i < 4; ++i) CFG_registerSection(SEC[i]);
	path = "/dir";
	if (mc_param("paths", 0)) {
		static const int sets[][3] = { { 0, 2, -1 }, { 19, 15, 1 }, { 5, 0, -1 }, { -1 }, { 15, -1 } };
		for (int s = 0; s < 5; ++s)
			for (int l = PATH_MAX - 30; l < PATH_MAX + 4; ++l) {
				memset(longpath, 'p', l);
				longpath[0] = '/'; longpath[l] = 0;
				path = longpath;
				for (n_ent = 0; n_ent < 3 && sets[s][n_ent] >= 0; ++n_ent) ent[n_ent] = sets[s][n_ent];
				contents(0);
			}
		for (n_ent = 0; n_ent < 3; ++n_ent) {
			fail_scan = true;
			modes();
		}
	} else {
		int n = mc_param("files", 3);
		if (n > 0) {
			/* the first one in parallel */
			int parts = mc_param("parts", 1), part = mc_param("part", 0);
			for (ent[0] = part; ent[0] < NF; ent[0] += parts) entries(1, n);
		} else entries(0, 0);
	}
	CFG_unregisterAll();
	cfg_free();
	mc_assert(mc_heap_blocks() == 0, "memory leak");
}
