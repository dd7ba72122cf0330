/* O01: every file composed of up to a number of tokens is read as it is meant */
#include <ctype.h>
#include "cfgmock.h"

/* ---- what a file means ---- */
struct ref { struct vals v; bool ok; int assigned; };
static bool same(const char * name, const char * s, size_t n)
{
	size_t l = strlen(name);
	if (l != n) return false;
	for (size_t i = 0; i < n; ++i)
		if (tolower((unsigned char)name[i]) != tolower((unsigned char)s[i])) return false;
	return true;
}
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
/* number in C notation, garbage after it ignored */
static bool number(const char * s, size_t n, uint64_t max, uint64_t * out)
{
	size_t i = 0;
	bool neg = false, any = false, big = false;
	if (n > 19) return false;
	if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	int base = 10;
	if (i < n && s[i] == '0') {
		base = 8;
		if (i + 2 < n && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16) { base = 16; i += 2; }
	}
	uint64_t r = 0;
	for (; i < n && digit(s[i]) < base; ++i) {
		any = true;
		r = r * base + digit(s[i]);
		if (r > 0xffffffff) { big = true; r = 0xffffffff; }
	}
	if (!any || big || (neg && r) || r > max) return false;
	*out = r;
	return true;
}
static bool assign(struct vals * v, int o, const char * s, size_t n)
{
	uint64_t x;
	char buf[80];
	switch (o) {
	case O_STR: case O_STR2: {
		size_t max = o == O_STR ? STRLEN : 2;
		if (n >= max) return false;
		char * d = o == O_STR ? v->str : v->str2;
		memcpy(d, s, n); d[n] = 0;
		return true;
	}
	case O_INT: if (!number(s, n, 0xffffffff, &x)) return false; v->i = x; return true;
	case O_TWO: if (!number(s, n, 0xffffffff, &x)) return false; v->two = x; return true;
	case O_K: if (!number(s, n, 0xffffffff, &x)) return false; v->k = x; return true;
	case O_PORT: if (!number(s, n, 0xffff, &x)) return false; v->port = x; return true;
	case O_BOOL:
		if (same("true", s, n) || same("1", s, n)) { v->b = true; return true; }
		if (same("false", s, n) || same("0", s, n)) { v->b = false; return true; }
		return false;
	case O_DBL: {
		if (n >= 60) return false;
		memcpy(buf, s, n); buf[n] = 0;
		char * e;
		double d = strtod(buf, &e);
		if (e == buf) return false;
		v->d = d;
		return true;
	}
	}
	return false;
}
static void meaning(struct ref * r, const char * f, size_t n, bool strict)
{
	size_t p = 0;
	const char * sec = NULL;
	size_t seclen = 0;
	bool known = false;
	r->ok = false;
	while (p < n) {
		size_t e = p;
		while (e < n && f[e] != '\n') ++e;
		size_t next = e < n ? e + 1 : e;
		while (p < e && f[p] == '\r') ++p;
		if (p == e || f[p] == ';' || f[p] == '#') { p = next; continue; }
		if (f[p] == '[') {
			size_t c = p;
			while (c < e && f[c] != ']') ++c;
			if (c == e) return;
			if (c + 1 != e && !(c + 2 == e && f[c + 1] == '\r')) return;
			sec = f + p + 1; seclen = c - p - 1;
			known = false;
			for (int i = 0; i < 4; ++i) known |= same(secname[i], sec, seclen);
			p = next;
			continue;
		}
		size_t q = p;
		while (q < e && f[q] != '=') ++q;
		if (q == e) {
			if (strict) return;
			p = next;
			continue;
		}
		if (known) {
			size_t k = q;
			while (k > p + 1 && blank(f[k - 1])) --k;
			size_t a = q + 1, b = e;
			while (a < b && blank(f[a])) ++a;
			if (b > a && f[b - 1] == '\r') --b;
			for (int o = 0; o < NOPT; ++o) {
				if (!same(secname[optsec[o]], sec, seclen) || !same(optname[o], f + p, k - p)) continue;
				if (a == b) val_default(&r->v, o);
				else if (assign(&r->v, o, f + a, b - a)) { r->v.given[o] = true; ++r->assigned; }
				else if (strict) return;
				else val_default(&r->v, o);
				break;
			}
		}
		p = next;
	}
	r->ok = true;
}

static bool strict, priorgiven, warn;
static struct vals prior;
static void one(const char * f, size_t n)
{
	struct ref r = { .v = prior };
	meaning(&r, f, n, strict);
	if (fault && (n || fault != FAULT_MAP)) { r.ok = false; r.v = prior; }
	val_apply(&prior);
	memset(fixed, 0, sizeof fixed);
	file_data = f; file_len = n;
	bool ok = CFG_readFile("/cfg", warn, warn, !strict);
	file_closed();
	mc_assert(ok == r.ok, "%s of '%s' %s", strict ? "strict reading" : "reading", esc(f, n), ok ? "succeeds" : "fails");
	val_check(&r.v, "file", f, n);
	for (int i = 0; i < 4; ++i)
		mc_assert(fixed[i] == r.ok, "file '%s': fix was called %d times", esc(f, n), fixed[i]);
	mc_eval(r.assigned);
	if (r.assigned) mc_sample("'%s' -> %s", esc(f, n), ok ? "success" : "failure");
}

/* ---- files ---- */
static const char * const T_chars[] = { "[", "]", "s", "k", "=", "\n", "\r", " ", ";", "1", NULL };
static const char * const T_chars2[] = { "[s]", "k", "=", "\n", "\r", " ", "\t", "#", "a", "]", NULL };
static const char * const T_tokens[] = { "[Net]", "[nEt", "]", "[zz]", "[x y]\n", "Int", "sTR", "=", " ", "\n", "\r\n", "\r", "5", "abcdef", ";", "k", NULL };
static const char * const T_lines[] = { "[Net]\n", "[net]\r\n", "[zz]\n", "[x y]", "[NE]\n", "[]\n", "Int=5\n", "INT = 6\r\n", "Int=\n", "Str=abc\r\n", "Str= \r\n", "Str\t=\n",
	"k=9\n", "k=9", "; Int=8\n", "#[zz]\n", "\n", "nonsense\n", "nonsense", "Int=x\n", "two=3\n", "Port=70000\n", "Bool=yes\n", "BOOL=False", "Bool=0\r\n", "Dbl=-0.5", "Dbl=e\n", "[Net\n", "[Net] \n", "[s]\n", "Int=7=8\n", NULL };
static const char * const * const tables[] = { T_chars, T_chars2, T_tokens, T_lines };
static void seqs(void)
{
	const char * const * T = tables[mc_param("table", 0)];
	const char * pre = mc_param_str("pre", "");
	char pbuf[40];
	size_t plen = 0;
	for (; *pre; ++pre) pbuf[plen++] = *pre == '+' ? '\n' : *pre == '_' ? ' ' : *pre;
	int nt = 0;
	while (T[nt]) ++nt;
	int len = mc_param("len", 5), part = mc_param("part", 0), parts = mc_param("parts", 1);
	char f[200];
	int idx[16];
	for (int l = 0; l <= len; ++l) {
		if (l < 1 && part) continue;
		memset(idx, 0, sizeof idx);
		if (l) idx[0] = part;
		for (;;) {
			if (l && idx[0] >= nt) break;
			size_t n = plen;
			memcpy(f, pbuf, plen);
			for (int i = 0; i < l; ++i) {
				size_t m = strlen(T[idx[i]]);
				memcpy(f + n, T[idx[i]], m);
				n += m;
			}
			one(f, n);
			int i = l - 1;
			while (i > 0 && ++idx[i] == nt) idx[i--] = 0;
			if (i == 0) idx[0] += parts;
			if (l == 0) break;
		}
	}
}
static void grid(void)
{
	static const char * const heads[] = { "[Net]\n", "[nET]\r\n", "[x y]\n", "[s]\n", "\r[s]\r\n", "", "[zz]\n", "[Net\n", "[Net]x\n", "[NET]\r\r\n", "[]\n", "[Ne]\n", "[Nett]\n", "]Net[\n", " [s]\n", "[[s]\n", "[s]]\n", "; [s]\n", "[Net];\n" };
	static const char * const keys[] = { "Str", "INT", "port", "Bool", "dBL", "k", "Two", "I", "Intx", "", " Int", "Int\t ", "In t", "=", "Str\v", NULL };
	static const char * const seps[] = { "=", " = ", "=\t\v", " ", "" };
	static const char * const vals[] = { "", "0", "5", "00017", "0x1F", "0X", "08", "-1", "-0", "+9", "65535", "65536", "4294967295", "4294967296", "4294967297", "99999999999", "1099511627776",
		"18446744073709551615", "18446744073709551617", "99999999999999999999999", "0000000000000000007", "-4294967295", "-18446744073709551615", "5x", "5 ", "5 6", "x5", "x", " ", "true", "TRUE", "tru", "truee", "False", "1 ", "1.", "-2.75e2", "1e999", "nan", ".", "e5", "-",
		"0.0000001234567890123456789012345678901234567890123456789", "a", "ab", "abcde", "abcdef", "abcd ", "a=b", "=", "a;b", "a#b", "[s]", "\x80\xff", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "\r", "a\rb", "\r\r", "\"", NULL };
	static const char * const eols[] = { "\n", "\r\n", "", "\r", "\n\n", "\r\r\n", "\n;", "\n#x", "\nInt=4", "\n[s]\nk=y\n", "\n[s", "\nx", "\n[x y]\r\nK=8\r" };
	char f[200];
#define N(a) (int)(sizeof a / sizeof *a)
	int part = mc_param("part", 0), parts = mc_param("parts", 1);
	for (int h = part; h < N(heads); h += parts)
		for (int k = 0; keys[k]; ++k)
			for (int s = 0; s < N(seps); ++s)
				for (int v = 0; vals[v]; ++v)
					for (int e = 0; e < N(eols); ++e)
						one(f, snprintf(f, sizeof f, "%s%s%s%s%s", heads[h], keys[k], seps[s], vals[v], eols[e]));
	/* every byte everywhere */
	if (part) return;
	const char base[] = "[Net]\nInt=5\nStr=abc\nDbl=12\nBool=1\n[s]\nk=q\n";
	for (unsigned i = 0; i < sizeof base - 1; ++i) {
		memcpy(f, base, sizeof base);
		for (unsigned c = 0; c < 256; ++c) {
			f[i] = c;
			one(f, sizeof base - 1);
			one(f, i + 1);
		}
	}
}
void mc_harness(void)
{
	strict = mc_choose(2, "strict"); warn = mc_choose(2, "warnings");
	priorgiven = mc_choose(2, "given before");
	fault = mc_param("faults", 0) ? mc_choose(4, "fault") : 0;
	cfg_setup(mc_choose(2, "optional") ? 0xff : 0x21, 0);
	prior = prior0;
	for (int i = 0; i < NOPT; ++i) prior.given[i] = priorgiven;
	for (int i = 0; i < 4; ++i) CFG_registerSection(SEC[i]);
	unsigned blocks = mc_heap_blocks();
	if (mc_param("grid", 0)) grid(); else seqs();
	mc_assert(mc_heap_blocks() == blocks, "memory leak");
	CFG_unregisterAll();
	cfg_free();
	mc_assert(mc_heap_blocks() == 0, "memory leak");
}
