/* E01: every byte string over an alphabet around the escape byte */
#include "common.h"
#include "core/beast.h"

static void encode(const uint8_t * src, unsigned n, bool nt)
{
	uint8_t * in = mc_malloc(n), * out = mc_malloc(2 * n);
	memcpy(in, src, n);
	memset(out, 0x5c, 2 * n);
	unsigned e = 0;
	for (unsigned i = 0; i < n; ++i) e += src[i] == 0x1a;
	size_t r = BEAST_encode(out, in, n);
	mc_assert(r == n + e, "length %zu reported for %u bytes with %u escapes", r, n, e);
	mc_assert(!memcmp(in, src, n), "input changed");
	unsigned o = 0;
	for (unsigned i = 0; i < n; ++i) {
		mc_assert(out[o++] == src[i], "byte %u differs", i);
		if (src[i] == 0x1a) mc_assert(out[o++] == 0x1a, "byte %u is not escaped", i);
	}
	for (; o < 2 * n; ++o)
		mc_assert(out[o] == 0x5c, "written beyond the reported length");
	mc_free(in); mc_free(out);
	mc_eval(nt && e);
}
void mc_harness(void)
{
	static uint8_t b[600];
	if (mc_param("len", 9)) {
		unsigned n = mc_choose(mc_param("len", 9) + 1, "length");
		int k = mc_param("alpha", 3);
		static const uint8_t al[] = { 0x1a, 0x31, 0x1b, 0x9a, 0x00 };
		for (unsigned i = 0; i < n; ++i) b[i] = al[mc_choose(k, "byte")];
		encode(b, n, true);
		mc_outcome("len", n);
		mc_sample("length %u, first byte %02x", n, n ? b[0] : 0);
		return;
	}
	/* longer strings: up to 3 escapes at any position, any byte value */
	static const unsigned lens[] = { 16, 17, 23, 31, 32, 33, 40, 46, 64, 65, 128, 255, 256, 513 };
	unsigned n = lens[mc_choose(sizeof lens / sizeof *lens, "length")];
	for (unsigned i = 0; i < n; ++i) b[i] = i * 37 + 11 == 0x1a ? 0 : i * 37 + 11;
	unsigned a = mc_choose(n, "first escape");
	b[a] = 0x1a;
	encode(b, n, true);
	for (unsigned k = 0; k < n; ++k) {
		uint8_t o = b[k];
		b[k] = 0x1a; encode(b, n, true);
		if (k + 1 < n) { uint8_t p = b[k + 1]; b[k + 1] = 0x1a; encode(b, n, true); b[k + 1] = p; }
		b[k] = o;
	}
	uint8_t o = b[a];
	for (unsigned v = 0; v < 256; ++v) { b[a] = v; encode(b, n, true); }
	b[a] = o;
	mc_outcome("len", n);
}
