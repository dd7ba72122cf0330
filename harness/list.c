/* X01: all histories of list operations on 2 lists and a few elements.
 * KIND: 0 D, 1 DC, 2 S, 3 SC */
#include "common.h"
#include <stddef.h>
#include "util/list.h"

#ifndef KIND
#define KIND 1
#endif
#if KIND == 0
typedef struct LIST_ListD List;
typedef struct LIST_LinkD Link;
#elif KIND == 1
typedef struct LIST_ListDC List;
typedef struct LIST_LinkD Link;
#elif KIND == 2
typedef struct LIST_ListS List;
typedef struct LIST_LinkS Link;
#else
typedef struct LIST_ListSC List;
typedef struct LIST_LinkS Link;
#endif
#if defined(ECLIPSE) || !defined(HAS_GENERIC)
#define COUNTED 1
#define DOUBLE 1
#else
#define COUNTED (KIND & 1)
#define DOUBLE (KIND < 2)
#endif

enum { NE = 5, NL = 2 };
struct E { long before; Link link; long after; };
static struct E e[NE];
static List list[NL];
/* the model */
static int seq[NL][NE], len[NL];
static bool inUse[NE];
static int nE;

static struct E * item(Link * l) { return LIST_item(l, struct E, link); }

static void check(int l)
{
	List * L = &list[l];
	mc_assert(LIST_empty(L) == !len[l], "list %d: empty = %d with %d elements", l, LIST_empty(L), len[l]);
	Link * k;
	int i = 0;
	LIST_foreach(L, k) {
		mc_assert(i < len[l], "list %d: too many elements", l);
		mc_assert(item(k) == &e[seq[l][i]], "list %d: element %d is wrong", l, i);
		++i;
	}
	mc_assert(i == len[l], "list %d: %d instead of %d elements", l, i, len[l]);
	struct E * it;
	i = 0;
	LIST_foreachItem(L, it, link) {
		mc_assert(i < len[l] && it == &e[seq[l][i]], "list %d: item %d is wrong", l, i);
		++i;
	}
	mc_assert(i == len[l], "list %d: %d instead of %d items", l, i, len[l]);
	for (i = 0; i <= len[l]; ++i) {
		Link * w = i < len[l] ? LIST_link(&e[seq[l][i]], link) : LIST_end(L);
		mc_assert(LIST_at(L, i) == w, "list %d: at(%d) is wrong", l, i);
		mc_assert(LIST_forward(LIST_begin(L), i) == w, "list %d: forward(%d) is wrong", l, i);
		mc_assert(LIST_itemSafe(L, w, struct E, link) == (i < len[l] ? &e[seq[l][i]] : NULL), "list %d: itemSafe(%d) is wrong", l, i);
	}
	for (i = 0; i < len[l]; ++i) {
		int j = i + 1;
		it = &e[seq[l][i]];
		LIST_foreachItem_continue(L, it, link) {
			mc_assert(j < len[l] && it == &e[seq[l][j]], "list %d: continued at %d, item %d is wrong", l, i, j);
			++j;
		}
		mc_assert(j == len[l], "list %d: continued at %d, ended at %d", l, i, j);
	}
#if DOUBLE
	Link * link;
	i = len[l];
	LIST_foreachRev(L, link) {
		mc_assert(i > 0 && item(link) == &e[seq[l][i - 1]], "list %d: element %d is wrong in reverse", l, i - 1);
		--i;
	}
	mc_assert(i == 0, "list %d: %d elements missing in reverse", l, i);
	i = len[l];
	LIST_foreachItemRev(L, it, link) {
		mc_assert(i > 0 && it == &e[seq[l][i - 1]], "list %d: item %d is wrong in reverse", l, i - 1);
		--i;
	}
	mc_assert(i == 0, "list %d: %d items missing in reverse", l, i);
	for (i = 0; i <= len[l]; ++i)
		mc_assert(LIST_rewind(LIST_beginRev(L), i) == (i < len[l] ? LIST_link(&e[seq[l][len[l] - 1 - i]], link) : LIST_end(L)), "list %d: rewind(%d) is wrong", l, i);
	for (i = 0; i < len[l]; ++i) {
		int j = i;
		it = &e[seq[l][i]];
		LIST_foreachItemRev_continue(L, it, link) {
			mc_assert(j > 0 && it == &e[seq[l][j - 1]], "list %d: continued in reverse at %d, item %d is wrong", l, i, j - 1);
			--j;
		}
		mc_assert(j == 0, "list %d: continued in reverse at %d, ended at %d", l, i, j);
	}
#endif
}
static void forget(int x)
{
	inUse[x] = false;
	memset(&e[x].link, 0xee, sizeof e[x].link);
}
static void m_insert(int l, int pos, int x)
{
	for (int i = len[l]; i > pos; --i) seq[l][i] = seq[l][i - 1];
	seq[l][pos] = x;
	++len[l];
	inUse[x] = true;
}
static int m_remove(int l, int pos)
{
	int x = seq[l][pos];
	--len[l];
	for (int i = pos; i < len[l]; ++i) seq[l][i] = seq[l][i + 1];
	seq[l][len[l]] = 0;
	return x;
}
/* elements only differ by their addresses */
static int pick_free(void)
{
	for (int i = 0; i < nE; ++i) if (!inUse[i]) return i;
	mc_prune();
}
static Link * mid(int l, int pos) { return pos < len[l] ? &e[seq[l][pos]].link : LIST_end(&list[l]); }

void mc_harness(void)
{
	nE = mc_param("elems", 4);
	for (int i = 0; i < nE; ++i) { e[i].before = 0x1111; e[i].after = 0x2222; forget(i); }
#if KIND == 0
	static List l0 = LIST_ListD_INIT(l0);
#elif KIND == 1
	static List l0 = LIST_ListDC_INIT(l0);
#elif KIND == 2
	static List l0 = LIST_ListS_INIT(l0);
#else
	static List l0 = LIST_ListSC_INIT(l0);
#endif
	mc_assert(LIST_empty(&l0) && LIST_begin(&l0) == LIST_end(&l0), "statically initialised list is not empty");
	memset(list, 0xdd, sizeof list);
	for (int l = 0; l < NL; ++l) LIST_init(&list[l]);
	int depth = mc_param("depth", 8);
	bool lazy = mc_param("lazy", 0);
	(void)lazy;
	for (int step = 0; step < depth; ++step) {
		int l = mc_choose(NL, "list"), o = !l, x, p;
		List * L = &list[l], * O = &list[o];
		int op = mc_choose(16, "operation");
		int left = depth - step; (void)left;
		switch (op) {
		case 0:
			x = pick_free();
			LIST_push(L, LIST_link(&e[x], link));
			m_insert(l, len[l], x);
			break;
		case 1:
			x = pick_free();
			LIST_unshift(L, LIST_link(&e[x], link));
			m_insert(l, 0, x);
			break;
		case 2: {
			Link * k = LIST_shift(L);
			if (!len[l]) { mc_assert(k == LIST_end(L), "shift of an empty list"); break; }
			x = m_remove(l, 0);
			mc_assert(k == &e[x].link, "shift returned the wrong element");
			forget(x);
			break; }
		case 3:
			LIST_concatenatePush(L, O);
			while (len[o]) { x = m_remove(o, 0); m_insert(l, len[l], x); }
			break;
		case 4:
			LIST_concatenateUnshift(L, O);
			for (int k = 0; len[o]; ++k) { x = m_remove(o, 0); m_insert(l, k, x); }
			break;
		case 5: {
			/* from a vector of free elements, forgetting what was in the list */
			int from = mc_choose(nE, "first"), n = mc_choose(nE - from + 1, "number");
			while (len[l]) forget(m_remove(l, 0));
			for (int k = from; k < from + n; ++k) if (inUse[k]) mc_prune();
			LIST_fromVector(L, &e[from], link, n);
			for (int k = from; k < from + n; ++k) m_insert(l, len[l], k);
			break; }
		case 6:
			LIST_init(L);
			while (len[l]) forget(m_remove(l, 0));
			break;
		case 7:
#if COUNTED
			mc_assert(LIST_length(L) == (size_t)len[l], "list %d: length %d instead of %d", l, (int)LIST_length(L), len[l]);
#endif
			break;
#if DOUBLE
		case 8: {
			Link * k = LIST_pop(L);
			if (!len[l]) { mc_assert(k == LIST_end(L), "pop of an empty list"); break; }
			x = m_remove(l, len[l] - 1);
			mc_assert(k == &e[x].link, "pop returned the wrong element");
			forget(x);
			break; }
		case 9:
			if (!len[l]) mc_prune();
			p = mc_choose(len[l], "position");
			LIST_unlink(L, mid(l, p));
			forget(m_remove(l, p));
			break;
		case 10:
			p = mc_choose(len[l] + 1, "position");
			x = pick_free();
			LIST_insert(L, mid(l, p), LIST_link(&e[x], link));
			m_insert(l, p, x);
			break;
		case 11: case 12: case 13: case 14: {
			/* separate, forgetting what was in the other list */
			bool from = op & 1, lz = op >= 13;
			if (lz && !lazy) mc_prune();
			p = mc_choose(len[l] + 1, "pivot");
			Link * pv = mid(l, p);
			while (len[o]) forget(m_remove(o, 0));
			memset(O, mc_param("fill", 0xdd), sizeof *O);
			if (from) {
#if KIND == 1
				if (lz) LIST_separateFromDC(L, O, pv); else
#endif
				LIST_separateFrom(L, O, pv);
				while (len[l] > p) { x = m_remove(l, p); m_insert(o, len[o], x); }
			} else {
#if KIND == 1
				if (lz) LIST_separateUntilDC(L, O, pv); else
#endif
				LIST_separateUntil(L, O, pv);
				for (int k = 0; k < p; ++k) { x = m_remove(l, 0); m_insert(o, len[o], x); }
			}
			break; }
		case 15: {
			/* unlink while iterating */
			if (!len[l]) mc_prune();
			int mask = 1 + mc_choose((1 << len[l]) - 1, "which");
			bool rev = mc_choose(2, "in reverse");
			Link * link, * n;
			int orig = len[l], k = 0, rm = 0;
			if (!rev) {
				LIST_foreachSafe(L, link, n) {
					mc_assert(k < orig, "safe iteration is too long");
					if (mask >> k & 1) {
						mc_assert(link == mid(l, k - rm), "safe iteration is wrong");
						LIST_unlink(L, link);
						forget(m_remove(l, k - rm));
						++rm;
					} else
						mc_assert(link == mid(l, k - rm), "safe iteration is wrong");
					++k;
				}
			} else {
				LIST_foreachRevSafe(L, link, n) {
					mc_assert(k < orig, "safe iteration in reverse is too long");
					mc_assert(link == mid(l, orig - 1 - k), "safe iteration in reverse is wrong");
					if (mask >> k & 1) {
						LIST_unlink(L, link);
						forget(m_remove(l, orig - 1 - k));
					}
					++k;
				}
			}
			mc_assert(k == orig, "safe iteration ended after %d of %d", k, orig);
			break; }
#endif
		default:
			mc_prune();
		}
		for (int i = 0; i < NL; ++i) check(i);
		for (int i = 0; i < nE; ++i) {
			mc_assert(e[i].before == 0x1111 && e[i].after == 0x2222, "element %d overwritten", i);
			if (!inUse[i])
				for (unsigned j = 0; j < sizeof e[i].link; ++j)
					mc_assert(((unsigned char *)&e[i].link)[j] == 0xee, "element %d was changed although it is in no list", i);
		}
		mc_eval(len[0] > 1 || len[1] > 1);
#if COUNTED
		if (step == depth - 1)
			for (int i = 0; i < NL; ++i)
				mc_assert(LIST_length(&list[i]) == (size_t)len[i], "list %d: length %d instead of %d", i, (int)LIST_length(&list[i]), len[i]);
#endif
	}
	uint64_t h = 0;
	for (int l = 0; l < NL; ++l) { h = h * 8 + 7; for (int i = 0; i < len[l]; ++i) h = h * 8 + seq[l][i]; }
	mc_outcome("lists", h);
}
