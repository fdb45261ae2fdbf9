// The ordered tree.  Inductive step: every valid red-black tree of up to MAX
// nodes (each shape and colouring is a path), over symbolic places among
// the keys, then one operation anywhere; the result is again a valid tree of
// exactly the expected nodes.  SEQ: sequences from the empty tree.  RANGES:
// lookups of any id among disjoint symbolic ranges.
#include "lib.h"
#ifndef MAX
#define MAX 9
#endif
static int RED, BLACK, n, budget;
static Slice s[MAX + 2];
static Mapping map;
// shape first (colour, children), in-order numbering afterwards
typedef struct N { struct N *l, *r; int red; } N;
static N* gen(int bh, int may_red)
{
	if (bh == 0) {
		if (!may_red || budget < 1 || !mse_choose(2, "leaf")) return NULL;
		N* x = calloc(1, sizeof(N)); budget--; x->red = 1; return x;
	}
	int red = may_red && mse_choose(2, "red");
	if (budget < 1) mse_end();
	N* x = calloc(1, sizeof(N)); budget--;
	x->red = red;
	int c = red ? bh : bh - 1;
	x->l = gen(c, !red); x->r = gen(c, !red);
	return x;
}
static RbtreeNode* place(N* x, RbtreeNode* p)
{
	if (!x) return NULL;
	RbtreeNode* l = place(x->l, NULL);
	RbtreeNode* t = &s[n].node; n++;
	RbtreeNode* r = place(x->r, NULL);
	t->l = l; t->r = r; t->p = p; t->color = x->red ? RED : BLACK;
	if (l) l->p = t;
	if (r) r->p = t;
	free(x);
	return t;
}
// black height, or the run ends with a violation
static int valid(RbtreeNode* x, RbtreeNode* p, int* count)
{
	if (!x) return 0;
	mse_assert(x->p == p, "a node's parent link");
	mse_assert(x->color == RED || x->color == BLACK, "a node is red or black");
	mse_assert(!(p && p->color == RED && x->color == RED), "a red node has no red child");
	mse_assert((*count)++ <= MAX + 1, "no cycle");
	int l = valid(x->l, x, count), r = valid(x->r, x, count);
	mse_assert(l == r, "every path has the same number of black nodes");
	return l + (x->color == BLACK);
}
static void check(Slice** want, int m)
{
	int count = 0;
	valid(map.tree.root, NULL, &count);
	mse_assert(count == m, "exactly the present elements");
	mse_assert(map.tree_count == m, "number of elements");
	if (map.tree.root) mse_assert(map.tree.root->color == BLACK, "the root is black");
	Slice* x = mapping_min(&map);
	for (int i = 0; i < m; i++) { mse_assert(x == want[i], "elements in order"); x = mapping_next(&map, x); }
	mse_assert(x == NULL, "traversal ends");
	x = mapping_max(&map);
	for (int i = m; i-- > 0;) { mse_assert(x == want[i], "elements in reverse order"); x = mapping_prev(&map, x); }
	mse_assert(x == NULL, "reverse traversal ends");
	int d = 0, lim = 0;
	while ((1 << lim) < m + 1) lim++;
	for (int i = 0; i < m; i++) { int k = 0; for (RbtreeNode* t = &want[i]->node; t; t = t->p) k++; if (k > d) d = k; }
	mse_assert(d <= 2 * lim, "logarithmic depth");
	mse_reach("valid");
}
static void colors(void)
{
	Slice a, b; Mapping m; mapping_init(&m);
	slice_init(&a, 1, 1); slice_init(&b, 2, 2);
	mapping_add(&m, &a); BLACK = a.node.color;
	mapping_add(&m, &b); RED = b.node.color;
}
void mse_main(void)
{
	colors();
	mapping_init(&map);
	Slice* w[MAX + 3];
#ifdef SEQ
	int total = 0, m = 0;
	for (int i = 0; i < SEQ; i++) {
		if (m && mse_choose(2, "remove")) {
			int k = mse_choose(m, "which");
			mapping_remove(&map, w[k]);
			for (int j = k; j + 1 < m; j++) w[j] = w[j + 1];
			m--;
		} else {
			Slice* x = &s[total++];
			uint64_t id = mse_u64("key");
			slice_init(x, id, id);
			for (int j = 0; j < m; j++) mse_assume(w[j]->min != id);
			mapping_add(&map, x);
			int k = 0; while (k < m && w[k]->min < id) k++;
			for (int j = m; j > k; j--) w[j] = w[j - 1];
			w[k] = x; m++;
		}
		check(w, m);
	}
	mse_reach("sequence");
#elif defined(RANGES)
	// disjoint ranges, added in any of several orders
	uint64_t at = 0;
	for (int i = 0; i < RANGES; i++) {
		uint64_t lo = mse_u64("min"), hi = mse_u64("max");
		mse_assume(lo <= hi); if (i) mse_assume(lo > at); at = hi;
		slice_init(&s[i], lo, hi);
	}
	int order = mse_choose(RANGES, "order");
	for (int i = 0; i < RANGES; i++) mapping_add(&map, &s[(i + order) % RANGES]);
	for (int i = 0; i < RANGES; i++) w[i] = &s[i];
	check(w, RANGES);
	uint64_t id = mse_u64("id");
	Slice *gte = mapping_gte(&map, id), *match = mapping_match(&map, id);
	int i = 0; while (i < RANGES && s[i].max < id) i++;
	mse_assert(gte == (i < RANGES ? &s[i] : NULL), "the first range that ends at or after the id");
	mse_assert(match == (i < RANGES && s[i].min <= id ? &s[i] : NULL), "the range that contains the id");
	mse_reach("looked up");
#else
	int bh = mse_choose(BH + 1, "height");
	budget = MAX;
	N* root = NULL;
	if (bh) { root = calloc(1, sizeof(N)); budget--; root->l = gen(bh - 1, 1); root->r = gen(bh - 1, 1); }
	map.tree.root = place(root, NULL);
	map.tree_count = n;
	for (int i = 0; i < n; i++) { s[i].min = s[i].max = 2 * i + 1; w[i] = &s[i]; }
	Slice* x = &s[n];
	switch (mse_choose(n ? 3 : 1, "operation")) {
	case 0: {
		uint64_t id = 2 * mse_in(0, n, "new key");
		slice_init(x, id, id);
		mapping_add(&map, x);
		int k = 0; while (k < n && w[k]->min < id) k++;
		for (int j = n; j > k; j--) w[j] = w[j - 1];
		w[k] = x;
		check(w, n + 1);
		mse_reach("inserted");
		break;
	}
	case 1: {
		int k = mse_choose(n, "which");
		mapping_remove(&map, w[k]);
		for (int j = k; j + 1 < n; j++) w[j] = w[j + 1];
		check(w, n - 1);
		mse_reach("removed");
		break;
	}
	case 2: {
		int k = mse_choose(n, "which");
		slice_init(x, w[k]->min, w[k]->max);
		mapping_replace(&map, w[k], x);
		w[k] = x;
		check(w, n);
		mse_reach("replaced");
		break;
	}
	}
#endif
}
