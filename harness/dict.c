/* Random histories of dictionary operations against ordered arrays. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <hob3lbase/dict.h>
typedef long long ll; typedef unsigned long long ull;
static ull rs; static unsigned cur; static int nviol, bad; static char hist[600]; static int histn;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static unsigned R(unsigned n) { return n ? rnd() % n : 0; }
#define VIOL(key, ...) do { if (!bad) { nviol++; bad = 1; printf("VIOL seed=%u key=%s ", cur, key); printf(__VA_ARGS__); printf(" [last operations: %s]\n", hist); } } while (0)
static void H(char const *op) { size_t l = strlen(hist); if (l > 500) { memmove(hist, hist + 200, l - 199); l -= 200; } snprintf(hist + l, sizeof hist - l, " %s", op); histn++; }

typedef struct { cp_dict_t n; int key; ull val, hash, pw; unsigned size; int where; } E;
#define BOX(p) ((E*)(void*)(p))
#define MAXT 5
static E **seq[MAXT]; static int cnt[MAXT]; static cp_dict_t *root[MAXT], *mn[MAXT], *mx[MAXT];
static E *pool; static int npool, cap; static E **freeE; static int nfree; static ull idc;
static int useaug; static ll n_ops, n_checks, n_nodes, n_ev[10], n_opk[32]; static int maxn, maxh;
static void upd(cp_dict_t *a) {
    if (!a) return; E *e = BOX(a), *l = a->edge[0] ? BOX(a->edge[0]) : NULL, *r = a->edge[1] ? BOX(a->edge[1]) : NULL;
    e->size = 1 + (l ? l->size : 0) + (r ? r->size : 0);
    ull h = l ? l->hash : 0, p = l ? l->pw : 1; h = h * 1000003ULL + e->val; p *= 1000003ULL;
    if (r) { h = h * r->pw + r->hash; p *= r->pw; } e->hash = h; e->pw = p; }
static void ev(cp_dict_aug_t *g, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t t) {
    (void)g; n_ev[(unsigned)t < 10 ? t : 9]++;
    if (!a) { VIOL("aug-null", "augmentation event %d without a node", (int)t); return; }
    switch (t) {
    case CP_DICT_AUG_LEFT: case CP_DICT_AUG_RIGHT: upd(b); upd(a); break;
    case CP_DICT_AUG_NOP: case CP_DICT_AUG_ADD: case CP_DICT_AUG_JOIN: case CP_DICT_AUG_CUT_LEAF: upd(a); break;
    case CP_DICT_AUG_NOP2: upd(a); upd(a->parent); break;
    case CP_DICT_AUG_FINI: for (int k = 0; a && k < 1000; k++) { upd(a); a = a->parent; } break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_SPLIT: { E *e = BOX(a); e->size = 1; e->hash = e->val; e->pw = 1000003ULL; break; }
    } }
static cp_dict_aug_t augv = { ev };
#define AUG (useaug ? &augv : NULL)
static int cmpk(int *a, cp_dict_t *b, int *u) { (void)u; return *a < BOX(b)->key ? -1 : *a > BOX(b)->key; }
static int cmpn(cp_dict_t *a, cp_dict_t *b, int *u) { return cmpk(&BOX(a)->key, b, u); }
static int nouser;

static E *fresh(int key) {
    if (!nfree) return NULL; int i = (int)R((unsigned)nfree); E *e = freeE[i]; freeE[i] = freeE[--nfree];
    if (e->n.parent || e->n.edge[0] || e->n.edge[1] || e->n.stat) VIOL("not-cleared", "a removed node keeps links");
    memset(&e->n, 0, sizeof e->n); e->key = key; e->val = ++idc * 2654435761ULL; e->size = 1; e->hash = e->val; e->pw = 1000003ULL; return e; }
static void drop(E *e) { freeE[nfree++] = e; e->where = -1; }
static void ins(int t, int i, E *e) { memmove(seq[t] + i + 1, seq[t] + i, sizeof(E*) * (size_t)(cnt[t] - i)); seq[t][i] = e; cnt[t]++; e->where = t; }
static void del(int t, int i) { memmove(seq[t] + i, seq[t] + i + 1, sizeof(E*) * (size_t)(cnt[t] - i - 1)); cnt[t]--; }
static int lower(int t, int k) { int i = 0; while (i < cnt[t] && seq[t][i]->key < k) i++; return i; }
static int upper(int t, int k) { int i = 0; while (i < cnt[t] && seq[t][i]->key <= k) i++; return i; }

static int pos; /* in-order position */
static int walk(int t, cp_dict_t *n, cp_dict_t *par, int depth) { /* returns black height or -1 */
    if (!n) return 0;
    if (depth > maxh) maxh = depth;
    if (depth > 200) { VIOL("depth", "tree deeper than 200"); return -1; }
    if (n->parent != par) { VIOL("parent", "wrong parent link at depth %d", depth); return -1; }
    for (int i = 0; i < 2; i++) if (n->edge[i] && cp_dict_is_red(n) && cp_dict_is_red(n->edge[i])) { VIOL("red-red", "red node with a red child"); return -1; }
    int l = walk(t, n->edge[0], n, depth + 1); if (l < 0) return -1;
    if (pos >= cnt[t] || &seq[t][pos]->n != n) { VIOL("order", "wrong node at position %d of %d", pos, cnt[t]); return -1; } pos++;
    int r = walk(t, n->edge[1], n, depth + 1); if (r < 0) return -1;
    if (l != r) { VIOL("black-height", "black heights %d and %d", l, r); return -1; }
    l += !cp_dict_is_red(n);
    if (cp_dict_black_height(n) != (size_t)l) { VIOL("stored-height", "stored black height %zu, real %d", (size_t)cp_dict_black_height(n), l); return -1; }
    if (useaug) { E *e = BOX(n); ull h = e->hash, p = e->pw; unsigned s = e->size; upd(n); if (h != e->hash || p != e->pw || s != e->size) { VIOL("augmentation", "subtree summary not up to date at depth %d of %d nodes", depth, cnt[t]); return -1; } }
    return l; }
static void check(int t) {
    n_checks++; n_nodes += cnt[t]; if (cnt[t] > maxn) maxn = cnt[t];
    if ((root[t] == NULL) != (cnt[t] == 0)) { VIOL("empty", "root %s, %d elements", root[t] ? "set" : "NULL", cnt[t]); return; }
    if (!cnt[t]) { if (cp_dict_min(root[t]) || cp_dict_max(root[t]) || cp_dict_root(NULL) || cp_dict_black_height(NULL)) VIOL("null", "operation on the empty tree"); mn[t] = mx[t] = NULL; return; }
    pos = 0; if (walk(t, root[t], NULL, 0) < 0) return;
    if (pos != cnt[t]) { VIOL("lost", "%d of %d elements found", pos, cnt[t]); return; }
    if (cp_dict_min(root[t]) != &seq[t][0]->n || cp_dict_max(root[t]) != &seq[t][cnt[t] - 1]->n) VIOL("minmax", "wrong minimum or maximum");
    int i = 0; for (cp_dict_each(e, root[t])) { if (i >= cnt[t] || e != &seq[t][i]->n) { VIOL("iterate", "forward iteration wrong at %d", i); return; } i++; }
    if (i != cnt[t]) { VIOL("iterate", "forward iteration ends at %d of %d", i, cnt[t]); return; }
    for (cp_dict_each_rev(e, root[t])) { i--; if (i < 0 || e != &seq[t][i]->n) { VIOL("iterate", "backward iteration wrong at %d", i); return; } }
    if (i) { VIOL("iterate", "backward iteration ends at %d", i); return; }
    E *e = seq[t][R((unsigned)cnt[t])];
    if (cp_dict_root(&e->n) != root[t] || !cp_dict_contains(root[t], &e->n) || !cp_dict_may_contain(root[t], &e->n)) VIOL("root", "root of a member is wrong");
    if (cp_dict_is_member(&e->n) != (cnt[t] > 1) || cp_dict_is_root(&e->n) != (&e->n == root[t]) || cp_dict_is_singleton(&e->n) != (cnt[t] == 1)) VIOL("member", "membership queries");
}
static void setmm(int t) { mn[t] = cp_dict_min(root[t]); mx[t] = cp_dict_max(root[t]); }
static void ckmm(int t) { if (mn[t] != (cnt[t] ? &seq[t][0]->n : NULL) || mx[t] != (cnt[t] ? &seq[t][cnt[t]-1]->n : NULL)) VIOL("cached-minmax", "the updated minimum or maximum is wrong"); }
static int K; /* key range */
static int op(void) {
    int t = (int)R(MAXT), k = (int)R((unsigned)K), o = (int)R(20), n = cnt[t]; E *e; int i; cp_dict_t *r;
    if (R(12) == 0 && n > 2) { o = 8 + (int)R(4); } if (o == 12 && R(8)) o = (int)R(5);
    n_opk[o]++; n_ops++;
    switch (o) {
    case 0: case 1: case 2: case 3: case 4: { /* insert variants */
        if (!(e = fresh(k))) return t; int dup = (int)R(3) - 1; H(dup < 0 ? "insert-1" : dup ? "insert+1" : "insert0");
        int lo = lower(t, k), up = upper(t, k);
        if (R(4) == 0) { k = e->key = n ? (R(2) ? seq[t][0]->key - (int)R(2) : seq[t][n-1]->key + (int)R(2)) : k; lo = lower(t, k); up = upper(t, k); }
        setmm(t);
        switch (o) {
        case 0: r = cp_dict_insert_aug(&e->n, &root[t], cmpn, &nouser, dup, AUG); break;
        case 1: r = cp_dict_insert_by_aug(&e->n, &k, &root[t], cmpk, &nouser, dup, AUG); break;
        case 2: r = cp_dict_insert_update_aug(&e->n, &root[t], &mn[t], &mx[t], cmpn, &nouser, dup, AUG); break;
        case 3: r = cp_dict_insert_update_by_aug(&e->n, &k, &root[t], &mn[t], &mx[t], cmpk, &nouser, dup, AUG); break;
        default: { /* find_ref + insert_ref */
            cp_dict_ref_t ref; memset(&ref, 0x55, sizeof ref); int d = (int)R(5) - 2; r = cp_dict_find_ref(&ref, &k, root[t], cmpk, &nouser, d);
            if (lo == up ? r != NULL : (d == 0 ? !r || BOX(r)->where != t || BOX(r)->key != k : d == -2 ? r != &seq[t][lo]->n : d == 2 ? r != &seq[t][up-1]->n : 0)) { VIOL("find-ref", "dup=%d: wrong result", d); return t; }
            if (d == -1 && r && r != &seq[t][lo]->n) { VIOL("find-ref", "dup=-1: wrong result"); return t; }
            if (d == 1 && r && r != &seq[t][up-1]->n) { VIOL("find-ref", "dup=1: wrong result"); return t; }
            dup = d; if (d == 0 && r) { e->n.parent = NULL; drop(e); return t; }
            if (ref.parent == NULL && n) { VIOL("find-ref", "no reference although the tree is not empty"); return t; }
            if ((ref.path & 5) == 0 && (d < 0 ? lo : up) != n) VIOL("find-path", "path %u although the position is not the last", ref.path);
            if ((ref.path & 6) == 0 && (d < 0 ? lo : up) != 0) VIOL("find-path", "path %u although the position is not the first", ref.path);
            if ((ref.path & 5) != 0 && (d < 0 ? lo : up) == n && n) VIOL("find-path", "path %u although the position is the last", ref.path);
            if ((ref.path & 6) != 0 && (d < 0 ? lo : up) == 0 && n) VIOL("find-path", "path %u although the position is the first", ref.path);
            cp_dict_insert_ref_aug(&e->n, &ref, &root[t], AUG); r = NULL; break; } }
        if (dup == 0 && up > lo) { if (!r || BOX(r)->where != t || BOX(r)->key != k) { VIOL("insert-dup", "inserting an existing key without duplicates"); return t; }
            if (e->n.parent || e->n.edge[0] || e->n.edge[1]) { VIOL("insert-dup", "inserted although it existed"); return t; } if (o == 2 || o == 3) ckmm(t); drop(e); return t; }
        if (r) { VIOL("insert", "unexpected result"); return t; }
        ins(t, dup < 0 ? lo : up, e); if (o == 2 || o == 3) ckmm(t); break; }
    case 5: { /* insert at a node */
        if (!n) { if (!(e = fresh(k))) return t; H("insert-at-empty"); mn[t] = mx[t] = NULL; cp_dict_insert_update_at_aug(&e->n, NULL, R(2), &root[t], &mn[t], &mx[t], AUG); ins(t, 0, e); ckmm(t); return t; }
        i = (int)R((unsigned)n); if (R(4) == 0) i = R(2) ? n - 1 : 0; unsigned d = R(2); if (!(e = fresh(seq[t][i]->key))) return t; H("insert-at"); setmm(t);
        if (R(2)) { cp_dict_insert_update_at_aug(&e->n, &seq[t][i]->n, d, &root[t], &mn[t], &mx[t], AUG); ins(t, i + (int)d, e); ckmm(t); }
        else { cp_dict_insert_at_aug(&e->n, &seq[t][i]->n, d, &root[t], AUG); ins(t, i + (int)d, e); } break; }
    case 6: { /* insert at the ends */
        unsigned d = R(2); if (!(e = fresh(n ? seq[t][d ? 0 : n - 1]->key : k))) return t; H(d ? "new-min" : "new-max");
        cp_dict_ref_t ref = { .parent = NULL, .child = d }; cp_dict_insert_ref_aug(&e->n, &ref, &root[t], AUG); ins(t, d ? 0 : n, e); break; }
    case 7: { /* find */
        H("find"); int lo = lower(t, k), up = upper(t, k); int d = (int)R(3) * 2 - 2; r = cp_dict_find(&k, root[t], cmpk, &nouser, d);
        if (lo == up ? r != NULL : d == 0 ? !r || BOX(r)->where != t || BOX(r)->key != k : r != (d < 0 ? &seq[t][lo]->n : &seq[t][up-1]->n)) VIOL("find", "dup=%d key %d: wrong result", d, k); break; }
    case 8: case 9: case 10: { /* remove */
        if (!n) return t; i = (int)R((unsigned)n); if (R(4) == 0) { for (i = 0; i < n && &seq[t][i]->n != root[t]; i++) {} if (i == n) i = 0; } e = seq[t][i];
        if (R(6) == 0) { H("remove-noroot"); cp_dict_t *o1 = &seq[t][i ? 0 : n - 1]->n; cp_dict_remove_aug(&e->n, NULL, AUG); root[t] = n == 1 ? NULL : cp_dict_root(o1); }
        else if (R(6) == 0) { H("remove-outroot"); cp_dict_t *o1 = &seq[t][i ? 0 : n - 1]->n, *nr = NULL; cp_dict_remove_aug(&e->n, &nr, AUG); if (nr) root[t] = nr; else if (n == 1) root[t] = NULL; if (n > 1 && cp_dict_root(o1) != root[t]) VIOL("remove-root", "new root not reported"); }
        else { H("remove"); cp_dict_remove_aug(&e->n, &root[t], AUG); }
        del(t, i); drop(e); break; }
    case 11: { /* extract */
        unsigned d = R(2), v = R(2); setmm(t); H(d ? (v ? "extract-upd-max" : "extract-max") : v ? "extract-upd-min" : "extract-min");
        r = v ? (d ? cp_dict_extract_update_max_aug(&root[t], &mx[t], AUG) : cp_dict_extract_update_min_aug(&root[t], &mn[t], AUG)) : d ? cp_dict_extract_max_aug(&root[t], AUG) : cp_dict_extract_min_aug(&root[t], AUG);
        if (!n) { if (r) VIOL("extract", "something extracted from the empty tree"); return t; }
        i = d ? n - 1 : 0; e = seq[t][i]; if (r != &e->n) { VIOL("extract", "wrong node extracted"); return t; }
        del(t, i); if (v) { if (n == 1) mn[t] = mx[t] = NULL; if (d ? mx[t] != (n > 1 ? &seq[t][n-2]->n : NULL) : mn[t] != (n > 1 ? &seq[t][0]->n : NULL)) VIOL("cached-minmax", "wrong after extraction"); }
        drop(e); break; }
    case 12: { /* robust iteration with removal */
        H("robust"); unsigned m = R(4) ? 0 : 1 + R(4); i = 0;
        for (cp_dict_each_robust(x, root[t])) { if (i >= cnt[t] || x != &seq[t][i]->n) { VIOL("robust", "iteration with removal loses its way"); return t; }
            if (m ? R(m + 1) : !R(5)) { cp_dict_remove_aug(x, &root[t], AUG); e = seq[t][i]; del(t, i); drop(e); } else i++; if (bad) return t; }
        if (i != cnt[t]) VIOL("robust", "iteration with removal ends early"); break; }
    case 13: case 14: { /* swap: payload is swapped back, so that order and summaries stay valid */
        if (!n) return t; i = (int)R((unsigned)n); e = seq[t][i]; E *f; int t2 = t, j = -1, mode = (int)R(3);
        if (R(4) == 0) { for (i = 0; i < n && &seq[t][i]->n != root[t]; i++) {} if (i == n) i = 0; e = seq[t][i]; }
        if (mode == 0) { f = fresh(0); if (!f) return t; f->where = -1; H("swap-outside"); }
        else if (mode == 1) { j = (int)R((unsigned)n); f = seq[t][j]; if (R(2)) { /* neighbours in the tree */ cp_dict_t *q = e->n.parent; if (!R(3) && q) q = q->edge[cp_dict_idx(q, &e->n) ^ 1]; if (q) { f = BOX(q); for (j = 0; j < n && seq[t][j] != f; j++) {} if (j == n) { VIOL("order", "stray node"); return t; } } } H("swap-inside"); }
        else { t2 = (int)R(MAXT); if (!cnt[t2]) return t; j = (int)R((unsigned)cnt[t2]); f = seq[t2][j]; if (R(3) == 0) { for (j = 0; j < cnt[t2] && &seq[t2][j]->n != root[t2]; j++) {} if (j == cnt[t2]) j = 0; f = seq[t2][j]; } H("swap-trees"); }
        if (t2 == t && (mode != 2)) cp_dict_swap_update_root(&root[t], &e->n, &f->n);
        else cp_dict_swap_update_root2(&root[t], &root[t2], &e->n, &f->n);
        if (e != f) { E x = *e; e->key = f->key; e->val = f->val; e->hash = f->hash; e->pw = f->pw; e->size = f->size; f->key = x.key; f->val = x.val; f->hash = x.hash; f->pw = x.pw; f->size = x.size;
            seq[t][i] = f; if (j >= 0) seq[t2][j] = e; int w = e->where; e->where = f->where; f->where = w; if (j < 0) drop(e); }
        if (t2 != t) check(t2); break; }
    case 15: case 16: { /* join: move keys of the second tree above the first */
        int u = (int)R(MAXT); if (u == t) return t; int base = cnt[t] ? seq[t][cnt[t]-1]->key : 0, lowk = cnt[u] ? seq[u][0]->key : 0; int sh = base - lowk; if (sh < 0 && R(2)) sh = 0;
        for (i = 0; i < cnt[u]; i++) seq[u][i]->key += sh;
        if (o == 15) { H("join2"); root[t] = cp_dict_join2_aug(root[t], root[u], AUG); }
        else { if (!(e = fresh(base))) return t; H("join3"); root[t] = cp_dict_join3_aug(root[t], &e->n, root[u], AUG); ins(t, cnt[t], e); }
        for (i = 0; i < cnt[u]; i++) { seq[t][cnt[t]++] = seq[u][i]; seq[u][i]->where = t; } cnt[u] = 0; root[u] = NULL; break; }
    case 17: case 18: { /* split */
        int u = (int)R(MAXT); if (u == t || cnt[u]) { for (u = 0; u < MAXT && (u == t || cnt[u]); u++) {} if (u == MAXT) return t; }
        if (n && R(3)) k = seq[t][R((unsigned)n)]->key + (int)R(3) - 1; int back = (int)R(2); H(back ? "split1" : "split0"); int at = back ? lower(t, k) : upper(t, k);
        cp_dict_t *l = (void*)1, *rr = (void*)1; cp_dict_split_aug(&l, &rr, root[t], &k, cmpk, &nouser, back, AUG);
        root[t] = l; root[u] = rr; for (i = at; i < n; i++) { seq[u][cnt[u]++] = seq[t][i]; seq[t][i]->where = u; } cnt[t] = at; check(u); break; }
    case 19: { /* step from a random node */
        if (!n) return t; H("step"); i = (int)R((unsigned)n); if (cp_dict_next(&seq[t][i]->n) != (i + 1 < n ? &seq[t][i+1]->n : NULL) || cp_dict_prev(&seq[t][i]->n) != (i ? &seq[t][i-1]->n : NULL)) VIOL("step", "wrong neighbour");
        if (cp_dict_next0(NULL) || cp_dict_prev0(NULL)) VIOL("step", "NULL"); break; }
    }
    return t; }
static void on_sig(int s) { char b[96]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d\n", cur, s); fflush(stdout); if (write(1, b, (size_t)k)) {} if (write(2, hist, strlen(hist))) {} signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv)
{
    (void)argc; unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int c = atoi(argv[2]); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
#ifndef HOB_SAN
    signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig);
#endif
    cap = 3000; pool = calloc((size_t)cap, sizeof *pool); freeE = calloc((size_t)cap, sizeof *freeE); for (int t = 0; t < MAXT; t++) seq[t] = calloc((size_t)cap + 8, sizeof(E*));
    for (int i = 0; i < c && nviol < 20; i++) {
        cur = s0 + (unsigned)i; rs = 0x9E3779B97F4A7C15ULL * (cur + 1ULL) ^ 0xA5A5A5A5DEADBEEFULL; for (int k = 0; k < 8; k++) rnd();
        hist[0] = 0; bad = 0; idc = 0; useaug = R(4) != 0; K = R(3) ? 4 + (int)R(40) : 100000;
        npool = R(6) == 0 ? cap : 6 + (int)R(90); memset(pool, 0, sizeof *pool * (size_t)cap); nfree = 0; for (int k = 0; k < npool; k++) drop(&pool[k]);
        for (int t = 0; t < MAXT; t++) { cnt[t] = 0; root[t] = mn[t] = mx[t] = NULL; }
        alarm(40);
        int big = npool == cap; if (big) for (int k = 0; k < 1500; k++) { int t = (int)R(2); E *e = fresh((int)R((unsigned)K)); cp_dict_insert_aug(&e->n, &root[t], cmpn, &nouser, 1, AUG); ins(t, upper(t, e->key), e); }
        for (int k = 0; k < (big ? 150 : 250) && !bad; k++) { int t = op(); if (!bad && (!big || k % 10 == 0)) check(t); }
        for (int t = 0; t < MAXT && !bad; t++) check(t);
    }
    alarm(0);
    printf("STAT operations=%lld tree_checks=%lld nodes_checked=%lld max_nodes=%d max_depth=%d rotations=%lld ev_nop=%lld ev_fini=%lld ev_cut_swap=%lld ev_join=%lld ev_split=%lld removes=%lld swaps=%lld joins=%lld splits=%lld\nDONE\n", n_ops, n_checks, n_nodes, maxn, maxh, n_ev[0] + n_ev[1], n_ev[2] + n_ev[3], n_ev[4], n_ev[6], n_ev[8], n_ev[9], n_opk[8] + n_opk[9] + n_opk[10], n_opk[13] + n_opk[14], n_opk[15] + n_opk[16], n_opk[17] + n_opk[18]);
    return 0;
}
