/* Random histories over vectors, heaps, lists, pools, bit maps and strings against reference models. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/list.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/arith.h>
#include <hob3lbase/bool-bitmap.h>
typedef long long ll; typedef unsigned long long ull;
static ull rs; static unsigned cur; static int nviol, bad; static char hist[600];
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static unsigned R(unsigned n) { return n ? rnd() % n : 0; }
#define VIOL(key, ...) do { if (!bad) { nviol++; bad = 1; printf("VIOL seed=%u key=%s ", cur, key); printf(__VA_ARGS__); printf(" [last operations: %s]\n", hist); } } while (0)
static void H(char const *op) { size_t l = strlen(hist); if (l > 500) { memmove(hist, hist + 200, l - 199); l -= 200; } snprintf(hist + l, sizeof hist - l, " %s", op); }
static ll n_vec, n_grow, n_heap, n_idxheap, n_list, n_pool, n_blocks, n_bit, n_char, n_sort, n_alias;

#define MAXN 400
static void fillr(void *p, size_t n) { unsigned char *c = p; int few = (int)R(3); for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(few ? R(3) : rnd()); }
/* an element type is compared as a whole, so that sorting has one right answer */
#define DEFVEC(NAME, T) \
static int cmp_##NAME(T const *a, T const *b, int *u) { (*u)++; int c = memcmp(a, b, sizeof(T)); return c; } \
static void vec_##NAME(void) { \
    typedef CP_VEC_T(T) V; V v[2]; static T ref[2][MAXN]; size_t n[2] = {0,0}; int user = 0; size_t const E = sizeof(T); T tmp[40]; memset(v, 0, sizeof v); \
    cp_pool_t pool; cp_pool_init(&pool); cp_alloc_t *m = R(3) ? (cp_alloc_t*)(size_t)&cp_alloc_global : pool.alloc; H(#NAME); if (m == pool.alloc) { H("pool"); pool.block_size = R(2) ? 4096 : 0; } \
    cp_v_init(&v[0]); \
    if (R(3) == 0) { size_t k = 1 + R(30); fillr(tmp, k * E); if (R(2)) { H("init-with"); cp_v_init_with_alloc(m, &v[1], tmp, k); memcpy(ref[1], tmp, k * E); } else { H("init0"); cp_v_init0_alloc(m, &v[1], k); memset(ref[1], 0, k * E); } n[1] = k; if (v[1].alloc != k) VIOL("vec-init", "alloc"); } \
    int steps = 10 + (int)R(80); size_t lastalloc = 0; \
    for (int st = 0; st < steps && !bad; st++) { \
        int w = (int)R(2); V *x = &v[w]; T *r = ref[w]; size_t sz = n[w], k, p = sz ? R((unsigned)sz + 1) : 0, o = R(28); n_vec++; \
        if (R(5) == 0) p = sz; if (R(8) == 0) p = 0; \
        T e; fillr(&e, E); k = R(30); if (sz + 40 > MAXN) o = 8; \
        switch (o) { \
        case 0: H("push"); if (cp_v_push_alloc(m, x, e) != &x->data[sz]) VIOL("vec-push", "result"); r[n[w]++] = e; break; \
        case 1: { H("push0"); T *q = cp_v_push0_alloc(m, x); if (q != &x->data[sz]) VIOL("vec-push0", "result"); memset(&r[n[w]++], 0, E); break; } \
        case 2: case 3: H("insert1"); cp_v_insert1_alloc(m, x, p, e); memmove(r + p + 1, r + p, (sz - p) * E); r[p] = e; n[w]++; break; \
        case 4: case 5: { H("insert-arr"); fillr(tmp, k * E); cp_v_insert_arr_alloc(m, x, p, tmp, k); memmove(r + p + k, r + p, (sz - p) * E); memcpy(r + p, tmp, k * E); n[w] += k; break; } \
        case 6: case 7: { /* elements of the vector itself */ if (!sz) break; size_t a = R((unsigned)sz); k = R((unsigned)(sz - a) + 1); if (k > 35) k = 35; H("insert-self"); n_alias++; static T cp[MAXN]; memcpy(cp, r + a, k * E); \
            if (k == 0) break; cp_v_insert_arr_alloc(m, x, p, &x->data[a], k); memmove(r + p + k, r + p, (sz - p) * E); memcpy(r + p, cp, k * E); n[w] += k; break; } \
        case 8: case 9: { k = R(4) ? R((unsigned)sz + 1) : sz + R(5); if (R(9) == 0) k = (size_t)-1; H("remove"); cp_v_remove(x, p, k); if (k > sz - p) k = sz - p; memmove(r + p, r + p + k, (sz - p - k) * E); n[w] -= k; break; } \
        case 10: if (sz) { H("pop"); T q = cp_v_pop(x); if (memcmp(&q, &r[sz-1], E)) VIOL("vec-pop", "wrong element"); n[w]--; } break; \
        case 11: if (sz) { p = R((unsigned)sz); H("extract"); T q = cp_v_extract(x, p); if (memcmp(&q, &r[p], E)) VIOL("vec-extract", "wrong element"); memmove(r + p, r + p + 1, (sz - p - 1) * E); n[w]--; } break; \
        case 12: { H("set-size"); k = R((unsigned)sz + 30); cp_v_set_size_alloc(m, x, k); if (k > sz) memset(r + sz, 0, (k - sz) * E); n[w] = k; break; } \
        case 13: { H("ensure-size"); k = R((unsigned)sz + 30); cp_v_ensure_size_alloc(m, x, k); if (k > sz) { memset(r + sz, 0, (k - sz) * E); n[w] = k; } break; } \
        case 14: if (R(3) == 0) { H("clear"); cp_v_clear_alloc(m, x, k); if (x->alloc < k) VIOL("vec-clear", "no preallocation"); n[w] = 0; } break; \
        case 15: { H("inflate"); cp_v_inflate_alloc(m, x, p, k); memmove(r + p + k, r + p, (sz - p) * E); memset(r + p, 0, k * E); n[w] += k; break; } \
        case 16: case 17: { /* copy part of a vector, possibly itself, overwriting and growing */ int s = (int)R(2); size_t a = R((unsigned)n[s] + 1); k = R(4) ? R(30) : (size_t)-1; size_t c = n[s] - a < k ? n[s] - a : k; if (p + c > MAXN - 41) break; \
            H(s == w ? "copy-self" : "copy"); if (s == w) n_alias++; static T cp[MAXN]; memcpy(cp, ref[s] + a, c * E); cp_v_copy_alloc(m, x, p, &v[s], a, k); memcpy(r + p, cp, c * E); if (p + c > n[w]) n[w] = p + c; break; } \
        case 18: { H("copy1"); cp_v_copy1_alloc(m, x, p, e); r[p] = e; if (p == sz) n[w]++; break; } \
        case 19: { /* append one vector to the other or to itself */ int s = (int)R(2); if (n[0] + n[1] > MAXN - 41 || 2 * sz > MAXN - 41) break; H(s == w ? "append-self" : "append"); size_t c = n[s]; static T cp[MAXN]; memcpy(cp, ref[s], c * E); \
            if (R(2)) { cp_v_append_alloc(m, x, &v[s]); p = sz; } else cp_v_insert_alloc(m, x, p, &v[s]); memmove(r + p + c, r + p, (sz - p) * E); memcpy(r + p, cp, c * E); n[w] += c; break; } \
        case 20: { H("append-arr"); fillr(tmp, k * E); cp_v_insert_arr_alloc(m, x, sz, tmp, k); memcpy(r + sz, tmp, k * E); n[w] += k; break; } \
        case 21: { H("reverse"); k = R(3) ? R((unsigned)sz + 1) : (size_t)-1; cp_v_reverse(x, p, k); if (k > sz - p) k = sz - p; for (size_t a = 0; a < k / 2; a++) { T q = r[p + a]; r[p + a] = r[p + k - 1 - a]; r[p + k - 1 - a] = q; } break; } \
        case 22: { H("qsort"); n_sort++; k = R(3) ? R((unsigned)sz + 1) : (size_t)-1; if (R(2)) { p = 0; k = (size_t)-1; } cp_v_qsort(x, p, k, cmp_##NAME, &user); if (k > sz - p) k = sz - p; \
            for (size_t a = p + 1; a < p + k; a++) for (size_t b = a; b > p && memcmp(&r[b-1], &r[b], E) > 0; b--) { T q = r[b]; r[b] = r[b-1]; r[b-1] = q; } \
            if (k == sz) { for (int t = 0; t < 5; t++) { T key; fillr(&key, E); if (R(2) && sz) key = r[R((unsigned)sz)]; size_t g = cp_v_bsearch(&key, x, cmp_##NAME, &user); int have = 0; for (size_t a = 0; a < sz; a++) have |= !memcmp(&r[a], &key, E); \
                if (have ? (g >= sz || memcmp(&r[g], &key, E)) : g != (size_t)-1) VIOL("vec-bsearch", "result %zu of %zu, key is %spresent", g, sz, have ? "" : "not "); } } break; } \
        case 23: { H("shrink"); cp_v_shrink_alloc(m, x, R((unsigned)sz + 1)); break; } \
        case 24: { H("nth"); T *q = cp_v_nth_ptr0(x, p); if (q != (p < sz ? &x->data[p] : NULL)) VIOL("vec-nth", "nth_ptr0"); if (p < sz) { if (memcmp(&cp_v_nth(x, p), &r[p], E) || cp_v_idx(x, &x->data[p]) != p || cp_v_nth_ptr(x, p) != &x->data[p]) VIOL("vec-nth", "nth"); \
            if (memcmp(&cp_v_last(x), &r[sz-1], E) || cp_v_lastp_but(x, p) != &x->data[sz - 1 - p]) VIOL("vec-last", "last"); } break; } \
        case 25: { H("each"); size_t c = 0; for (cp_v_each(i, x)) { if (i != c) VIOL("vec-each", "index"); c++; } if (c != sz) VIOL("vec-each", "count"); c = 0; for (cp_v_eachp(i, x)) { if (i != &x->data[c]) VIOL("vec-each", "pointer"); c++; } if (c != sz) VIOL("vec-each", "count of pointers"); break; } \
        case 26: { if (!sz) break; size_t a = R((unsigned)sz), c = sz - (a > p ? a : p); c = R((unsigned)c + 1); H("copy-arr"); static T cp[MAXN]; memcpy(cp, r + a, c * E); cp_v_copy_arr(x, p, x, a, c); memcpy(r + p, cp, c * E); break; } \
        case 27: if (R(6) == 0) { H("fini"); cp_v_fini_alloc(m, x); n[w] = 0; if (x->data || x->size || x->alloc) VIOL("vec-fini", "not empty"); } break; \
        } \
        for (int q = 0; q < 2; q++) { if (v[q].size != n[q] || v[q].alloc < n[q]) { VIOL("vec-size", "size %zu, alloc %zu, expected %zu", v[q].size, v[q].alloc, n[q]); break; } \
            if (n[q] && memcmp(v[q].data, ref[q], n[q] * E)) { size_t d = 0; while (!memcmp(&v[q].data[d], &ref[q][d], E)) d++; VIOL("vec-content", "element %zu of %zu differs (size of element %zu)", d, n[q], E); } } \
        if (v[0].alloc != lastalloc) { n_grow++; lastalloc = v[0].alloc; } \
    } \
    if (m == pool.alloc) cp_pool_fini(&pool); else { cp_v_fini(&v[0]); cp_v_fini(&v[1]); } }
typedef struct { unsigned char c[3]; } b3; typedef struct { unsigned short s[3]; } s3; typedef struct { size_t a, b, c; } z3; typedef struct { unsigned char c[13]; } b13;
DEFVEC(u8, unsigned char) DEFVEC(u16, unsigned short) DEFVEC(u32, unsigned) DEFVEC(b3, b3) DEFVEC(s3, s3) DEFVEC(ptr, size_t) DEFVEC(z3, z3) DEFVEC(b13, b13) DEFVEC(arr, cp_size3_t)

static void t_bits(void) {
    typedef CP_VEC_T(ull) V; typedef CP_VEC_T(unsigned char) W; V v = {0}; W w = {0}; static unsigned char ref[2][640]; memset(ref, 0, sizeof ref); H("bits");
    cp_v_set_size(&v, 10); cp_v_set_size(&w, 80);
    for (int k = 0; k < 200; k++) { size_t i = R(640); unsigned b = R(2); cp_v_bit_set(&v, i, b); ref[0][i] = (unsigned char)b; i = R(640); b = R(2) * R(3); cp_v_bit_set(&w, i, b); ref[1][i] = !!b; }
    for (size_t i = 0; i < 640; i++) if (cp_v_bit_get(&v, i) != ref[0][i] || cp_v_bit_get(&w, i) != ref[1][i]) VIOL("vec-bit", "bit %zu", i);
    cp_v_fini(&v); cp_v_fini(&w); }

/* heap of elements */
typedef struct { int key; unsigned id; } hp;
static int cmp_hp(hp const *a, hp const *b, int *u) { (*u)++; return (a->key > b->key) - (a->key < b->key); }
static void t_heap(void) {
    typedef CP_VEC_T(hp) V; V v = {0}; static hp ref[MAXN]; size_t n = 0; int user = 0; unsigned id = 0; int K = R(2) ? 5 : 1000; H("heap");
    int steps = 20 + (int)R(150);
    for (int st = 0; st < steps && !bad; st++) { n_heap++;
        int o = (int)R(10);
        if (o < 4 && n < MAXN - 1) { hp e = { (int)R((unsigned)K), ++id }; H("insert"); cp_v_heap_insert(&v, cmp_hp, &user, e); ref[n++] = e; }
        else if (o < 7 && n) { H("extract"); hp e; if (R(2)) e = cp_v_heap_extract(&v, cmp_hp, &user); else e = *cp_v_heap_extract_ptr(&v, cmp_hp, &user); size_t i = 0; while (i < n && ref[i].id != e.id) i++; if (i == n || ref[i].key != e.key) { VIOL("heap-extract", "element not in the heap"); break; }
            for (size_t j = 0; j < n; j++) if (ref[j].key < e.key) VIOL("heap-extract", "not the minimum"); ref[i] = ref[--n]; }
        else if (o == 7 && n) { H("update"); size_t p = R((unsigned)n); if (p >= v.size) { VIOL("heap-size", "%zu of %zu", v.size, n); break; } int key = (int)R((unsigned)K); for (size_t j = 0; j < n; j++) if (ref[j].id == v.data[p].id) ref[j].key = key; v.data[p].key = key; cp_v_heap_update(&v, cmp_hp, &user, p); }
        else if (o == 8) { H("make"); size_t c = R(40); cp_v_clear(&v, 0); n = 0; for (size_t j = 0; j < c; j++) { hp e = { (int)R((unsigned)K), ++id }; cp_v_push(&v, e); ref[n++] = e; } cp_v_heap_make(&v, cmp_hp, &user); }
        if (v.size != n) { VIOL("heap-size", "%zu elements, expected %zu", v.size, n); break; }
        for (size_t i = 1; i < n; i++) if (v.data[(i - 1) / 2].key > v.data[i].key) VIOL("heap-order", "element %zu of %zu is smaller than its parent", i, n);
        for (size_t i = 0; i < n && !bad; i++) { size_t c = 0, k = 0; for (size_t j = 0; j < n; j++) { c += v.data[j].id == ref[i].id; k += v.data[j].id == ref[i].id && v.data[j].key == ref[i].key; } if (c != 1 || k != 1) VIOL("heap-content", "element %u occurs %zu times", ref[i].id, c); }
        if (n) { hp *m = cp_v_heap_min(&v); for (size_t j = 0; j < n; j++) if (ref[j].key < m->key) VIOL("heap-min", "not the minimum"); }
    }
    cp_v_fini(&v); }
/* heap of indexed elements */
typedef struct { int key; size_t idx; } ih; static int iu;
#define IH(p) ((ih*)(void*)((char*)(size_t)(p) - offsetof(ih, idx)))
static int cmp_ih(size_t const *a, size_t const *b, void *u) { if (u != &iu) VIOL("heap-user", "user pointer"); return (IH(a)->key > IH(b)->key) - (IH(a)->key < IH(b)->key); }
static void t_idxheap(void) {
    cp_heap_t h; memset(&h, 0, sizeof h); static ih el[120]; size_t n = 0, N = 3 + R(117); int K = R(2) ? 5 : 1000; for (size_t i = 0; i < N; i++) { el[i].idx = CP_HEAP_NO_IDX; el[i].key = (int)R((unsigned)K); } H("idxheap");
    if (cp_heap_min(&h) || cp_heap_extract(&h, cmp_ih, &iu)) VIOL("heap-empty", "the empty heap returns something");
    int steps = 20 + (int)R(150);
    for (int st = 0; st < steps && !bad; st++) { n_idxheap++; ih *e = &el[R((unsigned)N)]; int in = cp_heap_is_member(&e->idx), o = (int)R(11); size_t *q;
        if (o < 4) { if (!in) { H("insert"); cp_heap_insert(&h, cmp_ih, &iu, &e->idx); n++; } }
        else if (o == 4) { H("extract"); int mk = 0x7fffffff; for (size_t i = 0; i < N; i++) if (cp_heap_is_member(&el[i].idx) && el[i].key < mk) mk = el[i].key; q = cp_heap_extract(&h, cmp_ih, &iu); if (!n) { if (q) VIOL("heap-empty", "extract"); } else { n--; if (!q || IH(q)->key != mk || *q != CP_HEAP_NO_IDX) VIOL("heap-extract", "not the minimum or index not reset"); } }
        else if (o < 7) { if (in) { H("remove"); q = cp_heap_remove(&h, cmp_ih, &iu, e->idx); n--; if (q != &e->idx || *q != CP_HEAP_NO_IDX) VIOL("heap-remove", "wrong element"); } }
        else if (o == 7) { if (in) { H("update"); e->key = (int)R((unsigned)K); cp_heap_update(&h, cmp_ih, &iu, e->idx); } }
        else if (o == 8) { /* replace */ ih *f = &el[R((unsigned)N)]; if (f == e) { H("replace-same"); e->key = (int)R((unsigned)K); q = cp_heap_replace(&h, cmp_ih, &iu, e->idx, &e->idx); if (q) VIOL("heap-replace", "result"); if (!in) n++; }
            else if (in && !cp_heap_is_member(&f->idx)) { H("replace"); q = cp_heap_replace(&h, cmp_ih, &iu, e->idx, &f->idx); if (q != &e->idx || e->idx != CP_HEAP_NO_IDX) VIOL("heap-replace", "result"); }
            else if (!in) { H("replace-insert"); q = cp_heap_replace(&h, cmp_ih, &iu, CP_HEAP_NO_IDX, &e->idx); if (q) VIOL("heap-replace", "result"); n++; }
            else { H("replace-null"); q = cp_heap_replace(&h, cmp_ih, &iu, e->idx, NULL); if (q != &e->idx) VIOL("heap-replace", "result"); n--; } }
        else if (o == 9) { if (R(4) == 0) { H("make"); cp_v_clear(&h, 0); n = 0; for (size_t i = 0; i < N; i++) { el[i].idx = CP_HEAP_NO_IDX; if (R(2)) { cp_v_push(&h, &el[i].idx); n++; } } cp_heap_make_(&h, cmp_ih, &iu); } }
        else { q = cp_heap_min(&h); if (!n) { if (q) VIOL("heap-empty", "min"); } else for (size_t i = 0; i < N; i++) if (cp_heap_is_member(&el[i].idx) && el[i].key < IH(q)->key) VIOL("heap-min", "not the minimum"); }
        if (h.size != n) { VIOL("heap-size", "%zu elements, expected %zu", h.size, n); break; }
        size_t c = 0; for (size_t i = 0; i < N; i++) if (cp_heap_is_member(&el[i].idx)) { c++; if (el[i].idx >= n || h.data[el[i].idx] != &el[i].idx) { VIOL("heap-index", "index %zu of element %zu is wrong", el[i].idx, i); break; } if (el[i].idx && IH(h.data[(el[i].idx - 1) / 2])->key > el[i].key) VIOL("heap-order", "smaller than its parent"); }
        if (!bad && c != n) VIOL("heap-members", "%zu members, expected %zu", c, n);
    }
    cp_v_fini(&h); }

typedef struct nd { struct nd *next, *prev; } nd;
static void t_list(void) {
    static nd e[40]; int nx[40], N = 2 + (int)R(38); H("list"); for (int i = 0; i < N; i++) { cp_list_init(&e[i]); nx[i] = i; }
    for (int st = 0; st < 120 && !bad; st++) { n_list++; int p = (int)R((unsigned)N), q = (int)R((unsigned)N), pq = 0; 
        if (R(4) == 0) { H("remove"); for (pq = 0; nx[pq] != q; pq++) {} cp_list_remove(&e[q]); int o = nx[q]; nx[q] = q; if (pq != q) nx[pq] = o; }
        else if (R(5) == 0) { /* iterate and unlink on the way */ H("each-remove"); int left[40], c = 0, i = p; for (cp_list_each(x, &e[p])) { i = nx[i]; if (x != &e[i]) { VIOL("list-each", "order"); break; } left[c++] = i; if (c > N) { VIOL("list-each", "does not end"); break; } }
            if (!bad && nx[i] != p) VIOL("list-each", "ended early");
            c = 0; int walk = p, w2; for (w2 = 0; w2 < N && nx[w2] != walk; w2++) {} i = p; for (cp_list_each_rev(x, &e[p])) { int b; for (b = 0; b < N && nx[b] != i; b++) {} i = b; if (x != &e[i]) { VIOL("list-each", "reverse order"); break; } if (++c > N) { VIOL("list-each", "reverse does not end"); break; } } (void)left; (void)w2; }
        else { H("chain"); for (pq = 0; nx[pq] != q; pq++) {} int op = nx[p]; cp_list_chain(&e[p], &e[q]); nx[pq] = op; nx[p] = q; }
        for (int i = 0; i < N && !bad; i++) { if (e[i].next != &e[nx[i]] || e[nx[i]].prev != &e[i]) VIOL("list-links", "node %d of %d", i, N); if (cp_list_is_member(&e[i]) != (nx[i] != i)) VIOL("list-member", "node %d", i); }
    } }

static void t_pool(void) {
    cp_pool_t p; cp_pool_init(&p); struct { unsigned char *a; size_t n; unsigned char f; } b[300]; H("pool-direct"); if (R(3) == 0) p.block_size = R(2) ? 4096 : 100;
    for (int round = 0; round < 3 && !bad; round++) { int n = 0; n_blocks++; int M = 20 + (int)R(280); size_t total = 0;
        for (; n < M && !bad && total < 24000000; n++) { n_pool++; size_t s = 1 + R(R(3) ? 40 : 5000), c = 1 + R(R(4) ? 3 : 100), al = (size_t)1 << R(R(8) ? 7 : 13); if (R(400) == 0) c *= 1000; if (s * c > 4000000) c = 1; total += s * c; unsigned char *q; int via = (int)R(6);
            if (via == 0) { al = 16; q = p.alloc->x_calloc(p.alloc, c, s); if (s % 16) al = s & -s; if (al > 16) al = 16; }
            else if (via == 1 && n) { /* grow an old block: its content must come along, the rest be zero */ int o = (int)R((unsigned)n); if (!b[o].n) { b[n].n = 0; continue; } size_t an = b[o].n + 1 + R(100); q = p.alloc->x_recalloc(p.alloc, b[o].a, b[o].n, an, 1); for (size_t k = 0; k < b[o].n; k++) if (q[k] != b[o].f) { VIOL("pool-recalloc", "content lost"); break; } for (size_t k = b[o].n; k < an; k++) if (q[k]) { VIOL("pool-zero", "grown part not zero"); break; } for (size_t k = 0; k < b[o].n; k++) if (b[o].a[k] != b[o].f) { VIOL("pool-recalloc", "old content changed"); break; } memset(q, 0, b[o].n); s = 1; c = an; al = 1; }
            else if (via == 4 && n && R(2)) { int o = (int)R((unsigned)n); if (!b[o].n) { b[n].n = 0; continue; } size_t an = 1 + R((unsigned)b[o].n + 200); bool sh = an <= b[o].n; q = p.alloc->x_remalloc(p.alloc, b[o].a, b[o].n, an, 1); size_t m = sh ? an : b[o].n; for (size_t k = 0; q && k < m; k++) if (q[k] != b[o].f) { VIOL("pool-remalloc", "content lost"); break; } for (size_t k = 0; k < b[o].n; k++) if (b[o].a[k] != b[o].f) { VIOL("pool-remalloc", "old content changed"); break; } if (!q) { VIOL("pool-null", "remalloc"); break; } if (sh) { b[n].n = 0; continue; } memset(q, 0, an); s = 1; c = an; al = 1; }
            else if (via == 4) { q = p.alloc->x_malloc(p.alloc, c, s); if (q) memset(q, 0, c * s); al = s & -s; if (al > 16) al = 16; }
            else if (via == 2) { q = cp_pool_calloc(__FILE__, __LINE__, &p, c, s, 0); al = s & -s; if (al > 4096) al = 4096; }
            else if (via == 3) { double *d = CP_POOL_NEW_ARR(&p, *d, c); s = sizeof(double); al = s; q = (void*)d; }
            else q = cp_pool_calloc(__FILE__, __LINE__, &p, c, s, al);
            if (!q) { VIOL("pool-null", "NULL for %zu * %zu", c, s); break; }
            if ((size_t)q % al) VIOL("pool-align", "%zu * %zu bytes with alignment %zu at %p", c, s, al, (void*)q);
            for (size_t k = 0; k < s * c; k++) if (q[k]) { VIOL("pool-zero", "not zeroed at %zu of %zu", k, s * c); break; }
            for (int j = 0; j < n && !bad; j++) if (b[j].n && q < b[j].a + b[j].n && b[j].a < q + s * c) VIOL("pool-overlap", "blocks overlap");
            b[n].a = q; b[n].n = s * c; b[n].f = (unsigned char)(1 + R(255)); if (bad) break; memset(q, b[n].f, s * c); }
        if (cp_pool_calloc(__FILE__, __LINE__, &p, 0, 4, 4)) VIOL("pool-null", "something for nothing");
        for (int j = 0; j < n && !bad; j++) for (size_t k = 0; k < b[j].n; k++) if (b[j].a[k] != b[j].f) { VIOL("pool-content", "block %d of %d overwritten", j, n); break; }
        if (R(2)) { H("clear"); cp_pool_clear(&p); } else { H("fini"); cp_pool_fini(&p); }
    }
    cp_pool_fini(&p); }

/* the allocator below everything: blocks disjoint, content kept, growth zeroed where promised, impossible sizes refused */
static void t_alloc(void) {
    cp_alloc_t *m = (cp_alloc_t*)(size_t)&cp_alloc_global; struct { unsigned char *a; size_t n, s; unsigned char f; } b[40] = { { 0 } }; H("alloc-direct");
    for (int i = 0; i < 150 && !bad; i++) { unsigned k = R(40); size_t s = 1 + R(R(4) ? 20 : 3000), n = 1 + R(R(4) ? 30 : 500); n_pool++;
        if (b[k].a) { for (size_t j = 0; j < b[k].n * b[k].s; j++) if (b[k].a[j] != b[k].f) { VIOL("alloc-content", "block overwritten"); break; } if (bad) break; }
        if (!b[k].a) { bool z = R(2); H(z ? "calloc" : "malloc"); unsigned char *q = z ? cp_calloc(m, n, s) : cp_malloc(m, n, s); for (size_t j = 0; z && j < n * s; j++) if (q[j]) { VIOL("alloc-zero", "calloc"); break; } b[k].a = q; b[k].n = n; b[k].s = s; }
        else if (R(3)) { bool z = R(2); H(z ? "recalloc" : "remalloc"); size_t an = R(2) ? b[k].n + 1 + R(300) : 1 + R((unsigned)b[k].n), on = b[k].n; s = b[k].s; unsigned char *q = z ? cp_recalloc(m, b[k].a, on, an, s) : cp_remalloc(m, b[k].a, on, an, s);
            for (size_t j = 0; j < (an < on ? an : on) * s; j++) if (q[j] != b[k].f) { VIOL("alloc-grow", "content lost at %zu of %zu", j, on * s); break; } for (size_t j = on * s; z && j < an * s; j++) if (q[j]) { VIOL("alloc-zero", "recalloc: %zu of %zu", j, an * s); break; }
            b[k].a = q; b[k].n = an; }
        else { H("free"); CP_DELETE_ALLOC(m, b[k].a); if (b[k].a) VIOL("alloc-delete", "pointer kept"); b[k].a = NULL; continue; }
        b[k].f = (unsigned char)(1 + R(255)); memset(b[k].a, b[k].f, b[k].n * b[k].s); }
    for (int k = 0; k < 40; k++) { if (b[k].a && !bad) for (size_t j = 0; j < b[k].n * b[k].s; j++) if (b[k].a[j] != b[k].f) { VIOL("alloc-content", "block overwritten"); break; } cp_free(m, b[k].a); }
    { size_t w = ~(size_t)0 / (2 + R(1000)), v = 1002 + R(9999); void *x; if ((x = m->x_malloc(m, w, v)) || (x = m->x_malloc(m, v, w)) || (x = m->x_remalloc(m, NULL, 0, w, v)) || (x = m->x_recalloc(m, NULL, 0, v, w))) VIOL("alloc-overflow", "%zu * %zu bytes: %p", w, v, x); }
    { unsigned z[20], *y; for (int j = 0; j < 20; j++) z[j] = rnd(); y = CP_CLONE_ARR_ALLOC(m, z[0], z, 20); if (memcmp(y, z, sizeof z)) VIOL("alloc-clone", "differs"); cp_free(m, y); unsigned *e = CP_CLONE1(&z[3]); if (*e != z[3]) VIOL("alloc-clone", "one"); CP_DELETE(e); if (e) VIOL("alloc-delete", "pointer kept"); } }

static void t_bitmap(void) {
    static cp_bool_bitmap_t r, b; static unsigned char m[1024], q[1024]; size_t have = R(4) ? 0 : R(11); H("bitmap"); for (size_t k = 0; k < sizeof r; k++) r.b[k] = R(4) ? (unsigned char)rnd() : 0; 
    size_t n = (size_t)1 << have; for (size_t k = 0; k < n; k++) { m[k] = (unsigned char)R(2); cp_bool_bitmap_set(&r, k, m[k]); }
    for (int st = 0; st < 40 && !bad; st++) { n_bit++; int o = (int)R(4); size_t add = R((unsigned)(11 - have)); if (R(2) && add) add = 1; n = (size_t)1 << have; char t[40];
        if (o == 0) { snprintf(t, 40, "spread(%zu,%zu)", have, add); H(t); cp_bool_bitmap_spread(&r, have, add); for (size_t k = n << add; k-- > 0; ) m[k] = m[k >> add]; have += add; }
        else if (o == 1) { snprintf(t, 40, "repeat(%zu,%zu)", have, add); H(t); cp_bool_bitmap_repeat(&r, have, add); for (size_t k = n; k < n << add; k++) m[k] = m[k & (n - 1)]; have += add; }
        else if (o == 2) { static cp_bool_op_t const ops[4] = { CP_OP_ADD, CP_OP_CUT, CP_OP_SUB, CP_OP_XOR }; int w = (int)R(4); snprintf(t, 40, "combine(%zu,%d)", have, w); H(t); for (size_t k = 0; k < sizeof b; k++) b.b[k] = (unsigned char)rnd(); for (size_t k = 0; k < n; k++) { q[k] = (unsigned char)R(2); cp_bool_bitmap_set(&b, k, q[k]); }
            cp_bool_bitmap_combine(&r, &b, have, ops[w]); for (size_t k = 0; k < n; k++) m[k] = w == 0 ? m[k] | q[k] : w == 1 ? m[k] & q[k] : w == 2 ? m[k] & !q[k] : m[k] ^ q[k]; }
        else { size_t k = R((unsigned)n); m[k] = (unsigned char)R(2); cp_bool_bitmap_set(&r, k, m[k]); H("set"); }
        for (size_t k = 0; k < ((size_t)1 << have) && !bad; k++) if (cp_bool_bitmap_get(&r, k) != m[k]) VIOL("bitmap", "bit %zu of 2^%zu", k, have);
        if (have == 10 && R(4) == 0) { have = R(11); for (size_t k = 0; k < ((size_t)1 << have); k++) m[k] = cp_bool_bitmap_get(&r, k); }
    } }

static void t_vchar(void) {
    cp_vchar_t v[2]; static char ref[2][4000]; size_t n[2] = {0,0}; char tmp[300]; memset(v, 0, sizeof v); cp_vchar_init(&v[0]); H("vchar");
    for (int st = 0; st < 60 && !bad; st++) { n_char++; int w = (int)R(2); size_t k = R(30), i; for (i = 0; i < k; i++) tmp[i] = (char)('a' + R(26)); tmp[k] = 0; if (n[w] > 3000) { cp_vchar_clear(&v[w]); n[w] = 0; }
        switch (R(8)) {
        case 0: H("push"); cp_vchar_push(&v[w], 'x'); ref[w][n[w]++] = 'x'; break;
        case 1: H("append-str"); cp_vchar_append_str(&v[w], tmp); memcpy(ref[w] + n[w], tmp, k); n[w] += k; break;
        case 2: H("append-arr"); cp_vchar_append_arr(&v[w], tmp, k); memcpy(ref[w] + n[w], tmp, k); n[w] += k; break;
        case 3: if (n[0] + n[1] < 3500) { H("append"); cp_vchar_cstr(&v[!w]); cp_vchar_append(&v[w], &v[!w]); memcpy(ref[w] + n[w], ref[!w], n[!w]); n[w] += n[!w]; } break;
        case 4: { H("printf"); int d = (int)R(1000); unsigned pad = R(3) ? 1 : R(200); char o[600]; int l = snprintf(o, sizeof o, "%s-%0*d;", tmp, (int)pad, d); cp_vchar_printf(&v[w], "%s-%0*d;", tmp, (int)pad, d); memcpy(ref[w] + n[w], o, (size_t)l); n[w] += (size_t)l; break; }
        case 5: if (n[w]) { H("pop"); if (cp_vchar_pop(&v[w]) != ref[w][n[w]-1]) VIOL("vchar-pop", "wrong character"); n[w]--; } break;
        case 6: { H("swap"); cp_vchar_swap(&v[0], &v[1]); static char h[4000]; memcpy(h, ref[0], 4000); memcpy(ref[0], ref[1], 4000); memcpy(ref[1], h, 4000); size_t z = n[0]; n[0] = n[1]; n[1] = z; break; }
        default: if (R(5) == 0) { H("clear"); cp_vchar_clear(&v[w]); n[w] = 0; } else if (R(5) == 0) { H("fini"); cp_vchar_fini(&v[w]); n[w] = 0; }
        }
        for (int q = 0; q < 2; q++) { if (v[q].size != n[q] || (n[q] && memcmp(v[q].data, ref[q], n[q]))) { VIOL("vchar", "content differs, size %zu expected %zu", v[q].size, n[q]); break; } char *c = cp_vchar_cstr(&v[q]); if (strlen(c) != n[q] || v[q].size != n[q]) { VIOL("vchar-cstr", "no terminator at %zu", n[q]); break; } }
    }
    cp_vchar_fini(&v[0]); cp_vchar_fini(&v[1]); }

static void on_sig(int s) { char b[96]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d\n", cur, s); fflush(stdout); if (write(1, b, (size_t)k)) {} if (write(2, hist, strlen(hist))) {} signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv)
{
    (void)argc; unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int c = atoi(argv[2]); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
#ifndef HOB_SAN
    signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig);
#endif
    for (int i = 0; i < c && nviol < 20; i++) {
        cur = s0 + (unsigned)i; rs = 0x9E3779B97F4A7C15ULL * (cur + 1ULL) ^ 0xA5A5A5A5DEADBEEFULL; for (int k = 0; k < 8; k++) rnd();
        alarm(40);
        static void (*const fs[])(void) = { vec_u8, vec_u16, vec_u32, vec_b3, vec_s3, vec_ptr, vec_z3, vec_b13, vec_arr, t_bits, t_heap, t_idxheap, t_list, t_pool, t_alloc, t_bitmap, t_vchar };
        for (unsigned k = 0; k < sizeof fs / sizeof *fs; k++) { hist[0] = 0; bad = 0; if (fs[k] == t_pool && cur % 4) continue; fs[k](); }
    }
    alarm(0);
    printf("STAT vector_ops=%lld regrown=%lld sorts=%lld aliased=%lld heap_ops=%lld indexed_heap_ops=%lld list_ops=%lld pool_blocks=%lld pool_rounds=%lld bitmap_ops=%lld string_ops=%lld\nDONE\n", n_vec, n_grow, n_sort, n_alias, n_heap, n_idxheap, n_list, n_pool, n_blocks, n_bit, n_char);
    return 0;
}
