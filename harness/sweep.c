/* Monitor for the 2D core: plane sweep, reduction, path and triangle output.
 * Usage: sweep SEED0 COUNT        run cases, print VIOL lines and STAT lines
 *        sweep SEED0 1 dump       print one case
 * Every oracle here is integer arithmetic on the inputs and outputs only. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#include <hob3lop/hedron.h>
#include <hob3lop/op-sweep.h>
#include <hob3lop/op-poly.h>
#include <hob3lop/op-trianglify.h>

typedef long long ll;
typedef struct { int x, y; } pt;
typedef struct { pt a, b; unsigned m; } seg;

static unsigned long long rs;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static int ri(int lo, int hi) { return lo + (int)(rnd() % (unsigned)(hi - lo + 1)); }
static ll R64(ll lo, ll hi) { unsigned long long r = ((unsigned long long)rnd() << 31) ^ rnd(); return lo + (ll)(r % (unsigned long long)(hi - lo + 1)); }

#define MAXS 4000
static seg S[MAXS]; static int nS;
static int nmem; static cp_bool_bitmap_t comb; static size_t comb_size;
static unsigned cur_seed;
static int dump;

static void add(pt a, pt b, unsigned m) { if (nS < MAXS) { S[nS].a = a; S[nS].b = b; S[nS].m = m; nS++; } }
static void poly(pt *p, int n, unsigned m) { for (int i = 0; i < n; i++) add(p[i], p[(i+1)%n], m); }

static int clampc(ll v) { ll L = 1LL << 29; return (int)(v > L ? L : v < -L ? -L : v); }

static const int RANGES[] = { 2, 4, 5, 8, 9, 16, 16, 32, 128, 128, 1000, 5000, 150000, 20000000, 1<<29 };
static int nmode; static ll n_spoke;
static int mode_of;
static int range;

static pt rp(void) { int h = range; return (pt){ (int)R64(-h, h), (int)R64(-h, h) }; }

static void gen_poly(unsigned m, int mode)
{
    pt p[640]; int n;
    switch (mode) {
    case 0: /* random closed polyline */
        n = ri(3, 14); for (int i = 0; i < n; i++) p[i] = rp(); break;
    case 1: { /* random walk */
        n = ri(3, 20); int st = range / 4 + 1; p[0] = rp();
        for (int i = 1; i < n; i++) p[i] = (pt){ clampc((ll)p[i-1].x + R64(-st, st)), clampc((ll)p[i-1].y + R64(-st, st)) };
        break; }
    case 2: { /* rectangle */
        pt a = rp(), b = rp(); n = 4; p[0] = a; p[1] = (pt){b.x, a.y}; p[2] = b; p[3] = (pt){a.x, b.y}; break; }
    case 3: { /* star-shaped */
        n = ri(3, 16); double cx = ri(-range/2, range/2), cy = ri(-range/2, range/2);
        for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n, r = range * (0.1 + 0.4 * (rnd() % 1000) / 1000.0);
            p[i] = (pt){ clampc((ll)floor(cx + r*cos(a) + .5)), clampc((ll)floor(cy + r*sin(a) + .5)) }; }
        break; }
    case 4: { /* slivers: long nearly parallel edges */
        pt a = rp(), b = rp(); n = 2 * ri(2, 6);
        for (int i = 0; i < n; i++) { pt *q = (i & 1) ? &b : &a; p[i] = (pt){ clampc((ll)q->x + ri(-2, 2)), clampc((ll)q->y + ri(-2, 2)) }; }
        break; }
    case 5: { /* fan: many edges through one vertex */
        pt c = rp(); n = 3 * ri(1, 5);
        for (int i = 0; i < n; i++) p[i] = (i % 3 == 0) ? c : rp();
        break; }
    case 6: { /* regular polygon (tessellated circle) */
        n = ri(3, 40); double cx = ri(-range/2, range/2), cy = ri(-range/2, range/2), r = range * (0.1 + 0.4 * (rnd() % 1000) / 1000.0);
        for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n;
            p[i] = (pt){ clampc((ll)floor(cx + r*cos(a) + .5)), clampc((ll)floor(cy + r*sin(a) + .5)) }; }
        break; }
    case 7: { /* staircase / comb with collinear pieces */
        n = 0; int st = range / 8 + 1; pt q = rp(); int k = ri(2, 8);
        for (int i = 0; i < k && n < 40; i++) { p[n++] = q; q.x = clampc((ll)q.x + st * ri(0, 2)); p[n++] = q; q.y = clampc((ll)q.y + st * ri(-2, 2)); }
        p[n++] = q; p[n++] = (pt){ p[0].x, clampc((ll)p[0].y - st*3) };
        break; }
    case 8: { /* vertices placed exactly on existing edges' rounded midpoints */
        n = ri(3, 8);
        for (int i = 0; i < n; i++) {
            if (nS > 0 && ri(0, 3)) { seg *s = &S[rnd() % (unsigned)nS]; int t = ri(0, 4);
                p[i] = (pt){ (int)(((ll)s->a.x * (4-t) + (ll)s->b.x * t) / 4), (int)(((ll)s->a.y * (4-t) + (ll)s->b.y * t) / 4) }; }
            else p[i] = rp();
        }
        break; }
    case 10: { /* spokes: many edges that cross in one point, which is not a vertex (and may be between grid points) */
        n = nS == 0 && ri(0, 39) == 0 ? 2 * ri(50, 140) + 1 : 2 * ri(1, 8) + 1; int cx = ri(-range/2, range/2), cy = ri(-range/2, range/2);
        double r = range * (0.1 + 0.3 * (rnd() % 1000) / 1000.0), ph = rnd() % 1000 / 159.0; int jit = ri(0, 1);
        for (int i = 0; i < n; i++) { double a = ph + 3.141592653589793 * (i + (jit ? rnd() % 100 * .008 : 0)) / n, q = jit ? r * (0.5 + rnd() % 1000 / 2000.) : r;
            pt u = { clampc((ll)floor(cx * .5 + q*cos(a) + .5)), clampc((ll)floor(cy * .5 + q*sin(a) + .5)) }, v = { clampc((ll)cx - u.x), clampc((ll)cy - u.y) };
            p[2*i] = i & 1 ? v : u; p[2*i+1] = i & 1 ? u : v; }
        n_spoke += n > 100; n *= 2;
        break; }
    default: { /* copy of an existing polygon, shifted or reversed: full overlaps */
        n = ri(3, 6); int o = nS > n ? (int)(rnd() % (unsigned)(nS - n)) : 0; int dx = ri(-1, 1) * ri(0, 1), dy = ri(-1, 1) * ri(0, 1);
        for (int i = 0; i < n; i++) { if (nS > 0) { seg *s = &S[(o + i) % nS]; p[i] = (pt){ clampc((ll)s->a.x + dx), clampc((ll)s->a.y + dy) }; } else p[i] = rp(); }
        break; }
    }
    poly(p, n, m);
}

static void gen_case(unsigned seed)
{
    rs = 0x9E3779B97F4A7C15ULL * (seed + 1ULL) ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 8; i++) rnd();
    nS = 0;
    range = RANGES[rnd() % (sizeof(RANGES)/sizeof(*RANGES))];
    nmem = ri(0, 3) ? ri(1, 4) : ri(5, 10);
    int np = ri(1, 6) + (nmem > 4 ? nmem : 0);
    mode_of = ri(0, 12);
    for (int i = 0; i < np; i++) {
        unsigned bit = (unsigned)(i < nmem ? i : ri(0, nmem - 1));
        unsigned m = 1u << bit;
        if (ri(0, 15) == 0) { m = 1u + rnd() % ((1u << nmem) - 1); }
        gen_poly(m, mode_of < 11 ? mode_of : ri(0, 10));
        if (mode_of == 8 && i == 0) gen_poly(m, 0);
    }
    if (rnd() % 6 == 0) { /* coarse lattice: scale up */
        int k = ri(1, 6); if (range <= 5000) for (int i = 0; i < nS; i++) { S[i].a.x <<= k; S[i].a.y <<= k; S[i].b.x <<= k; S[i].b.y <<= k; }
        range <<= (range <= 5000) ? k : 0;
    }
    comb_size = (size_t)1 << nmem;
    memset(&comb, 0, sizeof comb);
    int f = ri(0, 5);
    for (size_t i = 0; i < comb_size; i++) {
        int v = 0;
        switch (f) {
        case 0: v = i != 0; break;                          /* or */
        case 1: v = i == comb_size - 1; break;              /* and */
        case 2: v = i == 1; break;                          /* first minus others */
        case 3: v = __builtin_popcountl(i) & 1; break;      /* xor */
        case 4: v = i ? (int)(rnd() & 1) : 0; break;        /* arbitrary function */
        case 5: v = __builtin_popcountl(i) >= (nmem + 1) / 2 && i; break;
        }
        cp_bool_bitmap_set(&comb, i, v);
    }
}

/* ---------------------------------------------------------------- oracle */

static ll cross(pt a, pt b, pt c) { return ((ll)b.x - a.x) * ((ll)c.y - a.y) - ((ll)b.y - a.y) * ((ll)c.x - a.x); }
static int sg(ll v) { return (v > 0) - (v < 0); }
static int eq(pt a, pt b) { return a.x == b.x && a.y == b.y; }
static int onseg(pt a, pt b, pt p) /* p strictly inside a-b, collinear given */
{ return (p.x < (a.x > b.x ? a.x : b.x) && p.x > (a.x < b.x ? a.x : b.x)) || (p.y < (a.y > b.y ? a.y : b.y) && p.y > (a.y < b.y ? a.y : b.y)); }

/* do two segments meet other than in common end points? */
static int bad_meet(pt a, pt b, pt c, pt d)
{
    int o1 = sg(cross(a, b, c)), o2 = sg(cross(a, b, d)), o3 = sg(cross(c, d, a)), o4 = sg(cross(c, d, b));
    if (o1 * o2 < 0 && o3 * o4 < 0) return 1;
    if (o1 == 0 && onseg(a, b, c)) return 2;
    if (o2 == 0 && onseg(a, b, d)) return 2;
    if (o3 == 0 && onseg(c, d, a)) return 2;
    if (o4 == 0 && onseg(c, d, b)) return 2;
    if (o1 == 0 && o2 == 0 && ((eq(a, c) && eq(b, d)) || (eq(a, d) && eq(b, c)))) return 3;
    return 0;
}

static double distseg(double x, double y, pt a, pt b)
{
    double ax = a.x, ay = a.y, dx = (double)b.x - a.x, dy = (double)b.y - a.y, l = dx*dx + dy*dy;
    double t = l > 0 ? ((x - ax) * dx + (y - ay) * dy) / l : 0; if (t < 0) t = 0; if (t > 1) t = 1;
    double ex = x - ax - t*dx, ey = y - ay - t*dy; return sqrt(ex*ex + ey*ey);
}

static ll nviol, n_edges, n_tris, n_paths, n_pts, n_in, n_crossing, n_nonempty, n_multi; static double maxdrift; static int fold_viol;
#define VIOL(key, ...) do { nviol++; printf("VIOL seed=%u key=%s ", cur_seed, key); printf(__VA_ARGS__); printf("\n"); return; } while (0)

typedef struct { pt a, b; int n; } dedge;  /* a<b; n = signed count */
static dedge D[400000]; static int nD;
static int dcmp(void const *p, void const *q)
{
    dedge const *a = p, *b = q;
    if (a->a.x != b->a.x) return a->a.x < b->a.x ? -1 : 1;
    if (a->a.y != b->a.y) return a->a.y < b->a.y ? -1 : 1;
    if (a->b.x != b->b.x) return a->b.x < b->b.x ? -1 : 1;
    if (a->b.y != b->b.y) return a->b.y < b->b.y ? -1 : 1;
    return 0;
}
static int plt(pt a, pt b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
static void dadd(pt a, pt b) { if (plt(a, b)) D[nD++] = (dedge){ a, b, 1 }; else D[nD++] = (dedge){ b, a, -1 }; }
/* merge equal edges; drops zero sums */
static void dmerge(void)
{
    qsort(D, (size_t)nD, sizeof *D, dcmp);
    int k = 0;
    for (int i = 0; i < nD; ) { int j = i, s = 0; while (j < nD && dcmp(&D[i], &D[j]) == 0) s += D[j++].n; if (s) { D[k] = D[i]; D[k++].n = s; } i = j; }
    nD = k;
}

static pt gp(cq_csg2_poly_t *r, size_t i) { cq_vec2_t v = cq_import_vec2(&r->point.data[i].coord); return (pt){ v.x, v.y }; }

static int how; static ll n_sub, n_triop, n_copy, n_cross;
/* all segments as one polygon: the copy has no intersections and follows the input, and the search for intersections agrees */
static void copy_case(cp_pool_t *pool)
{
    cq_v_line2_t g = {}; bool deg = false;
    for (int i = 0; i < nS; i++) { cq_line2_t l = { .a = { .x = S[i].a.x, .y = S[i].a.y }, .b = { .x = S[i].b.x, .y = S[i].b.y } }; cp_v_push(&g, l); deg |= eq(S[i].a, S[i].b); }
    cq_v_line2_t *r = cq_sweep_copy(pool, &g); n_copy++;
    if (nS < 3) { if (r->size) VIOL("copy", "%zu edges from %d", r->size, nS); }
    int n = (int)r->size;
    for (int w = deg ? 1 : 0; w < 2 && n <= 2500; w++) { /* of the input and of the result */
        cq_v_line2_t *q = w ? r : &g; int cr = 0, m = (int)q->size; cq_vec2if_t at; cq_line2_t const *la = NULL, *lb = NULL;
        for (int i = 0; i < m && cr != 1; i++) for (int j = i + 1; j < m; j++) {
            pt a = { q->data[i].a.x, q->data[i].a.y }, b = { q->data[i].b.x, q->data[i].b.y }, c = { q->data[j].a.x, q->data[j].a.y }, d = { q->data[j].b.x, q->data[j].b.y };
            int k = bad_meet(a, b, c, d); if (k == 1) { cr = 1; break; } if (k == 2) cr = 2; }
        if (w && cr) VIOL("copy-crossing", "kind %d", cr);
        bool full = rnd() & 1; int h = cq_has_intersect(full ? &at : NULL, full ? &la : NULL, full ? &lb : NULL, q); n_cross += cr == 1;
        if (cr && h == 0) VIOL("has-intersect", "a %s is not found among %d edges", cr == 1 ? "crossing" : "junction or overlap", m);
        if (cr == 0 && h != 0) VIOL("has-intersect", "a crossing is found among %d edges that do not cross", m);
        if (h && full) { if (!la || !lb || la < q->data || la >= q->data + m || lb < q->data || lb >= q->data + m) VIOL("has-intersect", "wrong edges");
            pt a = { la->a.x, la->a.y }, b = { la->b.x, la->b.y }, c = { lb->a.x, lb->a.y }, d = { lb->b.x, lb->b.y }; if (!bad_meet(a, b, c, d)) VIOL("has-intersect", "edges (%d,%d)-(%d,%d) and (%d,%d)-(%d,%d) do not cross", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y);
            bool col = cross(a, b, c) == 0 && cross(a, b, d) == 0; if (h != (col ? -1 : 1)) VIOL("has-intersect", "result %d for a%s", h, col ? "n overlap" : " single point");
            double x = at.x.i + (at.x.n ? (double)at.x.n / (double)at.x.d : 0), y = at.y.i + (at.y.n ? (double)at.y.n / (double)at.y.d : 0); if (distseg(x, y, a, b) > 1e-3 || distseg(x, y, c, d) > 1e-3) VIOL("has-intersect", "(%g,%g) is not on both edges", x, y); } }
    /* each follows the other (edges lying on each other stay, so that this is no statement about regions) */
    if (nS >= 3) for (int w = 0; w < 2; w++) for (int t = 0, m = w ? n : nS; t < 40 && m > 0; t++) {
        int k = (int)(rnd() % (unsigned)m), v = w ? nS : n; double f = rnd() % 1001 / 1000., d = 1e300; pt a = w ? (pt){ r->data[k].a.x, r->data[k].a.y } : S[k].a, b = w ? (pt){ r->data[k].b.x, r->data[k].b.y } : S[k].b; if (eq(a, b)) continue;
        double x = a.x + f * ((double)b.x - a.x), y = a.y + f * ((double)b.y - a.y);
        for (int j = 0; j < v; j++) { pt c = w ? S[j].a : (pt){ r->data[j].a.x, r->data[j].a.y }, e = w ? S[j].b : (pt){ r->data[j].b.x, r->data[j].b.y }; double q = distseg(x, y, c, e); if (q < d) d = q; }
        if (d > 1.5) VIOL("copy-drift", "(%g,%g) of the %s is %g units off", x, y, w ? "copy" : "input", d); }
    cp_v_delete(&r); cp_v_fini(&g);
}

static void run_case(cp_pool_t *pool)
{
    cq_sweep_t *s = cq_sweep_new(pool, NULL, (size_t)(rnd() & 1 ? 0 : nS));
    /* use all ways of adding edges */
    how = ri(0, 4);
    for (int i = 0; i < nS; ) {
        int j = i; while (j < nS && S[j].m == S[i].m) j++;
        if (how == 0) {
            for (; i < j; i++) { cq_vec2_t a = { .x = S[i].a.x, .y = S[i].a.y }, b = { .x = S[i].b.x, .y = S[i].b.y }; cq_sweep_add_edge(s, &a, &b, S[i].m); }
        } else {
            cq_v_line2_t g = {};
            for (int k = i; k < j; k++) { cq_line2_t l = { .a = { .x = S[k].a.x, .y = S[k].a.y }, .b = { .x = S[k].b.x, .y = S[k].b.y } }; cp_v_push(&g, l); }
            if (how >= 3 && (rnd() & 1)) {
                /* an operand that is the result of an operation itself */
                cp_bool_bitmap_t one = {}; cp_bool_bitmap_set(&one, 1, 1);
                cq_sweep_t *u = cq_sweep_new(pool, NULL, 0);
                cq_sweep_add_v_line2(u, &g, 1); cq_sweep_intersect(u); cq_sweep_reduce(u, &one, 2);
                n_sub++;
                if (how == 3) cq_sweep_add_sweep(s, u, S[i].m);
                else { cq_csg2_poly_t Q = {}; cp_err_t e2 = {}; /* as paths, or as triangles only */
                    if (rnd() & 1 ? !cq_sweep_trianglify(&e2, u, &Q) : !cq_sweep_poly(&e2, u, &Q)) VIOL("poly-failed", "operand");
                    n_triop += Q.tri.size > 0; cq_sweep_add_poly(s, &Q, S[i].m);
                    for (cp_v_eachp(q, &Q.path)) cp_v_fini(&q->point_idx);
                    cp_v_fini(&Q.point); cp_v_fini(&Q.path); cp_v_fini(&Q.tri); }
                cq_sweep_delete(u);
            }
            else cq_sweep_add_v_line2(s, &g, S[i].m);
            cp_v_fini(&g);
        }
        i = j;
    }
    if (how < 3) { /* the bounding box of everything added, joined with what was there */
        cq_vec2_minmax_t bb = CQ_VEC2_MINMAX_INIT, w = CQ_VEC2_MINMAX_INIT; if (rnd() & 1) { pt q = rp(); w.min.x = w.max.x = q.x; w.min.y = w.max.y = q.y; bb = w; }
        for (int i = 0; i < nS; i++) if (!eq(S[i].a, S[i].b)) for (int k = 0; k < 2; k++) { pt q = k ? S[i].b : S[i].a; if (q.x < w.min.x) w.min.x = q.x; if (q.x > w.max.x) w.max.x = q.x; if (q.y < w.min.y) w.min.y = q.y; if (q.y > w.max.y) w.max.y = q.y; }
        cq_sweep_minmax(&bb, s);
        if (bb.min.x != w.min.x || bb.min.y != w.min.y || bb.max.x != w.max.x || bb.max.y != w.max.y) VIOL("minmax", "(%d,%d)-(%d,%d), expected (%d,%d)-(%d,%d)", bb.min.x, bb.min.y, bb.max.x, bb.max.y, w.min.x, w.min.y, w.max.x, w.max.y); }
    cq_sweep_intersect(s);
    cq_sweep_reduce(s, &comb, comb_size);
    cq_v_line2_t L = {};
    cq_sweep_get_v_line2(&L, s);
    cp_err_t err = {};
    cq_csg2_poly_t P = {}, T = {};
    bool emp = cq_sweep_empty(s);
    bool ok1 = cq_sweep_poly(&err, s, &P);
    bool ok2 = cq_sweep_trianglify(&err, s, &T);
    
    cq_sweep_delete(s);

    int n = (int)L.size;
    n_edges += n;
    if (n) n_nonempty++;
    if (!ok1) VIOL("poly-failed", "%s", err.msg.data ? err.msg.data : "");
    if (!ok2) VIOL("tri-failed", "%s", err.msg.data ? err.msg.data : "");
    if (emp != (n == 0)) VIOL("empty", "cq_sweep_empty says %d, there are %d edges", emp, n);

    /* 1. no two result edges meet except at end points; no degenerate edges */
    for (int i = 0; i < n; i++) {
        pt a = { L.data[i].a.x, L.data[i].a.y }, b = { L.data[i].b.x, L.data[i].b.y };
        if (eq(a, b)) VIOL("degenerate-edge", "(%d,%d)", a.x, a.y);
        for (int j = i + 1; j < n; j++) {
            pt c = { L.data[j].a.x, L.data[j].a.y }, d = { L.data[j].b.x, L.data[j].b.y };
            int k = bad_meet(a, b, c, d);
            if (k) VIOL(k == 1 ? "crossing" : k == 2 ? "touching" : "duplicate", "(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d)", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y);
        }
    }
    /* 2. even degree */
    nD = 0;
    for (int i = 0; i < n; i++) { D[nD++] = (dedge){ { L.data[i].a.x, L.data[i].a.y }, {0,0}, 1 }; D[nD++] = (dedge){ { L.data[i].b.x, L.data[i].b.y }, {0,0}, 1 }; }
    dmerge();
    for (int i = 0; i < nD; i++) { if (D[i].n & 1) VIOL("odd-degree", "(%d,%d) %d", D[i].a.x, D[i].a.y, D[i].n); if (D[i].n > 2) n_multi++; }

    /* 3. new vertices and edges stay close to the input */
    for (int i = 0; i < n; i++) {
        pt q[3] = { { L.data[i].a.x, L.data[i].a.y }, { L.data[i].b.x, L.data[i].b.y } };
        double mx = ((double)q[0].x + q[1].x) / 2, my = ((double)q[0].y + q[1].y) / 2;
        for (int k = 0; k < 3; k++) {
            double x = k < 2 ? q[k].x : mx, y = k < 2 ? q[k].y : my, d = 1e300;
            for (int j = 0; j < nS; j++) { double e = distseg(x, y, S[j].a, S[j].b); if (e < d) d = e; }
            if (d > maxdrift) maxdrift = d;
            if (d > (how >= 3 ? 2.5 : 1.5)) VIOL("drift", "(%g,%g) is %g units off any input edge", x, y, d);
        }
    }

    /* 4. triangles: same orientation, cover exactly the region (chain equality with the result edges) */
    for (size_t i = 0; i < T.tri.size; i++) {
        cp_csg2_tri_t *t = &T.tri.data[i]; pt p[3];
        for (int k = 0; k < 3; k++) { if (t->p[k] >= T.point.size) VIOL("tri-index", "%zu", t->p[k]); p[k] = gp(&T, t->p[k]); }
        ll c = cross(p[0], p[1], p[2]);
        if (c >= 0) VIOL("tri-orientation", "(%d,%d) (%d,%d) (%d,%d) has twice the area %lld", p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y, c);
    }
    n_tris += (ll)T.tri.size;
    nD = 0;
    for (size_t i = 0; i < T.tri.size; i++) { cp_csg2_tri_t *t = &T.tri.data[i]; for (int k = 0; k < 3; k++) dadd(gp(&T, t->p[k]), gp(&T, t->p[(k+1)%3])); }
    dmerge();
    if (nD != n) VIOL("tri-boundary", "triangles have %d boundary edges, polygon has %d edges", nD, n);
    static dedge B[400000]; int nB = nD; memcpy(B, D, sizeof(*D) * (size_t)nD);
    nD = 0;
    for (int i = 0; i < n; i++) { pt a = { L.data[i].a.x, L.data[i].a.y }, b = { L.data[i].b.x, L.data[i].b.y }; dadd(a, b); D[nD-1].n = 1; }
    qsort(D, (size_t)nD, sizeof *D, dcmp);
    for (int i = 0; i < n; i++) {
        if (dcmp(&B[i], &D[i])) VIOL("tri-boundary", "edge (%d,%d)-(%d,%d) of the polygon is no boundary of the triangles", D[i].a.x, D[i].a.y, D[i].b.x, D[i].b.y);
        if (B[i].n != 1 && B[i].n != -1) VIOL("tri-boundary", "edge counted %d times", B[i].n);
    }
    /* outline flags: exactly the boundary edges */
    nD = 0;
    for (size_t i = 0; i < T.tri.size; i++) { cp_csg2_tri_t *t = &T.tri.data[i]; static const unsigned fl[3] = { CP_CSG2_TRI_OUTLINE_01, CP_CSG2_TRI_OUTLINE_12, CP_CSG2_TRI_OUTLINE_20 };
        for (int k = 0; k < 3; k++) if (t->flags & fl[k]) dadd(gp(&T, t->p[k]), gp(&T, t->p[(k+1)%3])); }
    int raw = nD; dmerge();
    if (raw != nB || nD != nB) VIOL("tri-outline", "%d outline flags, %d boundary edges", raw, nB);
    for (int i = 0; i < nB; i++) if (dcmp(&B[i], &D[i]) || B[i].n != D[i].n) VIOL("tri-outline", "outline flag mismatch at (%d,%d)-(%d,%d)", B[i].a.x, B[i].a.y, B[i].b.x, B[i].b.y);

    /* 5. paths: each edge once, oriented like the triangles; unique points */
    nD = 0;
    for (size_t i = 0; i < P.path.size; i++) {
        cp_v_size_t *q = &P.path.data[i].point_idx;
        if (q->size < 3) VIOL("short-path", "%zu points", q->size);
        for (size_t k = 0; k < q->size; k++) { if (q->data[k] >= P.point.size) VIOL("path-index", "%zu", q->data[k]); dadd(gp(&P, q->data[k]), gp(&P, q->data[(k+1) % q->size])); }
        for (size_t k = 0; k < q->size; k++) for (size_t l = k + 1; l < q->size; l++) if (q->data[k] == q->data[l]) VIOL("path-repeats-point", "path %zu", i);
    }
    n_paths += (ll)P.path.size;
    int rawp = nD; dmerge();
    if (rawp != n || nD != n) VIOL("path-edges", "paths have %d edges (%d after cancellation), polygon has %d", rawp, nD, n);
    for (int i = 0; i < n; i++) if (dcmp(&B[i], &D[i]) || B[i].n != D[i].n) VIOL("path-orientation", "edge (%d,%d)-(%d,%d): paths %d, triangles %d", D[i].a.x, D[i].a.y, D[i].b.x, D[i].b.y, D[i].n, B[i].n);
    for (int w = 0; w < 2; w++) { cq_csg2_poly_t *q = w ? &T : &P; nD = 0; for (size_t i = 0; i < q->point.size; i++) D[nD++] = (dedge){ gp(q, i), {0,0}, 1 }; int k = nD; dmerge(); if (k != nD) VIOL("duplicate-point", "in %s", w ? "triangles" : "paths"); }

    /* 6. membership at points away from all input edges */
    int lim = 24, tries = 60;
    for (int t = 0; t < tries && lim > 0; t++) {
        double x, y;
        if ((t & 1) && nS > 0) { seg *q = &S[rnd() % (unsigned)nS]; double u = (rnd() % 1000) / 1000.0, o = (how >= 3 ? 4 : 2.4) * pow(1.3, rnd() % 22) * ((rnd() & 1) ? 1 : -1), dx = (double)q->b.x - q->a.x, dy = (double)q->b.y - q->a.y, l = sqrt(dx*dx + dy*dy); if (l < 1) continue;
            x = q->a.x + u*dx - o*dy/l; y = q->a.y + u*dy + o*dx/l; }
        else { x = (double)R64(-range, range); y = (double)R64(-range, range); }
        x = floor(x) + .5; y = floor(y) + .5;
        double d = 1e300;
        for (int j = 0; j < nS; j++) { double e = distseg(x, y, S[j].a, S[j].b); if (e < d) d = e; }
        if (d < (how >= 3 ? 3.0 : 1.6)) continue;
        unsigned m = 0;
        for (int j = 0; j < nS; j++) { pt a = S[j].a, b = S[j].b; if ((a.y > y) != (b.y > y)) { double xi = a.x + (y - a.y) * ((double)b.x - a.x) / ((double)b.y - a.y); if (x < xi) m ^= S[j].m; } }
        int want = cp_bool_bitmap_get(&comb, m), got = 0;
        for (int j = 0; j < n; j++) { pt a = { L.data[j].a.x, L.data[j].a.y }, b = { L.data[j].b.x, L.data[j].b.y }; if ((a.y > y) != (b.y > y)) { double xi = a.x + (y - a.y) * ((double)b.x - a.x) / ((double)b.y - a.y); if (x < xi) got ^= 1; } }
        n_pts++; n_in += want; lim--;
        if (want != got) VIOL("membership", "point (%g,%g), %g units off all edges: mask 0x%x expects %d, result says %d", x, y, d, m, want, got);
    }
    cp_v_fini(&L); 
    for (cp_v_eachp(i, &P.path)) cp_v_fini(&i->point_idx);
    cp_v_fini(&P.point); cp_v_fini(&P.path); cp_v_fini(&P.tri);
    for (cp_v_eachp(i, &T.path)) cp_v_fini(&i->point_idx);
    cp_v_fini(&T.point); cp_v_fini(&T.path); cp_v_fini(&T.tri);
}

static void on_sig(int sg_)
{
    char b[96]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d\n", cur_seed, sg_);
    fflush(stdout);
    if (write(1, b, (size_t)k)) {}
    signal(sg_, SIG_DFL); raise(sg_);
}

int main(int argc, char **argv)
{
    unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int cnt = atoi(argv[2]); dump = argc > 3;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
#ifndef HOB_SAN
    signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig);
#endif
    cp_pool_t pool[1]; cp_pool_init(pool);
    cq_dim_scale = 1.0;
    for (int i = 0; i < cnt; i++) {
        cur_seed = s0 + (unsigned)i;
        gen_case(cur_seed);
        if (dump) { printf("members %d comb", nmem); for (size_t k = 0; k < comb_size; k++) putchar(cp_bool_bitmap_get(&comb, k) ? '1' : '0'); putchar('\n');
            for (int k = 0; k < nS; k++) printf("%d,%d %d,%d m=0x%x\n", S[k].a.x, S[k].a.y, S[k].b.x, S[k].b.y, S[k].m); fflush(stdout); }
        alarm(20);
        run_case(pool);
        if (cur_seed % 4 == 0 && nS <= 150) { cp_pool_clear(pool); alarm(20); copy_case(pool); }
        cp_pool_clear(pool);
        if (nviol > 20) break;
    }
    alarm(0);
    printf("STAT edges=%lld tris=%lld paths=%lld points=%lld inside=%lld nonempty=%lld multi_vertices=%lld maxdrift=%.3f sub_operations=%lld triangle_operands=%lld copies=%lld crossing_inputs=%lld stars_over_100=%lld\n", n_edges, n_tris, n_paths, n_pts, n_in, n_nonempty, n_multi, maxdrift, n_sub, n_triop, n_copy, n_cross, n_spoke);
    printf("DONE\n");
    return 0;
}
