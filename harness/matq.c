/* Exact arithmetic of the 2D core, compared with 128-bit arithmetic. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <hob3lop/hedron.h>
#include <hob3lop/matq.h>
typedef __int128 Q; typedef unsigned __int128 UQ; typedef long long ll; typedef unsigned long long ull;
static ull rs; static unsigned cur; static int nviol;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static ull r64(void) { return ((ull)rnd() << 42) ^ ((ull)rnd() << 21) ^ rnd(); }
static ll RB(int bits) { /* signed value with at most bits magnitude bits, biased to edges */
    int k = (int)(rnd() % (unsigned)(bits + 1)); ull m = k ? (r64() & ((1ULL << k) - 1)) : 0;
    switch (rnd() % 8) { case 0: m = (k ? (1ULL << k) - 1 : 0); break; case 1: m = k ? 1ULL << (k - 1) : 0; break; }
    ll v = (ll)m; return (rnd() & 1) ? -v : v; }
#define VIOL(key, ...) do { nviol++; printf("VIOL seed=%u key=%s ", cur, key); printf(__VA_ARGS__); printf("\n"); return; } while (0)
static ll n_x, n_touch, n_par, n_none, n_cmp, n_eq, n_edge, n_edge0, n_div, n_round, n_near;
static int sgq(Q v) { return (v > 0) - (v < 0); }

/* exact rational compare of i + n/d; d < 2^63, |i| < 2^31 */
static int cmpif(cq_dimif_t const *a, cq_dimif_t const *b)
{
    if (a->i != b->i) return a->i < b->i ? -1 : 1;
    UQ l = (UQ)a->n * b->d, r = (UQ)b->n * a->d; return l < r ? -1 : l > r;
}

static void t_intersect(cq_vec2if_t *keep, int *have)
{
    int bits = 1 + (int)(rnd() % 30); cq_vec2_t p[4]; int mode = (int)(rnd() % 6);
    for (int k = 0; k < 4; k++) { p[k].x = (int)RB(bits); p[k].y = (int)RB(bits); }
    if (mode == 1) { /* p3 on p1-p2 (rounded) */ ll t = rnd() % 1024; p[2].x = (int)(p[0].x + ((Q)p[1].x - p[0].x) * t / 1024); p[2].y = (int)(p[0].y + ((Q)p[1].y - p[0].y) * t / 1024); }
    if (mode == 2) p[rnd() % 2 + 2] = p[rnd() % 2];
    if (mode == 3) { p[3].x = p[2].x + (p[1].x - p[0].x) / 2; p[3].y = p[2].y + (p[1].y - p[0].y) / 2; if (p[3].x > (1<<30)-1 || p[3].x < -(1<<30)+1 || p[3].y > (1<<30)-1 || p[3].y < -(1<<30)+1) return; }
    if (mode == 4) { /* guaranteed crossing: long diagonals */ p[0].x = -abs(p[0].x); p[1].x = abs(p[1].x); p[2].y = -abs(p[2].y); p[3].y = abs(p[3].y); }
    Q x21 = (Q)p[1].x - p[0].x, y21 = (Q)p[1].y - p[0].y, x43 = (Q)p[3].x - p[2].x, y43 = (Q)p[3].y - p[2].y, x31 = (Q)p[2].x - p[0].x, y31 = (Q)p[2].y - p[0].y;
    Q d = x21 * y43 - y21 * x43, t = x31 * y43 - y31 * x43, u = x31 * y21 - y31 * x21;
    cq_vec2if_t r; memset(&r, 0, sizeof r);
    int g = cq_vec2if_intersect(&r, p[0], p[1], p[2], p[3]);
#define PP "(%d,%d)-(%d,%d) x (%d,%d)-(%d,%d)"
#define PA p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y, p[3].x, p[3].y
    if (d == 0) { n_par++; if (g != -1) VIOL("intersect-parallel", PP " gives %d", PA, g); return; }
    if (d < 0) { d = -d; t = -t; u = -u; }
    if (t < 0 || t > d || u < 0 || u > d) { n_none++; if (g != 0) VIOL("intersect-none", PP " gives %d", PA, g); return; }
    int want = 1 | (t == 0 ? 2 : 0) | (t == d ? 4 : 0) | (u == 0 ? 8 : 0) | (u == d ? 16 : 0);
    if (g != want) VIOL("intersect-class", PP " gives %d, expected %d", PA, g, want);
    if (want != 1) n_touch++; else n_x++;
    cq_dimif_t *c[2] = { &r.x, &r.y }; Q o[2] = { p[0].x, p[0].y }, v[2] = { x21, y21 };
    for (int k = 0; k < 2; k++) {
        if (c[k]->d == 0 || c[k]->n >= c[k]->d) VIOL("intersect-fraction", PP " coordinate %d: n=%llu d=%llu", PA, k, (ull)c[k]->n, (ull)c[k]->d);
        /* i + n/cd == o + v*t/d   <=>  (i-o)*cd*d + n*d == v*t*cd : use quotient/remainder to stay within 128 bits */
        Q num = v[k] * t, fl = num / d, rem = num % d; if (rem < 0) { rem += d; fl--; }
        if ((Q)c[k]->i != o[k] + fl) VIOL("intersect-value", PP " coordinate %d: integer part %d", PA, k, c[k]->i);
        if ((UQ)c[k]->n * (UQ)d != (UQ)rem * (UQ)c[k]->d) VIOL("intersect-value", PP " coordinate %d: fraction %llu/%llu", PA, k, (ull)c[k]->n, (ull)c[k]->d);
        /* rounding: floor(value + 1/2) */
        Q rd = o[k] + fl + ((2 * rem >= d) ? 1 : 0); n_round++;
        if (cq_round(c[k]) != rd) VIOL("round", PP " coordinate %d: %d + %llu/%llu rounds to %d", PA, k, c[k]->i, (ull)c[k]->n, (ull)c[k]->d, cq_round(c[k]));
        if (cq_dim_dimif_cmp((int)(o[k] + fl), c[k]) != (rem > 0 ? -1 : 0)) VIOL("dim-cmp", PP, PA);
        if (cq_dim_dimif_cmp((int)(o[k] + fl) + 1, c[k]) != 1 || cq_dim_dimif_cmp((int)(o[k] + fl) - 1, c[k]) != -1) VIOL("dim-cmp", PP, PA);
    }
    /* symmetric: the same point whatever the order of segments and end points */
    cq_vec2if_t r2; int g2 = cq_vec2if_intersect(&r2, p[3], p[2], p[1], p[0]);
    if (!(g2 & 1) || g2 < 0 || !cq_vec2if_eq(&r, &r2) || cq_vec2if_cmp(&r, &r2) != 0) VIOL("intersect-symmetric", PP, PA);
    cq_vec2_t ri; if (cq_vec2_intersect(&ri, p[0], p[1], p[2], p[3]) != g || ri.x != cq_round(&r.x) || ri.y != cq_round(&r.y)) VIOL("intersect-round", PP, PA);
    if (*have) {
        cq_dimif_t a = r.x, b = keep->x; if (rnd() & 1) b.i = a.i; if (rnd() % 8 == 0) b = a;
        int e = cmpif(&a, &b); n_cmp++; if (!e) n_eq++;
        int f = cq_dimif_cmp(&a, &b); if ((f > 0) - (f < 0) != e) VIOL("cmp", "%d+%llu/%llu vs %d+%llu/%llu gives %d", a.i, (ull)a.n, (ull)a.d, b.i, (ull)b.n, (ull)b.d, f);
        if (a.i == b.i) { f = cq_dimif_cmp_frac_aux(&a, &b); if ((f > 0) - (f < 0) != e) VIOL("cmp-aux", "%llu/%llu vs %llu/%llu gives %d", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d, f); }
        if (cq_dimif_eq(&a, &b) != (e == 0)) VIOL("cmp-eq", "%d", a.i);
    }
    *keep = r; *have = 1;
}

/* fractions as near to each other as can be: neighbours (cross products differ by 1) and other small changes */
static void t_near(void)
{
    cq_dimif_t a = { .i = (int)RB(30) }, b; int bits = 2 + (int)(rnd() % 61); a.d = (r64() >> (64 - bits)) | 1ULL << (bits - 1); a.n = r64() % a.d; b = a;
    switch (rnd() % 4) {
    case 0: { Q r0 = a.d, r1 = a.n, s0 = 0, s1 = 1; while (r1) { Q q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; } /* s0 * n == gcd mod d */
        a.n /= (ull)r0; a.d /= (ull)r0; Q x = s0 % (Q)a.d; if (x <= 0) x += a.d; b.d = (ull)x; b.n = (ull)(((UQ)a.n * b.d) / a.d); break; }
    case 1: b.d = (r64() >> (2 + rnd() % 61)) + 1; b.n = (ull)((UQ)a.n * b.d / a.d) + rnd() % 2; break;
    case 2: { ull k = 1 + r64() % ((~0ULL >> 2) / a.d + 1); b.n = a.n * k; b.d = a.d * k; b.n += rnd() % 3; b.n -= b.n > 0 ? rnd() % 2 : 0; break; }
    default: b.n += rnd() % 3; b.d += rnd() % 3; }
    if (b.n >= b.d) b.n = b.d - 1;
    if (rnd() & 1) { cq_dimif_t t = a; a = b; b = t; }
    int e = cmpif(&a, &b), f = cq_dimif_cmp(&a, &b); n_near++; n_eq += !e;
    if ((f > 0) - (f < 0) != e) VIOL("cmp", "%llu/%llu vs %llu/%llu gives %d", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d, f);
    f = cq_dimif_cmp_frac_aux(&a, &b); if ((f > 0) - (f < 0) != e) VIOL("cmp-aux", "%llu/%llu vs %llu/%llu gives %d", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d, f);
    if (cq_dimif_eq(&a, &b) != (e == 0)) VIOL("cmp-eq", "%llu/%llu vs %llu/%llu", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d);
    cq_vec2if_t u = { .x = a, .y = a }, v = { .x = a, .y = b }; /* x decides first */
    f = cq_vec2if_cmp(&u, &v); if ((f > 0) - (f < 0) != e) VIOL("vec-cmp", "%llu/%llu vs %llu/%llu gives %d", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d, f);
    u.x = a; u.y = b; v.x = b; v.y = a; f = cq_vec2if_cmp(&u, &v); if ((f > 0) - (f < 0) != e) VIOL("vec-cmp", "%llu/%llu vs %llu/%llu gives %d", (ull)a.n, (ull)a.d, (ull)b.n, (ull)b.d, f);
}

static void t_edge(void)
{
    int bits = 1 + (int)(rnd() % 30); ll c[6]; for (int k = 0; k < 6; k++) c[k] = RB(bits);
    if (rnd() & 1) { /* near the line, inside the box */ ll t = rnd() % 1025; c[0] = c[2] + (ll)(((Q)c[4] - c[2]) * t / 1024) + (int)(rnd() % 3) - 1; c[1] = c[3] + (ll)(((Q)c[5] - c[3]) * t / 1024) + (int)(rnd() % 3) - 1; }
    for (int k = 0; k < 6; k++) if (c[k] >= (1 << 30) || c[k] <= -(1 << 30)) return;
    int vx = (int)c[0], vy = (int)c[1], lx = (int)c[2], ly = (int)c[3], kx = (int)c[4], ky = (int)c[5];
    if (lx == kx && ly == ky) return;
    if (lx < kx || (lx == kx && ly < ky)) { int q = lx; lx = kx; kx = q; q = ly; ly = ky; ky = q; } /* by contract l is the right end */
    Q bb = ((Q)vx - lx) * ((Q)ky - ly) - ((Q)vy - ly) * ((Q)kx - lx);
    Q s = (ky > ly ? (Q)ky - ly : (Q)ly - ky) + (kx > lx ? (Q)kx - lx : (Q)lx - kx);
    if (cq_right_cross3_z(vx, vy, lx, ly, kx, ky) != (ll)bb) VIOL("cross", "(%d,%d) (%d,%d) (%d,%d)", vx, vy, lx, ly, kx, ky);
    int g = cq_cmp_edge_rnd(vx, vy, lx, ly, kx, ky); n_edge++;
    int out = (vx < lx && vx < kx) || (vx > lx && vx > kx) || (vy < ly && vy < ky) || (vy > ly && vy > ky);
    Q ab = bb < 0 ? -bb : bb; int ok;
    if (out) ok = bb ? g == sgq(bb) : (g == 1 || g == -1);
    else if (2 * ab < s) { ok = g == 0; n_edge0++; }
    else if (2 * ab > s) ok = g == sgq(bb);
    else ok = g == 0 || g == sgq(bb);
    if (!ok) VIOL("edge-rnd", "v=(%d,%d) l=(%d,%d) k=(%d,%d) gives %d", vx, vy, lx, ly, kx, ky, g);
}

static void t_div(void)
{
    int x = (int)RB(31), d = (int)RB(31); n_div++;
    if (d != 0) {
        cq_divmod_t v = cq_divmod(x, d);
        if ((Q)v.div * d + v.mod != x || v.mod < 0 || (Q)v.mod >= (d < 0 ? -(Q)d : (Q)d)) VIOL("divmod", "%d / %d = %d rest %d", x, d, v.div, v.mod);
    }
    ll X = RB(62), W = RB(62);
    if (W != 0) {
        cq_divmodw_t v = cq_divmodw(X, W);
        if ((Q)v.div * W + v.mod != X || v.mod < 0 || (Q)v.mod >= (W < 0 ? -(Q)W : (Q)W)) VIOL("divmodw", "%lld / %lld", X, W);
        if (W > 0 && cq_divw_rnd(X, W) != v.div + (2 * (Q)v.mod >= W ? 1 : 0)) VIOL("divw-rnd", "%lld / %lld", X, W);
    }
    if (d != 0) {   /* wide by normal, result fits */
        ll q = RB(30); Q y = (Q)q * d + (ll)(r64() % (ull)(d < 0 ? -(ll)d : (ll)d));
        cq_divmod_t v = cq_divmodx((ll)y, d);
        if ((Q)v.div * d + v.mod != y || v.mod < 0 || (Q)v.mod >= (d < 0 ? -(Q)d : (Q)d)) VIOL("divmodx", "%lld / %d = %d rest %d", (ll)y, d, v.div, v.mod);
    }
    ull a = r64() >> (rnd() % 64), b = r64() >> (rnd() % 64); if (rnd() % 16 == 0) a = ~0ULL; if (rnd() % 16 == 0) b = ~0ULL;
    UQ w = (UQ)a * b; cq_udimq_t m = cq_udimw_mul(a, b), n = cq_udimw_mul_aux(a, b);
    if (cq_udimq_max(m) != (ull)(w >> 64) || cq_udimq_min(m) != (ull)w) VIOL("mul", "%llu * %llu", a, b);
    if (cq_udimq_max(n) != (ull)(w >> 64) || cq_udimq_min(n) != (ull)w) VIOL("mul-aux", "%llu * %llu", a, b);
    if (!cq_udimq_eq(m, n) || cq_udimq_cmp(m, n)) VIOL("mul-eq", "%llu * %llu", a, b);
}
static void on_sig(int s) { char b[96]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d\n", cur, s); fflush(stdout); if (write(1, b, (size_t)k)) {} signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv)
{
    (void)argc; unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int cnt = atoi(argv[2]); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
#ifndef HOB_SAN
    signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig);
#endif
    cq_vec2if_t keep; int have = 0;
    for (int i = 0; i < cnt && nviol < 20; i++) {
        cur = s0 + (unsigned)i; rs = 0x9E3779B97F4A7C15ULL * (cur + 1ULL) ^ 0xA5A5A5A5DEADBEEFULL; for (int k = 0; k < 8; k++) rnd();
        have = 0;
        alarm(30);
        for (int k = 0; k < 200 && nviol < 20; k++) { t_intersect(&keep, &have); t_near(); t_edge(); t_div(); }
    }
    alarm(0);
    printf("STAT crossings=%lld touching=%lld parallel=%lld disjoint=%lld compared=%lld near=%lld compared_equal=%lld rounded=%lld edge_tests=%lld edge_hits=%lld divisions=%lld\nDONE\n", n_x, n_touch, n_par, n_none, n_cmp, n_near, n_eq, n_round, n_edge, n_edge0, n_div);
    return 0;
}
