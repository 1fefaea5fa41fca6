/* Vectors, matrices (with and without inverse), trigonometry and interpolation against long double references. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <hob3lmat/mat.h>
#include <hob3lbase/arith.h>
typedef long double LD; typedef long long ll; typedef unsigned long long ull;
static ull rs; static unsigned cur; static int nviol; static char const *opn = "";
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static unsigned R(unsigned n) { return n ? rnd() % n : 0; }
static double U(void) { return (double)(rnd() & 0xffffff) / 0x1p24 + (double)(rnd() & 0xfffff) / 0x1p44; }
static double F(void) { switch (R(8)) { case 0: return (double)(int)R(9) - 4; case 1: return 0; case 2: return (U() - .5) * 2e3; case 3: return (U() - .5) * .01; default: return (U() - .5) * 10; } }
static double NZ(void) { double f; do f = F(); while (fabs(f) < 0.05); return f; }
#define VIOL(key, ...) do { if (nviol++ < 20) { printf("VIOL seed=%u key=%s ", cur, key); printf(__VA_ARGS__); printf("\n"); } } while (0)
static ll n_mat, n_mul, n_inv, n_vec, n_trig, n_int, n_circ, n_conv, n_cmp, n_arith, n_short;
typedef struct { int n; LD m[4][4]; } M;
static M I(int n) { M r = { n }; for (int i = 0; i < n; i++) r.m[i][i] = 1; return r; }
static M mul(M const *a, M const *b) { M r = { a->n }; for (int i = 0; i < a->n; i++) for (int j = 0; j < a->n; j++) for (int k = 0; k < a->n; k++) r.m[i][j] += a->m[i][k] * b->m[k][j]; return r; }
static LD nrm(M const *a) { LD s = 0; for (int i = 0; i < a->n; i++) for (int j = 0; j < a->n; j++) s += a->m[i][j] * a->m[i][j]; return sqrtl(s); }
static LD dist(M const *a, M const *b) { LD s = 0; for (int i = 0; i < a->n; i++) for (int j = 0; j < a->n; j++) { LD d = fabsl(a->m[i][j] - b->m[i][j]); if (!(d <= s)) s = d; } return s; }
static LD inv(M const *a, M *r) { /* Gauss-Jordan with full row pivoting; returns the determinant */
    M x = *a; *r = I(a->n); LD det = 1; int n = a->n;
    for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(x.m[i][c]) > fabsl(x.m[p][c])) p = i; if (x.m[p][c] == 0) return 0;
        if (p != c) { det = -det; for (int j = 0; j < n; j++) { LD t = x.m[p][j]; x.m[p][j] = x.m[c][j]; x.m[c][j] = t; t = r->m[p][j]; r->m[p][j] = r->m[c][j]; r->m[c][j] = t; } }
        LD d = x.m[c][c]; det *= d; for (int j = 0; j < n; j++) { x.m[c][j] /= d; r->m[c][j] /= d; }
        for (int i = 0; i < n; i++) if (i != c) { LD f = x.m[i][c]; for (int j = 0; j < n; j++) { x.m[i][j] -= f * x.m[c][j]; r->m[i][j] -= f * r->m[c][j]; } } }
    return det; }
static M g_mat2(cp_mat2_t const *a) { M r = { 2 }; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] = a->m[i][j]; return r; }
static M g_mat3(cp_mat3_t const *a) { M r = { 3 }; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a->m[i][j]; return r; }
static M g_mat4(cp_mat4_t const *a) { M r = { 4 }; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = a->m[i][j]; return r; }
static M g_mat2w(cp_mat2w_t const *a) { M r = g_mat2(&a->b); r.n = 3; for (int i = 0; i < 2; i++) r.m[i][2] = a->w.v[i]; r.m[2][2] = 1; return r; }
static M g_mat3w(cp_mat3w_t const *a) { M r = g_mat3(&a->b); r.n = 4; for (int i = 0; i < 3; i++) r.m[i][3] = a->w.v[i]; r.m[3][3] = 1; return r; }
static char *pm(M const *a) { static char b[2][700]; static int w; char *p = b[w ^= 1]; int k = 0; for (int i = 0; i < a->n; i++) { k += sprintf(p + k, "["); for (int j = 0; j < a->n; j++) k += sprintf(p + k, "%.9Lg ", a->m[i][j]); k += sprintf(p + k, "]"); } return p; }
static void same(char const *ty, char const *op, M const *got, M const *want, LD tol) { n_mat++; LD d = dist(got, want); if (!(d <= tol)) VIOL("matrix", "%s %s: got %s expected %s (difference %Lg)", ty, op, pm(got), pm(want), d); }
/* matrix with inverse: n as expected, i really the inverse, d the determinant */
static void samei(char const *ty, char const *op, M const *n, M const *i, double d, M const *want, LD tol, bool full) {
    same(ty, op, n, want, tol); if (!full) return; M r; LD det = inv(n, &r); n_inv++;
    M p = mul(n, i); M one = I(n->n); LD t = 1e-13L * (1 + nrm(n) * nrm(&r)); if (nrm(n) * nrm(&r) > 1e8L) return;
    if (!(dist(&p, &one) <= t * 10)) VIOL("inverse", "%s %s: matrix %s, inverse %s", ty, op, pm(n), pm(i));
    if (!(fabsl(det - d) <= 1e-13L * (1 + fabsl(det)) * (1 + nrm(n) * nrm(&r)))) VIOL("determinant", "%s %s: determinant %.9g, expected %.9Lg of %s", ty, op, d, det, pm(n)); }
#define PL(T, a) ({ M q_ = g_##T(a); q_; })
static double ax[4]; static cp_vec2_t sc; static LD sl, cl;
static M m_scale(int N, int dim, double const *v) { M r = I(N); for (int i = 0; i < dim; i++) r.m[i][i] = v[i]; return r; }
static M m_xlat(int N, int dim, double const *v) { M r = I(N); for (int i = 0; i < dim; i++) r.m[i][N - 1] = v[i]; return r; }
static M m_mirror(int N, int dim, double const *v) { M r = I(N); LD q = 0; for (int i = 0; i < dim; i++) q += (LD)v[i] * v[i]; for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) r.m[i][j] -= 2 * (LD)v[i] * v[j] / q; return r; }
static M m_rotij(int N, int i, int j) { M r = I(N); r.m[i][i] = r.m[j][j] = cl; r.m[i][j] = -sl; r.m[j][i] = sl; return r; }
static M m_rotv(int N, double const *v) { M r = I(N); LD q = sqrtl((LD)v[0] * v[0] + (LD)v[1] * v[1] + (LD)v[2] * v[2]); LD u[3] = { v[0] / q, v[1] / q, v[2] / q };
    LD K[3][3] = { { 0, -u[2], u[1] }, { u[2], 0, -u[0] }, { -u[1], u[0], 0 } };
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD k2 = 0; for (int k = 0; k < 3; k++) k2 += K[i][k] * K[k][j]; r.m[i][j] = (i == j) + sl * K[i][j] + (1 - cl) * k2; } return r; }
static M m_trans(M const *a, int lin) { M r = I(a->n); for (int i = 0; i < lin; i++) for (int j = 0; j < lin; j++) r.m[i][j] = a->m[j][i]; return r; }
#define TOL(w) (3e-15L * (1 + nrm(w)) * 10)
/* B: plain type, N: homogeneous size, D: dimension of its linear vectors, L: transposed part */
#define S2 ax[0], ax[1]
#define S3 ax[0], ax[1], ax[2]
#define V2 &CP_VEC2(ax[0], ax[1])
#define V3 &CP_VEC3(ax[0], ax[1], ax[2])
#define CHK(T, op, ...) do { M g_ = PL(T, &t); M w_ = __VA_ARGS__; same(#T, op, &g_, &w_, TOL(&w_)); } while (0)
#define CHKI(T, B, op, full, ...) do { M g_ = PL(B, &ti.n), i_ = PL(B, &ti.i); M w_ = __VA_ARGS__; samei(#T, op, &g_, &i_, ti.d, &w_, TOL(&w_), full); } while (0)
static bool nonzero(int d) { for (int i = 0; i < d; i++) if (fabs(ax[i]) < 0.01) return false; return true; }
static void randargs(void) { for (int i = 0; i < 4; i++) ax[i] = F(); double a = R(3) ? (U() - .5) * 800 : 15.0 * (int)R(49) - 360; sc = CP_SINCOS_DEG(a); sl = sc.v[0]; cl = sc.v[1]; }
static double vlen(int d) { double s = 0; for (int i = 0; i < d; i++) s += ax[i] * ax[i]; return sqrt(s); }
#define COMMON(T, N, D, SS, VV) \
    cp_##T##_t t; cp_##T##i_t ti; \
    randargs(); memset(&t, 0x5a, sizeof t); memset(&ti, 0x5a, sizeof ti); \
    cp_##T##_unit(&t); CHK(T, "unit", I(N)); cp_##T##i_unit(&ti); CHKI(T##i, T, "unit", true, I(N)); \
    cp_##T##_scale(&t, SS); CHK(T, "scale", m_scale(N, D, ax)); cp_##T##_scale_v(&t, VV); CHK(T, "scale_v", m_scale(N, D, ax)); \
    cp_##T##i_scale(&ti, SS); CHKI(T##i, T, "scale", nonzero(D), m_scale(N, D, ax)); cp_##T##i_scale_v(&ti, VV); CHKI(T##i, T, "scale_v", nonzero(D), m_scale(N, D, ax)); \
    { double k[4] = { ax[0], ax[0], ax[0], ax[0] }; cp_##T##_scale1(&t, ax[0]); CHK(T, "scale1", m_scale(N, D, k)); cp_##T##i_scale1(&ti, ax[0]); CHKI(T##i, T, "scale1", nonzero(1), m_scale(N, D, k)); } \
    if (vlen(D) > 0.05) { cp_##T##_mirror_v(&t, VV); CHK(T, "mirror_v", m_mirror(N, D, ax)); cp_##T##i_mirror_v(&ti, VV); CHKI(T##i, T, "mirror_v", true, m_mirror(N, D, ax)); \
        double l_ = vlen(D), k[4]; memcpy(k, ax, sizeof k); for (int i = 0; i < 4; i++) ax[i] /= l_; cp_##T##_mirror_unit(&t, VV); CHK(T, "mirror_unit", m_mirror(N, D, ax)); cp_##T##i_mirror_unit(&ti, VV); CHKI(T##i, T, "mirror_unit", true, m_mirror(N, D, ax)); memcpy(ax, k, sizeof k); } \
    { size_t i = R(D), j = (i + 1 + R(D - 1)) % D; cp_##T##_rot_ij(&t, i, j, &sc); CHK(T, "rot_ij", m_rotij(N, (int)i, (int)j)); cp_##T##i_rot_ij(&ti, i, j, &sc); CHKI(T##i, T, "rot_ij", true, m_rotij(N, (int)i, (int)j)); }
#define ROT2(T, N) cp_##T##_rot(&t, &sc); CHK(T, "rot", m_rotij(N, 0, 1)); cp_##T##i_rot(&ti, &sc); CHKI(T##i, T, "rot", true, m_rotij(N, 0, 1));
#define ROT3(T, N) \
    cp_##T##_rot_x(&t, &sc); CHK(T, "rot_x", m_rotij(N, 1, 2)); cp_##T##i_rot_x(&ti, &sc); CHKI(T##i, T, "rot_x", true, m_rotij(N, 1, 2)); \
    cp_##T##_rot_y(&t, &sc); CHK(T, "rot_y", m_rotij(N, 2, 0)); cp_##T##i_rot_y(&ti, &sc); CHKI(T##i, T, "rot_y", true, m_rotij(N, 2, 0)); \
    cp_##T##_rot_z(&t, &sc); CHK(T, "rot_z", m_rotij(N, 0, 1)); cp_##T##i_rot_z(&ti, &sc); CHKI(T##i, T, "rot_z", true, m_rotij(N, 0, 1)); \
    if (vlen(3) > 0.05) { cp_##T##_rot_v(&t, V3, &sc); CHK(T, "rot_v", m_rotv(N, ax)); cp_##T##i_rot_v(&ti, V3, &sc); CHKI(T##i, T, "rot_v", true, m_rotv(N, ax)); \
        bool ok = cp_##T##_rot_into_z(&t, V3), oki = cp_##T##i_rot_into_z(&ti, V3); M g = PL(T, &t), gi = PL(T, &ti.n), ii = PL(T, &ti.i); bool neg = hypot(ax[0], ax[1]) < 1e-3 * vlen(3); into_z(#T, &g, ok, !neg || ax[2] > 0); into_z(#T "i", &gi, oki, !neg || ax[2] > 0); \
        M p = mul(&gi, &ii), one = I(N); same(#T "i", "rot_into_z inverse", &p, &one, 1e-4); \
        double l_ = vlen(3), k[4]; memcpy(k, ax, sizeof k); for (int i = 0; i < 4; i++) ax[i] /= l_; cp_##T##_rot_unit(&t, V3, &sc); CHK(T, "rot_unit", m_rotv(N, ax)); cp_##T##i_rot_unit(&ti, V3, &sc); CHKI(T##i, T, "rot_unit", true, m_rotv(N, ax)); memcpy(ax, k, sizeof k); } \
    else if (vlen(3) == 0) { if (cp_##T##_rot_into_z(&t, V3) || cp_##T##i_rot_into_z(&ti, V3)) VIOL("into-z", #T ": zero vector accepted"); CHK(T, "rot_into_z(0)", I(N)); }
static void into_z(char const *ty, M const *g, bool ok, bool proper) {
    LD l = sqrtl((LD)ax[0] * ax[0] + (LD)ax[1] * ax[1] + (LD)ax[2] * ax[2]); LD r[3]; for (int i = 0; i < 3; i++) r[i] = (g->m[i][0] * ax[0] + g->m[i][1] * ax[1] + g->m[i][2] * ax[2]) / l;
    M x; LD det = inv(g, &x), k = nrm(g); LD e = hypotl((LD)ax[0], (LD)ax[1]) / l < 1e-4L ? 1e-4L : 1e-12L; (void)k;
    if (!ok || fabsl(r[0]) > e || fabsl(r[1]) > e || fabsl(r[2] - 1) > e || fabsl(fabsl(det) - 1) > e || (proper && det < 0)) VIOL("into-z", "%s: (%g,%g,%g) is mapped to (%.9Lg,%.9Lg,%.9Lg), determinant %Lg", ty, ax[0], ax[1], ax[2], r[0], r[1], r[2], det); }
#define XLAT(T, N, D, SS, VV) cp_##T##_xlat(&t, SS); CHK(T, "xlat", m_xlat(N, D, ax)); cp_##T##_xlat_v(&t, VV); CHK(T, "xlat_v", m_xlat(N, D, ax)); cp_##T##i_xlat(&ti, SS); CHKI(T##i, T, "xlat", true, m_xlat(N, D, ax)); cp_##T##i_xlat_v(&ti, VV); CHKI(T##i, T, "xlat_v", true, m_xlat(N, D, ax));
static void c_mat2(void) { COMMON(mat2, 2, 2, S2, V2) ROT2(mat2, 2) }
static void c_mat2w(void) { COMMON(mat2w, 3, 2, S2, V2) ROT2(mat2w, 3) XLAT(mat2w, 3, 2, S2, V2) }
static void c_mat3(void) { COMMON(mat3, 3, 3, S3, V3) ROT3(mat3, 3) XLAT(mat3, 3, 2, S2, V2) }
static void c_mat3w(void) { COMMON(mat3w, 4, 3, S3, V3) ROT3(mat3w, 4) XLAT(mat3w, 4, 3, S3, V3) }
static void c_mat4(void) { COMMON(mat4, 4, 3, S3, V3) ROT3(mat4, 4) XLAT(mat4, 4, 3, S3, V3) }
/* random plain matrices: product, determinant, inverse, transpose, application, comparison, conversion */
static void fill(double *v, int n) { int k = (int)R(4); for (int i = 0; i < n; i++) v[i] = k == 0 ? (double)(int)R(7) - 3 : k == 1 ? (U() - .5) * 4 : F(); }
#define PLAIN(T, N, LIN, VT, VD, XF) static void p_##T(void) { \
    cp_##T##_t a, b, r; fill(a.v, (int)(sizeof a / 8)); fill(b.v, (int)(sizeof b / 8)); M A = PL(T, &a), B = PL(T, &b), W = mul(&A, &B); n_mul++; \
    cp_##T##_mul(&r, &a, &b); M g = PL(T, &r); LD tol = 1e-14L * (1 + nrm(&A) * nrm(&B)); same(#T, "mul", &g, &W, tol); \
    r = a; cp_##T##_mul(&r, &r, &b); g = PL(T, &r); same(#T, "mul in place of a", &g, &W, tol); r = b; cp_##T##_mul(&r, &a, &r); g = PL(T, &r); same(#T, "mul in place of b", &g, &W, tol); \
    { r = a; cp_##T##_mul(&r, &r, &r); M w = mul(&A, &A); g = PL(T, &r); same(#T, "square in place", &g, &w, 1e-14L * (1 + nrm(&A) * nrm(&A))); } \
    { r = b; cp_##T##_trans(&r, &a); M w = m_trans(&A, LIN); g = PL(T, &r); same(#T, "trans", &g, &w, 0); r = a; cp_##T##_trans(&r, &r); g = PL(T, &r); same(#T, "trans in place", &g, &w, 0); } \
    { M x; LD det = inv(&A, &x); double d = cp_##T##_det(&a); LD t = 1e-13L * (1 + powl(nrm(&A), LIN)); if (!(fabsl(det - d) <= t)) VIOL("determinant", #T " det: %.9g, expected %.9Lg of %s", d, det, pm(&A)); \
      memset(&r, 0x5a, sizeof r); double e = cp_##T##_inv(&r, &a); cp_##T##i_t ti; memset(&ti, 0x5a, sizeof ti); n_inv++; \
      if (fabsl(det) > 1e-3L && nrm(&A) * nrm(&x) < 1e6L) { g = PL(T, &r); same(#T, "inv", &g, &x, 1e-13L * (1 + nrm(&x)) * (1 + powl(nrm(&A), LIN) / fabsl(det)) * (1 + nrm(&A))); if (!(fabsl(det - e) <= t)) VIOL("determinant", #T " inv: %.9g, expected %.9Lg of %s", e, det, pm(&A)); \
          r = a; cp_##T##_inv(&r, &r); M h = PL(T, &r); same(#T, "inv in place", &h, &g, 0); \
          if (!cp_##T##i_from_##T(&ti, &a)) VIOL("from", #T "i_from_" #T " fails for determinant %Lg", det); M hn = PL(T, &ti.n), hi = PL(T, &ti.i); same(#T "i", "from", &hn, &A, 0); same(#T "i", "from (inverse)", &hi, &g, 0); if (fabsl(ti.d - det) > t) VIOL("determinant", #T "i from"); \
          if (cp_##T##i_det(&ti) != ti.d) VIOL("determinant", #T "i_det"); \
          { cp_##T##i_t tt; bool pl = R(2); if (pl) { tt = ti; cp_##T##i_trans(&tt, &tt); } else { memset(&tt, 0x5a, sizeof tt); cp_##T##i_trans(&tt, &ti); } M tn = PL(T, &tt.n), tv = PL(T, &tt.i), wn = m_trans(&A, LIN), wv = m_trans(&hi, LIN); same(#T "i", "trans", &tn, &wn, 0); same(#T "i", "trans (inverse)", &tv, &wv, 0); if (tt.d != ti.d) VIOL("determinant", #T "i_trans: %.9g", tt.d); } \
          cp_##T##i_t tj; cp_##T##i_inv(&tj, &ti); M jn = PL(T, &tj.n), ji = PL(T, &tj.i); same(#T "i", "inv", &jn, &hi, 0); same(#T "i", "inv (inverse)", &ji, &A, 0); if (!(fabsl(tj.d * det - 1) < 1e-3L) && fabsl(det) < 1e3L) VIOL("determinant", #T "i_inv: %.9g, expected %.9Lg", tj.d, 1 / det); cp_##T##i_inv(&ti, &ti); jn = PL(T, &ti.n); ji = PL(T, &ti.i); same(#T "i", "inv in place", &jn, &hi, 0); same(#T "i", "inv in place (inverse)", &ji, &A, 0); } \
      else if (det == 0 && R(2)) { LD s = 0; for (size_t i = 0; i < sizeof a / 8; i++) { if (a.v[i] != floor(a.v[i]) || fabs(a.v[i]) > 4) s = 1; } if (s == 0) { if (e != 0 || cp_##T##i_from_##T(&ti, &a)) VIOL("singular", #T ": %s accepted, determinant %g", pm(&A), e); } } } \
    { VT v, q; fill(v.v, VD); LD w[4] = { 0 }, big = 0; for (int i = 0; i < VD; i++) { for (int j = 0; j < VD; j++) { w[i] += A.m[i][j] * v.v[j]; big += fabsl(A.m[i][j] * v.v[j]); } if (N > VD) { w[i] += A.m[i][N - 1]; big += fabsl(A.m[i][N - 1]); } } XF(&q, &a, &v); n_vec++; for (int i = 0; i < VD; i++) if (!(fabsl(q.v[i] - w[i]) <= 1e-15L * (1 + big) * 4)) VIOL("xform", #T ": component %d is %.17g, expected %.17Lg", i, q.v[i], w[i]); q = v; XF(&q, &a, &q); for (int i = 0; i < VD; i++) if (!(fabsl(q.v[i] - w[i]) <= 1e-15L * (1 + big) * 4)) VIOL("xform", #T " in place: component %d is %.17g, expected %.17Lg", i, q.v[i], w[i]); } \
    { r = a; int i = (int)R(sizeof a / 8), k = (int)R(5); double d[5] = { 0, 0x1p-17, -0x1p-17, 0.25, -0.25 }; r.v[i] += d[k]; int w = k < 3 ? 0 : k == 3 ? -1 : 1; if (k >= 3 && i + 1 < (int)(sizeof a / 8) && R(2)) r.v[i + 1] -= 3 * d[k]; n_cmp++; if (cp_##T##_eq(&a, &r) != (w == 0)) VIOL("eq", #T ": component %d differs by %g", i, d[k]); int c = cp_##T##_lex_cmp(&a, &r); if ((c > 0) - (c < 0) != w) VIOL("lex-cmp", #T ": component %d differs by %g, result %d", i, d[k], c); } }
PLAIN(mat2, 2, 2, cp_vec2_t, 2, cp_vec2_xform) PLAIN(mat2w, 3, 2, cp_vec2_t, 2, cp_vec2w_xform) PLAIN(mat3, 3, 3, cp_vec3_t, 3, cp_vec3_xform) PLAIN(mat3w, 4, 3, cp_vec3_t, 3, cp_vec3w_xform) PLAIN(mat4, 4, 4, cp_vec4_t, 4, cp_vec4_xform)
/* chains of invertible transformations: normal, inverse and determinant stay in step */
#define CHAIN(T, N, D, SS, VV, HASX, ROTS) static void h_##T(void) { \
    cp_##T##i_t c, x; cp_##T##i_unit(&c); M W = I(N); int len = 1 + (int)R(6); \
    for (int k = 0; k < len; k++) { randargs(); M w; for (int i = 0; i < 4; i++) if (fabs(ax[i]) > 100) ax[i] /= 100; \
        switch (R(4)) { case 0: for (int i = 0; i < D; i++) while (fabs(ax[i]) < .2) ax[i] = F(); cp_##T##i_scale(&x, SS); w = m_scale(N, D, ax); break; \
        case 1: if (vlen(D) < .1) ax[0] += 1; cp_##T##i_mirror_v(&x, VV); w = m_mirror(N, D, ax); break; \
        case 2: HASX \
        default: ROTS } \
        if (R(5) == 0) { cp_##T##i_inv(&x, &x); M y; inv(&w, &y); w = y; } \
        bool left = R(2); if (left) { cp_##T##i_mul(&c, &x, &c); W = mul(&w, &W); } else { cp_##T##i_mul(&c, &c, &x); W = mul(&W, &w); } n_mul++; \
        M g = PL(T, &c.n), gi = PL(T, &c.i); M y; inv(&W, &y); if (nrm(&W) * nrm(&y) > 1e6L) break; samei(#T "i", "chain", &g, &gi, c.d, &W, 1e-12L * (1 + nrm(&W)), true); if (nviol) break; } }
#define XL(T, N, D, SS) cp_##T##i_xlat(&x, SS); w = m_xlat(N, D, ax); break;
CHAIN(mat2, 2, 2, S2, V2, , cp_mat2i_rot(&x, &sc); w = m_rotij(2, 0, 1);)
CHAIN(mat2w, 3, 2, S2, V2, XL(mat2w, 3, 2, S2), cp_mat2wi_rot(&x, &sc); w = m_rotij(3, 0, 1);)
#define RV(T, N) if (vlen(3) < .1) ax[2] += 1; cp_##T##i_rot_v(&x, V3, &sc); w = m_rotv(N, ax);
CHAIN(mat3, 3, 3, S3, V3, , RV(mat3, 3))
CHAIN(mat3w, 4, 3, S3, V3, XL(mat3w, 4, 3, S3), RV(mat3w, 4))
CHAIN(mat4, 4, 3, S3, V3, XL(mat4, 4, 3, S3), RV(mat4, 4))
#define BADLY(M_, i, j) (void)0
static void conv(void) {
    cp_mat4_t m4; cp_mat3w_t m3w, q3w; cp_mat3_t m3, q3; cp_mat2w_t m2w; fill(m4.v, 16); n_conv++; int bad = (int)R(3); M A, B, W;
    for (int j = 0; j < 3; j++) m4.m[3][j] = 0; m4.m[3][3] = 1; if (!bad) m4.m[3][R(4)] += R(2) ? .5 : -.25;
    bool ok = cp_mat3w_from_mat4(&m3w, &m4); if (ok != !!bad) VIOL("convert", "mat3w_from_mat4 says %d", ok); A = g_mat4(&m4); for (int j = 0; j < 4; j++) A.m[3][j] = j == 3; B = g_mat3w(&m3w); same("mat3w", "from_mat4", &B, &A, 0);
    cp_mat4_t k4; memset(&k4, 0x5a, sizeof k4); cp_mat4_from_mat3w(&k4, &m3w); A = g_mat4(&k4); same("mat4", "from_mat3w", &A, &B, 0);
    fill(m3.v, 9); bad = (int)R(3); m3.m[2][0] = m3.m[2][1] = 0; m3.m[2][2] = 1; if (!bad) m3.m[2][R(3)] += .5;
    ok = cp_mat2w_from_mat3(&m2w, &m3); if (ok != !!bad) VIOL("convert", "mat2w_from_mat3 says %d", ok); A = g_mat3(&m3); for (int j = 0; j < 3; j++) A.m[2][j] = j == 2; B = g_mat2w(&m2w); same("mat2w", "from_mat3", &B, &A, 0);
    memset(&q3, 0x5a, sizeof q3); cp_mat3_from_mat2w(&q3, &m2w); A = g_mat3(&q3); same("mat3", "from_mat2w", &A, &B, 0);
    memset(&q3w, 0x5a, sizeof q3w); cp_mat3w_from_mat2w(&q3w, &m2w); W = I(4); for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) W.m[i][j] = m2w.b.m[i][j]; W.m[i][3] = m2w.w.v[i]; } A = g_mat3w(&q3w); same("mat3w", "from_mat2w", &A, &W, 0);
    bad = (int)R(3); if (!bad) switch (R(6)) { case 0: q3w.b.m[2][0] += .5; break; case 1: q3w.b.m[2][1] += .5; break; case 2: q3w.b.m[2][2] += .5; break; case 3: q3w.b.m[0][2] -= .5; break; case 4: q3w.b.m[1][2] += .5; break; default: q3w.w.v[2] += .5; }
    cp_mat2w_t b2w; memset(&b2w, 0x5a, sizeof b2w); ok = cp_mat2w_from_mat3w(&b2w, &q3w); if (ok != !!bad) VIOL("convert", "mat2w_from_mat3w says %d", ok); A = g_mat2w(&b2w); same("mat2w", "from_mat3w", &A, &B, 0);
    /* with inverse */
    cp_mat3wi_t w3; cp_mat2wi_t w2; randargs(); cp_mat3wi_xlat(&w3, ax[0], ax[1], ax[2]); cp_mat3wi_t s3; double zx = NZ(), zy = NZ(), zz = NZ(); cp_mat3wi_scale(&s3, zx, zy, zz); cp_mat3wi_mul(&w3, &w3, &s3); cp_mat4i_t i4; cp_mat4i_from_mat3wi(&i4, &w3); A = g_mat4(&i4.n); B = g_mat3w(&w3.n); W = g_mat4(&i4.i); samei("mat4i", "from_mat3wi", &A, &W, i4.d, &B, 0, true);
    cp_mat3wi_t z3; memset(&z3, 0x5a, sizeof z3); if (!cp_mat3wi_from_mat4i(&z3, &i4)) VIOL("convert", "mat3wi_from_mat4i"); A = g_mat3w(&z3.n); W = g_mat3w(&z3.i); samei("mat3wi", "from_mat4i", &A, &W, z3.d, &B, 0, true);
    cp_mat2wi_t y2; cp_mat2wi_xlat(&w2, ax[0], ax[1]); cp_mat2wi_scale(&y2, zx, zy); cp_mat2wi_mul(&w2, &w2, &y2); cp_mat2wi_rot(&y2, &sc); cp_mat2wi_mul(&w2, &w2, &y2); B = g_mat2w(&w2.n);
    cp_mat3i_t i3; cp_mat3i_from_mat2wi(&i3, &w2); A = g_mat3(&i3.n); W = g_mat3(&i3.i); samei("mat3i", "from_mat2wi", &A, &W, i3.d, &B, 0, true); memset(&y2, 0x5a, sizeof y2); if (!cp_mat2wi_from_mat3i(&y2, &i3)) VIOL("convert", "mat2wi_from_mat3i"); A = g_mat2w(&y2.n); W = g_mat2w(&y2.i); samei("mat2wi", "from_mat3i", &A, &W, y2.d, &B, 0, true);
    cp_mat3wi_from_mat2wi(&z3, &w2); memset(&y2, 0x5a, sizeof y2); if (!cp_mat2wi_from_mat3wi(&y2, &z3)) VIOL("convert", "mat2wi_from_mat3wi"); A = g_mat2w(&y2.n); W = g_mat2w(&y2.i); samei("mat2wi", "from_mat3wi", &A, &W, y2.d, &B, 0, true); A = g_mat3w(&z3.n); W = g_mat3w(&z3.i); samei("mat3wi", "from_mat2wi", &A, &W, z3.d, &A, 0, true);
    /* coordinate system from three points */
    { cp_vec3_t o, a, b; fill(o.v, 3); for (int i = 0; i < 3; i++) { a.v[i] = o.v[i] + F(); b.v[i] = o.v[i] + F(); } LD z[3], v[3], lz = 0, lv = 0, cr = 0; for (int i = 0; i < 3; i++) { z[i] = (LD)a.v[i] - o.v[i]; v[i] = (LD)b.v[i] - o.v[i]; lz += z[i] * z[i]; lv += v[i] * v[i]; } lz = sqrtl(lz); lv = sqrtl(lv); for (int i = 0; i < 3; i++) { LD c = z[i] * v[(i + 1) % 3] - z[(i + 1) % 3] * v[i]; cr += c * c; }
      cp_mat3w_t g, f; bool useo = R(4) != 0; if (!useo) { for (int i = 0; i < 3; i++) { a.v[i] -= o.v[i]; b.v[i] -= o.v[i]; o.v[i] = 0; } }
      if (lz > .05L && lv > .05L && sqrtl(cr) > 0.01L * lz * lv && hypotl(v[0], v[1]) > 0.01L && hypotl(z[0], z[1]) > 1e-2L * lz) { memset(&g, 0, sizeof g); bool both = R(3) != 0; bool k = cp_mat3w_xform_into_zx_2(&g, both ? &f : NULL, useo ? &o : NULL, &a, &b); M G = g_mat3w(&g); LD mx = 1; for (int i = 0; i < 3; i++) mx += fabsl((LD)o.v[i]) + fabsl((LD)a.v[i]) + fabsl((LD)b.v[i]);
          LD p[3][4]; cp_vec3_t const *pt[3] = { &o, &a, &b }; for (int q = 0; q < 3; q++) for (int i = 0; i < 3; i++) p[q][i] = G.m[i][0] * pt[q]->v[0] + G.m[i][1] * pt[q]->v[1] + G.m[i][2] * pt[q]->v[2] + G.m[i][3]; LD e = 1e-12L * mx * mx; LD e2 = 2e-4L;
          if (!k || fabsl(p[0][0]) > e || fabsl(p[0][1]) > e || fabsl(p[0][2]) > e || fabsl(p[1][0]) > e || fabsl(p[1][1]) > e || fabsl(p[1][2] - lz) > e || fabsl(p[2][1]) > e2) VIOL("into-zx", "o=(%g,%g,%g) a=(%g,%g,%g) b=(%g,%g,%g): %d a->(%Lg,%Lg,%Lg) b->(%Lg,%Lg,%Lg)", CP_V012(o), CP_V012(a), CP_V012(b), k, p[1][0], p[1][1], p[1][2], p[2][0], p[2][1], p[2][2]);
          if (both) { M Fm = g_mat3w(&f), P = mul(&G, &Fm), one = I(4); same("mat3w", "into_zx from_z", &P, &one, 1e-12L * mx * mx); } }
      else if (lz == 0) { if (cp_mat3w_xform_into_zx_2(&g, &f, useo ? &o : NULL, &a, NULL)) VIOL("into-zx", "zero axis accepted"); }
    } }
#define VECT(T, D) static void v_##T(void) { \
    cp_##T##_t a, b, r; fill(a.v, D); fill(b.v, D); double k = F(); n_vec++; LD dot = 0, sq = 0, ds = 0, ab = 0; for (int i = 0; i < D; i++) { dot += (LD)a.v[i] * b.v[i]; ab += fabsl((LD)a.v[i] * b.v[i]); sq += (LD)a.v[i] * a.v[i]; LD d = (LD)b.v[i] - a.v[i]; ds += d * d; } \
    _Pragma("GCC diagnostic push") int al = (int)R(3); _Pragma("GCC diagnostic pop") cp_##T##_t *A = &a, *B = &b; \
    EACH(T, D, add, a.v[i] + b.v[i], cp_##T##_add(O, A, B)) EACH(T, D, sub, a.v[i] - b.v[i], cp_##T##_sub(O, A, B)) EACH(T, D, mulc, a.v[i] * b.v[i], cp_##T##_mulc(O, A, B)) EACH(T, D, neg, -a.v[i], cp_##T##_neg(O, A)) \
    EACH(T, D, mul, a.v[i] * k, cp_##T##_mul(O, A, k)) EACH(T, D, min, fmin(a.v[i], b.v[i]), cp_##T##_min(O, A, B)) EACH(T, D, max, fmax(a.v[i], b.v[i]), cp_##T##_max(O, A, B)) EACH(T, D, rev, a.v[D - 1 - i], cp_##T##_rev(O, A)) \
    if (fabs(k) > .01) { EACH(T, D, div, a.v[i] / k, cp_##T##_div(O, A, k)) } EACH(T, D, divc, fabs(b.v[i]) < .001 ? (b.v[i] == 0 ? 0 : NAN) : a.v[i] / b.v[i], cp_##T##_divc(O, A, B)) \
    EACH(T, D, lerp, a.v[i] + (b.v[i] - a.v[i]) * k, cp_##T##_lerp(O, A, B, k)) \
    if (fabsl(cp_##T##_dot(A, B) - dot) > 1e-15L * 4 * (1 + ab) || fabsl(cp_##T##_sqr_len(A) - sq) > 1e-15L * 4 * (1 + sq) || fabsl(cp_##T##_len(A) - sqrtl(sq)) > 1e-15L * 4 * (1 + sqrtl(sq)) || fabsl(cp_##T##_sqr_dist(A, B) - ds) > 1e-15L * 8 * (1 + ds) || fabsl(cp_##T##_dist(A, B) - sqrtl(ds)) > 1e-15L * 8 * (1 + sqrtl(ds))) VIOL("vector", #T " dot/len/dist"); \
    if (sqrtl(sq) > .01L) { EACH(T, D, unit, (double)(a.v[i] / sqrtl(sq)), if (!cp_##T##_unit(O, A)) VIOL("vector", #T " unit fails")) cp_##T##_unit(&r, A); if (!cp_##T##_has_len1(&r) || !cp_##T##_has_len0_or_1(&r) || cp_##T##_has_len0(&r) || cp_##T##_has_len0(A)) VIOL("vector", #T " has_len of unit vector"); } \
    else if (sq == 0) { if (!cp_##T##_has_len0(A) || !cp_##T##_has_len0_or_1(A) || cp_##T##_has_len1(A) || cp_##T##_unit(&r, A)) VIOL("vector", #T " zero vector"); } \
    { cp_##T##_t t = a; int e = -(int)R(50); for (int i = 0; i < D; i++) t.v[i] = ldexp(t.v[i], e); LD l = sqrtl(sq) * ldexpl(1, e); bool ok = cp_##T##_unit(&r, &t); LD n = 0; for (int i = 0; i < D; i++) n += (LD)r.v[i] * r.v[i]; n_short += l < 1e-4L; \
        if (ok && fabsl(sqrtl(n) - 1) > 1e-9L) VIOL("unit-short", #T " unit of a vector of length %Lg succeeds with a result of length %Lg", l, sqrtl(n)); if (!ok && l > 0x1p-14L) VIOL("unit-short", #T " unit of a vector of length %Lg fails", l); } \
    if (sqrtl(ds) > .01L) { EACH(T, D, dir, (double)((a.v[i] - b.v[i]) / sqrtl(ds)), cp_##T##_dir(O, A, B)) } \
    { double m = 0; for (int i = 0; i < D; i++) m = fmax(m, fabs(a.v[i])); if (cp_##T##_max_abs_coord(A) != m) VIOL("vector", #T " max_abs_coord"); } \
    { cp_##T##_minmax_t mm = { a, a }, m2 = { b, b }, o; cp_##T##_t c; fill(c.v, D); cp_##T##_minmax(&mm, &b); cp_##T##_minmax(&m2, &c); for (int i = 0; i < D; i++) if (mm.min.v[i] != fmin(a.v[i], b.v[i]) || mm.max.v[i] != fmax(a.v[i], b.v[i])) VIOL("minmax", #T " minmax"); cp_##T##_minmax_or(&o, &mm, &m2); for (int i = 0; i < D; i++) if (o.min.v[i] != fmin(mm.min.v[i], c.v[i]) || o.max.v[i] != fmax(mm.max.v[i], c.v[i])) VIOL("minmax", #T " or"); cp_##T##_minmax_and(&o, &mm, &m2); bool val = true; for (int i = 0; i < D; i++) { double lo = fmax(mm.min.v[i], m2.min.v[i]), hi = fmin(mm.max.v[i], m2.max.v[i]); if (o.min.v[i] != lo || o.max.v[i] != hi) VIOL("minmax", #T " and"); if (lo > hi) val = false; } if (cp_##T##_minmax_valid(&o) != val) VIOL("minmax", #T " valid"); } \
    { r = a; int i = (int)R(D), q = (int)R(5); double d[5] = { 0, 0x1p-17, -0x1p-17, 0.25, -0.25 }; r.v[i] += d[q]; int w = q < 3 ? 0 : q == 3 ? -1 : 1; n_cmp++; if (cp_##T##_eq(&a, &r) != (w == 0)) VIOL("eq", #T); int c = cp_##T##_lex_cmp(&a, &r); if ((c > 0) - (c < 0) != w) VIOL("lex-cmp", #T ": component %d differs by %g, result %d", i, d[q], c); } }
#define EACH(T, D, name, val, call) do { cp_##T##_t sa = a, sb = b, O_, *O = &O_; memset(O, 0x5a, sizeof *O); if (al == 1) O = A; if (al == 2) O = B; call; cp_##T##_t g = *O; a = sa; b = sb; for (int i = 0; i < D; i++) { double w = val; if (!isnan(w) && !(fabs(g.v[i] - w) <= 4e-15 * (1 + fabs(w) + (name##_e) * (fabs(a.v[i]) + fabs(b.v[i])) * (1 + fabs(k))))) VIOL("vector", #T " " #name " (alias %d) component %d: %.17g, expected %.17g", al, i, g.v[i], w); } } while (0);
enum { add_e = 0, sub_e = 0, mulc_e = 0, neg_e = 0, mul_e = 0, min_e = 0, max_e = 0, rev_e = 0, div_e = 0, divc_e = 0, lerp_e = 1, unit_e = 0, dir_e = 1 };
VECT(vec2, 2) VECT(vec3, 3) VECT(vec4, 4)
static void geom(void) {
    cp_vec3_t a, b, o, r; fill(a.v, 3); fill(b.v, 3); fill(o.v, 3); LD x[3], y[3], c[3], l = 0, la = 0, lb = 0; n_vec++;
    for (int q = 0; q < 2; q++) { /* with and without an origin */
        for (int i = 0; i < 3; i++) { x[i] = a.v[i] - (q ? (LD)o.v[i] : 0); y[i] = b.v[i] - (q ? (LD)o.v[i] : 0); } l = la = lb = 0; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = x[j] * y[k] - x[k] * y[j]; l += c[i] * c[i]; la += x[i] * x[i]; lb += y[i] * y[i]; } l = sqrtl(l); la = sqrtl(la); lb = sqrtl(lb); LD tol = 1e-14L * (1 + la * lb);
        if (q) cp_vec3_right_cross3(&r, &a, &o, &b); else cp_vec3_cross(&r, &a, &b); for (int i = 0; i < 3; i++) if (fabsl(r.v[i] - c[i]) > tol) VIOL("cross", "component %d %.17g, expected %.17Lg", i, r.v[i], c[i]);
        if (q) { cp_vec3_left_cross3(&r, &a, &o, &b); for (int i = 0; i < 3; i++) if (fabsl(r.v[i] + c[i]) > tol) VIOL("cross", "left component %d", i); }
        if (la > .01L && lb > .01L && l > 0.01L * la * lb) { double s = 1; bool ok; int w = (int)R(4); if (q) { ok = w == 0 ? cp_vec3_right_normal3(&r, &a, &o, &b) : w == 1 ? cp_vec3_right_normal3_x(&r, &a, &o, &b) : w == 2 ? cp_vec3_left_normal3(&r, &a, &o, &b) : cp_vec3_left_normal3_x(&r, &a, &o, &b); if (w >= 2) s = -1; } else ok = w & 1 ? cp_vec3_normal(&r, &a, &b) : cp_vec3_normal_x(&r, &a, &b);
            for (int i = 0; i < 3; i++) if (!ok || fabsl(r.v[i] - s * c[i] / l) > 1e-10L) { VIOL("normal", "(%g,%g,%g) (%g,%g,%g): %d component %d %.17g, expected %.17Lg", CP_V012(a), CP_V012(b), ok, i, r.v[i], s * c[i] / l); break; } } }
    { cp_vec3_t s = a, t = b; int e = -(int)R(30), f = -(int)R(30); double ma = 0, mb = 0; LD l0 = 0, sa = 0, sb = 0; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; s.v[i] = ldexp(a.v[i], e); t.v[i] = ldexp(b.v[i], f); ma = fmax(ma, fabs(s.v[i])); mb = fmax(mb, fabs(t.v[i])); c[i] = (LD)a.v[j] * b.v[k] - (LD)a.v[k] * b.v[j]; l0 += c[i] * c[i]; sa += (LD)a.v[i] * a.v[i]; sb += (LD)b.v[i] * b.v[i]; } l0 = sqrtl(l0);
        if (l0 > 0.01L * sqrtl(sa) * sqrtl(sb)) for (int x = 0; x < 2; x++) { bool ok = x ? cp_vec3_normal_x(&r, &s, &t) : cp_vec3_normal(&r, &s, &t); bool need = x || (ma > 0x1p-14 && mb > 0x1p-14); n_short += ma * mb < 1e-4;
            if (!ok && !need) continue;
            for (int i = 0; i < 3; i++) if (!ok || fabsl(r.v[i] - c[i] / l0) > 1e-9L) { VIOL("normal-short", "%s (%g,%g,%g) (%g,%g,%g): %d component %d %.17g, expected %.17Lg", x ? "_x" : "", CP_V012(s), CP_V012(t), ok, i, r.v[i], c[i] / l0); break; } } }
    cp_vec2_t p = a.b, q2 = b.b, o2 = o.b, n; LD cz = ((LD)p.x - o2.x) * ((LD)q2.y - o2.y) - ((LD)p.y - o2.y) * ((LD)q2.x - o2.x); LD bg = 1 + hypotl((LD)p.x - o2.x, (LD)p.y - o2.y) * hypotl((LD)q2.x - o2.x, (LD)q2.y - o2.y);
    if (fabsl(cp_vec2_right_cross3_z(&p, &o2, &q2) - cz) > 1e-14L * bg || fabsl(cp_vec2_left_cross3_z(&p, &o2, &q2) + cz) > 1e-14L * bg) VIOL("cross-z", "(%g,%g) (%g,%g) (%g,%g)", CP_V01(p), CP_V01(o2), CP_V01(q2));
    if (fabsl(cz) > 1e-5L + 1e-13L * bg) { int w = cz > 0 ? 1 : -1; if (cp_vec2_right_normal3_z(&p, &o2, &q2) != w || cp_vec2_left_normal3_z(&p, &o2, &q2) != -w) VIOL("normal-z", "(%g,%g) (%g,%g) (%g,%g)", CP_V01(p), CP_V01(o2), CP_V01(q2)); if (cp_vec2_in_line(&p, &o2, &q2)) VIOL("in-line", "(%g,%g) (%g,%g) (%g,%g) cross %Lg", CP_V01(p), CP_V01(o2), CP_V01(q2), cz); }
    { double t = (double)(int)R(9) - 4; cp_vec2_t e = { .x = floor(p.x), .y = floor(p.y) }, f = { .x = floor(q2.x), .y = floor(q2.y) }, g = { .x = e.x + t * (f.x - e.x), .y = e.y + t * (f.y - e.y) }; if (!cp_vec2_in_line(&e, &f, &g)) VIOL("in-line", "points on a line rejected"); cp_vec3_t e3 = { .v = { e.x, e.y, floor(a.z) } }, f3 = { .v = { f.x, f.y, floor(b.z) } }, g3; for (int i = 0; i < 3; i++) g3.v[i] = e3.v[i] + t * (f3.v[i] - e3.v[i]); if (!cp_vec3_in_line(&e3, &f3, &g3)) VIOL("in-line", "3D points on a line rejected"); g3.v[R(3)] += 0.5; LD cc = 0; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; LD z = ((LD)f3.v[i] - e3.v[i]) * ((LD)g3.v[j] - f3.v[j]) - ((LD)f3.v[j] - e3.v[j]) * ((LD)g3.v[i] - f3.v[i]); cc += z * z; } if (cc > 1e-6L && cp_vec3_in_line(&e3, &f3, &g3)) VIOL("in-line", "3D points off a line accepted"); }
    { double dx = q2.x - p.x, dy = q2.y - p.y, l = hypot(dx, dy); cp_vec2_t m = p; if (R(2)) cp_vec2_normal(&m, &p, &q2); else cp_vec2_normal(&m, &m, &q2); if (l > .01 && (fabs(m.x - dy / l) > 1e-14 || fabs(m.y + dx / l) > 1e-14)) VIOL("normal-2d", "(%g,%g) (%g,%g): (%g,%g)", CP_V01(p), CP_V01(q2), CP_V01(m)); }
    cp_vec2_port(&n, &p, &q2); if (fabs(n.x - (q2.y - p.y)) > 0 || fabs(n.y - (p.x - q2.x)) > 0) VIOL("port", "port");
    { LD ang = ldexpl((LD)R(1 << 20), -20) * 6.283185307179586476925L; cp_vec2_t u = { .x = (double)cosl(ang), .y = (double)sinl(ang) }, rr; cp_vec2_nearest(&rr, &o2, &u, &p); LD d = ((LD)p.x - o2.x) * u.x + ((LD)p.y - o2.y) * u.y; if (fabsl(rr.x - (o2.x + d * u.x)) > 1e-12L * (1 + fabsl(d) + bg) || fabsl(rr.y - (o2.y + d * u.y)) > 1e-12L * (1 + fabsl(d) + bg)) VIOL("nearest", "nearest point");
      LD q = ldexpl((LD)R(1 << 20), -20) * 6.283185307179586476925L; double la2 = fabs(NZ()), lb2 = fabs(NZ()); cp_vec2_t s = { .x = (double)(la2 * cosl(ang)), .y = (double)(la2 * sinl(ang)) }, t = { .x = (double)(lb2 * cosl(q)), .y = (double)(lb2 * sinl(q)) }; LD w = q - ang, pi = 3.14159265358979323846L; while (w <= -pi) w += 2 * pi; while (w > pi) w -= 2 * pi; double g = cp_vec2_angle(&s, &t); LD df = fabsl(g - w); if (df > pi) df = fabsl(df - 2 * pi); if (!(df < 1e-12L) || g > CP_PI || g <= -CP_PI) VIOL("angle", "angle from (%g,%g) to (%g,%g): %.17g, expected %.17Lg", CP_V01(s), CP_V01(t), g, w);
      cp_vec2_t s2 = { .x = s.x + 1, .y = s.y - 2 }, t2 = { .x = t.x + 1, .y = t.y - 2 }, oo = { .x = 1, .y = -2 }; g = cp_vec2_angle3(&s2, &oo, &t2); df = fabsl(g - w); if (df > pi) df = fabsl(df - 2 * pi); if (!(df < 1e-9L)) VIOL("angle", "angle3"); } }
static LD rad(LD a) { return fmodl(a, 360) * 3.14159265358979323846264338327950288L / 180; }
static void trig(void) {
    double a; switch (R(7)) { case 0: a = 15.0 * ((int)R(200) - 100); break; case 1: a = (double)((int)R(2000) - 1000); break; case 2: a = ldexp((double)(int)R(1 << 20), -(int)R(20)); break; case 3: a = 30.0 * (double)((ll)R(1000000) * 1000003 - 500000000000LL); break; case 4: a = 30.0 * (int)R(100) + ldexp(R(2) ? 1 : -1, -(int)(10 + R(30))); break; case 5: a = ldexp((double)rnd() + 0x1p40, (int)R(13)) * (R(2) ? 1 : -1); break; default: a = (U() - .5) * 1000; }
    n_trig++; LD s = sinl(rad(a)), c = cosl(rad(a)); LD e = 3e-16L * (1 + fabsl((LD)a) / 57); double gs = cp_sin_deg(a), gc = cp_cos_deg(a);
    bool in = a == floor(a) && fabs(a) < 0x1p53; int r = in ? (int)((((ll)a % 360) + 360) % 360) : 0;
    if (in && r % 30 == 0) { static double const xs[12] = { 0, .5, 9, 1, 9, .5, 0, -.5, 9, -1, 9, -.5 }; double ws = xs[r / 30], wc = xs[(r / 30 + 3) % 12]; if ((ws != 9 && gs != ws) || (wc != 9 && gc != wc)) VIOL("trig-exact", "angle %.17g: sin %.17g cos %.17g are not exact", a, gs, gc); if (wc != 9 && wc != 0 && ws != 9 && cp_tan_deg(a) != ws / wc) VIOL("trig-exact", "tan(%.17g)", a); }
    if (!(fabsl(gs - s) <= e) || !(fabsl(gc - c) <= e) || !(fabs(gs) <= 1) || !(fabs(gc) <= 1)) VIOL("trig", "angle %.17g: sin %.17g (%.17Lg) cos %.17g (%.17Lg)", a, gs, s, gc, c);
    if (fabsl(c) > .05L && fabsl(cp_tan_deg(a) - s / c) > 500 * e) VIOL("trig", "tan(%.17g)", a);
    /* integer detection */
    double f; switch (R(5)) { case 0: f = (double)(ll)((ull)rnd() << 30 ^ rnd()) * (R(2) ? 1 : -1); break; case 1: f = ldexp((double)(rnd() & 0xfffff), (int)R(60) - 30); break; case 2: f = (double)(int)(R(2000) + 1); if (R(2)) f = nextafter(f, R(2) ? 0 : 1e9); break; case 3: f = R(3) == 0 ? INFINITY : R(2) ? NAN : 0.5; break; default: f = (double)((int)R(2000) - 1000); }
    n_int++; ll iv = 0x5a5a; bool isint = isfinite(f) && f == floor(f); bool g = cp_f_get_int(&iv, f); if (fabs(f) >= 1 && fabs(f) < 0x1p53) { if (g != isint || (g && (double)iv != f)) VIOL("get-int", "%.17g: %d, %lld", f, g, iv); } else if (g && (!isint || (double)iv != f)) VIOL("get-int", "%.17g: %d, %lld", f, g, iv); }
static void circle(void) {
    size_t n = R(4) ? 3 + R(40) : 1 + R(400); static char seen[500]; static double ss[500]; memset(seen, 0, sizeof seen); size_t cnt = 0; n_circ++; double ps = 0; size_t pi = 0;
    for (cp_circle_each(i, n)) { if (i.idx >= n) { VIOL("circle", "index %zu of %zu", i.idx, n); return; } if (seen[i.idx]++) { VIOL("circle", "index %zu of %zu twice", i.idx, n); return; } cnt++; LD w = 360.0L * (LD)i.idx / (LD)n; LD c = cosl(rad(w)), s = sinl(rad(w)); if (!(fabsl(i.cos - c) < 1e-14L) || !(fabsl(i.sin - s) < 1e-14L)) { VIOL("circle", "point %zu of %zu: (%.17g,%.17g), expected (%.17Lg,%.17Lg)", i.idx, n, i.cos, i.sin, c, s); return; } ss[i.idx] = i.sin; (void)ps; (void)pi; }
    if (cnt != n) VIOL("circle", "%zu of %zu points", cnt, n); for (size_t k = 1; k < n; k++) if (ss[k] != -ss[n - k]) { VIOL("circle", "points %zu of %zu is not symmetric", k, n); break; }
    if (n % 2 == 0 && ss[n / 2] != 0) VIOL("circle", "half turn of %zu is not exact", n); }
static void arith(void) {
    double a = F(), b = F(), c = F(), d = F(), t = R(4) ? U() : (int)R(2); n_arith++; LD s = 1 - (LD)t; LD big = 1 + fabsl((LD)a) + fabsl((LD)b) + fabsl((LD)c) + fabsl((LD)d);
    if (fabsl(cp_lerp(a, b, t) - (a + ((LD)b - a) * t)) > 1e-15L * big || fabsl(cp_lerp_pm(a, b, 2 * t - 1) - (a + ((LD)b - a) * t)) > 4e-15L * big) VIOL("arith", "lerp");
    if (fabsl(cp_interpol2(a, b, c, t) - (a * s * s + 2 * b * s * t + (LD)c * t * t)) > 2e-15L * big || fabsl(cp_interpol3(a, b, c, d, t) - (a * s * s * s + 3 * b * s * s * t + 3 * c * s * t * t + (LD)d * t * t * t)) > 4e-15L * big) VIOL("arith", "interpolation");
    if (fabs(b - a) > .01) { double x = a + (b - a) * t; double k = cp_t01(a, x, b); if (fabs(cp_lerp(a, b, k) - x) > 1e-12 * (double)big || fabs(cp_lerp_pm(a, b, cp_t_pm(a, x, b)) - x) > 1e-12 * (double)big) VIOL("arith", "t01 is not the inverse of lerp"); }
    if (cp_min(a, b) != fmin(a, b) || cp_max(a, b) != fmax(a, b) || cp_monus(a, b) != fmax(a - b, 0) || cp_sqr(a) != a * a) VIOL("arith", "min/max/monus");
    size_t za = R(100), zb = R(100); if (cp_min(za, zb) != (za < zb ? za : zb) || cp_max(za, zb) != (za > zb ? za : zb)) VIOL("arith", "min/max of sizes"); int ia = (int)R(100) - 50, ib = (int)R(100) - 50; if (cp_min(ia, ib) != (ia < ib ? ia : ib) || cp_max(ia, ib) != (ia > ib ? ia : ib) || cp_min_i(ia, ib) != (ia < ib ? ia : ib) || cp_max_i(ia, ib) != (ia > ib ? ia : ib)) VIOL("arith", "min/max of integers");
    size_t n = 1 + R(9), i = R((unsigned)n); if (cp_wrap_add1(i, n) != (i + 1) % n || cp_wrap_sub1(i, n) != (i + n - 1) % n) VIOL("arith", "wrap");
    { double st = ldexp(1 + (double)R(7), -(int)R(5)), lo = ldexp((double)(int)R(200) - 100, -3); unsigned k = R(50); double fr = R(3) ? 0 : .25 + U() / 2; double hi = lo + (k + fr) * st; cp_range_t r = { 7, 7, 7 }; if (fr > 0 ? st * fr > 1e-3 : 1) { cp_range_init(&r, lo, hi, st); size_t w = hi - lo < 1e-9 ? 1 : fr > 0 ? k + 1 : k; if (r.cnt != w || r.min != lo || r.step != st) VIOL("range", "from %g to %g by %g: %zu steps, expected %zu", lo, hi, st, r.cnt, w); } cp_range_init(&r, lo, lo - 1 - U(), st); if (r.cnt) VIOL("range", "empty range has %zu steps", r.cnt); }
    { static unsigned char x[80], y[80], x0[80], y0[80]; size_t o = R(8), p = R(8), z = R(40); for (int k = 0; k < 80; k++) { x[k] = x0[k] = (unsigned char)rnd(); y[k] = y0[k] = (unsigned char)rnd(); } cp_memswap(x + o, y + p, z); if (memcmp(x + o, y0 + p, z) || memcmp(y + p, x0 + o, z) || memcmp(x, x0, o) || memcmp(y, y0, p) || memcmp(x + o + z, x0 + o + z, 80 - o - z) || memcmp(y + p + z, y0 + p + z, 80 - p - z)) VIOL("memswap", "offsets %zu %zu size %zu", o, p, z);
      memset(x, 0, 80); if (R(2)) x[R(80)] = (unsigned char)(1 << R(8)); bool w = true; for (size_t k = o; k < o + z; k++) if (x[k]) w = false; if (cp_mem_is0(x + o, z) != w) VIOL("mem-is0", "size %zu", z); } }
static void on_sig(int s) { char b[200]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d at %s\n", cur, s, opn); fflush(stdout); if (write(1, b, (size_t)k)) {} signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv)
{
    (void)argc; unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int c = atoi(argv[2]); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
#ifndef HOB_SAN
    signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
#endif
#define DO(f) do { opn = #f; f(); } while (0)
    for (int i = 0; i < c && nviol < 20; i++) {
        cur = s0 + (unsigned)i; rs = 0x9E3779B97F4A7C15ULL * (cur + 1ULL) ^ 0xA5A5A5A5DEADBEEFULL; for (int k = 0; k < 8; k++) rnd(); alarm(30);
        DO(c_mat2); DO(c_mat2w); DO(c_mat3); DO(c_mat3w); DO(c_mat4); DO(p_mat2); DO(p_mat2w); DO(p_mat3); DO(p_mat3w); DO(p_mat4); DO(h_mat2); DO(h_mat2w); DO(h_mat3); DO(h_mat3w); DO(h_mat4);
        DO(conv); DO(v_vec2); DO(v_vec3); DO(v_vec4); DO(geom); for (int k = 0; k < 10; k++) DO(trig); DO(circle); DO(arith);
    }
    alarm(0);
    printf("STAT matrices=%lld products=%lld inverses=%lld vectors=%lld angles=%lld integers=%lld circles=%lld conversions=%lld comparisons=%lld arith=%lld short_vectors=%lld\nDONE\n", n_mat, n_mul, n_inv, n_vec, n_trig, n_int, n_circ, n_conv, n_cmp, n_arith, n_short);
    return 0;
}
