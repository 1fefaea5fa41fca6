/* UTF-8 decoder and encoder against a reference (Unicode table 3-7); text ends at a guard page. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <assert.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <hob3lbase/utf8.h>
typedef long long ll; typedef unsigned long long ull;
static ull rs; static unsigned cur; static int nviol; static char *endp; static unsigned char last[64]; static int lastn;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 21); }
static unsigned R(unsigned n) { return n ? rnd() % n : 0; }
static char *hexs(unsigned char const *s, int n) { static char b[300]; int k = 0; for (int i = 0; i < n && i < 60; i++) k += sprintf(b + k, "%02x ", s[i]); b[k] = 0; return b; }
#define VIOL(key, ...) do { if (nviol++ < 20) { printf("VIOL seed=%u key=%s ", cur, key); printf(__VA_ARGS__); printf("\n"); } } while (0)
static ll n_dec, n_ok, n_err, n_enc, n_esc, n_str, n_trunc;
/* length of the valid sequence at s, 0 if none */
static int ref(unsigned char const *s, size_t n, unsigned *cp) {
    if (!n || !s[0]) return 0; unsigned a = s[0]; if (a < 0x80) { *cp = a; return 1; }
#define CT(i) (n > (i) && s[i] >= 0x80 && s[i] <= 0xbf)
    if (a >= 0xc2 && a <= 0xdf && CT(1)) { *cp = (a & 31) << 6 | (s[1] & 63); return 2; }
    if (a >= 0xe0 && a <= 0xef && CT(1) && CT(2) && !(a == 0xe0 && s[1] < 0xa0) && !(a == 0xed && s[1] > 0x9f)) { *cp = (a & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63); return 3; }
    if (a >= 0xf0 && a <= 0xf4 && CT(1) && CT(2) && CT(3) && !(a == 0xf0 && s[1] < 0x90) && !(a == 0xf4 && s[1] > 0x8f)) { *cp = (a & 7) << 18 | (s[1] & 63) << 12 | (s[2] & 63) << 6 | (s[3] & 63); return 4; }
    return 0; }
static void one(unsigned char const *s, size_t n, size_t lim) { /* n bytes before the guard page, lim of them (or no limit if NUL terminated) visible */
    char *p = endp - n; if (memcmp(p, s, n)) memcpy(p, s, n); cp_utf8_iter_t it = { .data = p, .size = lim, .error_msg = NULL }; n_dec++; lastn = (int)n; memcpy(last, s, n);
    size_t vis = lim < n ? lim : n; unsigned want = 0; int l = ref(s, vis, &want); int end = !vis || !s[0];
    unsigned g = cp_utf8_decode(&it); size_t adv = (size_t)(it.data - p);
    if (l) { n_ok++; if (g != want || it.error_msg || adv != (size_t)l || (lim != ~(size_t)0 && it.size != lim - (size_t)l)) VIOL("decode", "%s(%zu visible): decoded to U+%04X, %zu bytes%s%s; expected U+%04X, %d bytes", hexs(s, (int)n), vis, g, adv, it.error_msg ? ", " : "", it.error_msg ? it.error_msg : "", want, l); }
    else if (end) { if (g || it.error_msg || adv) VIOL("decode-end", "%s: end of text gives U+%04X, %zu bytes, %s", hexs(s, (int)n), g, adv, it.error_msg ? it.error_msg : "no error"); }
    else { n_err++; if (vis < n) n_trunc++; if (g || !it.error_msg || adv) VIOL("invalid", "%s(%zu visible): accepted as U+%04X, %zu bytes, %s", hexs(s, (int)n), vis, g, adv, it.error_msg ? it.error_msg : "no error"); } }
static int vals[] = { 0x00,0x01,0x41,0x7f,0x80,0x81,0x8f,0x90,0x9f,0xa0,0xa1,0xbf,0xc0,0xc2,0xdf,0xe0,0xed,0xef,0xf0,0xf4,0xf5,0xff };
#define NV ((int)(sizeof vals / sizeof *vals))
static void enumerate(int b0) {
    unsigned char s[4] = { (unsigned char)b0 };
    one(s, 1, 1); one(s, 1, 0);
    for (int a = 0; a < 256; a++) { s[1] = (unsigned char)a; one(s, 2, 2); if (a % 16 == 0) one(s, 2, 1);
        for (int b = 0; b < 256; b++) { s[2] = (unsigned char)b; one(s, 3, 3); if (b == 0) one(s, 3, ~(size_t)0); } }
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) for (int k = 0; k < NV; k++) { s[1] = (unsigned char)vals[i]; s[2] = (unsigned char)vals[j]; s[3] = (unsigned char)vals[k]; for (size_t l = 2; l <= 4; l++) one(s, 4, l); if (!s[3]) one(s, 4, ~(size_t)0); } }
static void plane(unsigned p) {
    for (unsigned c = p << 16; c < (p + 1) << 16; c++) {
        unsigned char s[4]; int l; unsigned x = c; bool ok = c && !(c >= 0xd800 && c <= 0xdfff); n_enc++;
        if (cp_utf8_ok(c) != ok) VIOL("ok", "U+%04X", c);
        if (x < 0x80) { s[0] = (unsigned char)x; l = 1; } else if (x < 0x800) { s[0] = (unsigned char)(0xc0 | x >> 6); s[1] = 0x80 | (x & 63); l = 2; } else if (x < 0x10000) { s[0] = (unsigned char)(0xe0 | x >> 12); s[1] = 0x80 | (x >> 6 & 63); s[2] = 0x80 | (x & 63); l = 3; } else { s[0] = (unsigned char)(0xf0 | x >> 18); s[1] = 0x80 | (x >> 12 & 63); s[2] = 0x80 | (x >> 6 & 63); s[3] = 0x80 | (x & 63); l = 4; }
        for (int z = 0; z <= 4; z++) { char b[8]; memset(b, 0x55, 8); lastn = l; memcpy(last, s, (size_t)l); size_t g = cp_utf8_encode(b, (size_t)z, c); size_t want = ok && z >= l ? (size_t)l : 0;
            if (g != want || (g && memcmp(b, s, g)) || b[z] != 0x55) { VIOL("encode", "U+%04X into %d bytes gives %zu", c, z, g); break; } }
        if (ok) { one(s, (size_t)l, (size_t)l); if (c % 7 == 0) for (int k = 1; k < l; k++) one(s, (size_t)l, (size_t)k); }
    }
    if (p == 16) { unsigned big[] = { 0x110000, 0x110001, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xd800d800, ~0U }; for (int k = 0; k < 8; k++) { char b[8] = { 0 }; if (cp_utf8_ok(big[k])) VIOL("ok", "U+%X", big[k]); if (cp_utf8_encode(b, 8, big[k])) VIOL("encode", "U+%X", big[k]); } } }
/* a whole random text, with and without escapes */
static void text(void) {
    unsigned char s[60]; int n = 0; int L = 1 + (int)R(50); unsigned exp[60]; int ne = 0, esc = (int)R(2), stop = 0; (void)stop;
    while (n < L) { unsigned c = 0; int k = (int)R(esc ? 9 : 5);
        if (k < 5) { c = k == 0 ? 1 + R(0x7f) : k == 1 ? 0x80 + R(0x780) : k == 2 ? 0x800 + R(0xd000) : k == 3 ? 0xe000 + R(0x2000) : 0x10000 + R(0x100000); if (c == '\\') c = 'b'; n += (int)cp_utf8_encode((char*)s + n, 4, c); exp[ne++] = c; }
        else if (k == 5) { static char const e[] = "\\'\"tnr"; static char const v[] = "\\'\"\t\n\r"; int q = (int)R(6); s[n++] = '\\'; s[n++] = (unsigned char)e[q]; exp[ne++] = (unsigned char)v[q]; }
        else { unsigned w = k == 6 ? 2 : k == 7 ? 4 : 6; c = 1 + R(k == 6 ? 0x7f : k == 7 ? 0xd7ff : 0x10ffff); char t[12]; sprintf(t, R(2) ? "%0*x" : "%0*X", (int)w, c); n += sprintf((char*)s + n, "\\%c%s", k == 6 ? 'x' : k == 7 ? 'u' : 'U', t); exp[ne++] = c; } }
    n_str++; int badat = -1; unsigned char z[64]; memcpy(z, s, (size_t)n); int nul = (int)R(2);
    if (nul) z[n] = 0; int tot = n + nul; char *p = endp - tot; memcpy(p, z, (size_t)tot); (void)badat; lastn = tot; memcpy(last, z, (size_t)tot);
    cp_utf8_iter_t it = { .data = p, .size = nul ? ~(size_t)0 : (size_t)n, .error_msg = NULL };
    for (int i = 0; i <= ne; i++) { unsigned g = esc ? cp_utf8_escaped_decode(&it) : cp_utf8_decode(&it); n_esc += esc; if (it.error_msg || g != (i < ne ? exp[i] : 0)) { VIOL(esc ? "escaped" : "text", "%s: character %d is U+%04X, expected U+%04X%s%s", hexs(z, tot), i, g, i < ne ? exp[i] : 0, it.error_msg ? " " : "", it.error_msg ? it.error_msg : ""); return; } }
    if (it.data != p + n) VIOL("text-end", "decoding ended at %d of %d", (int)(it.data - p), n);
    if (!esc && nul) { char const *q = p; for (int i = 0; i <= ne; i++) { unsigned g = cp_utf8_take(&q); if (g != (i < ne ? exp[i] : 0)) { VIOL("take", "%s: character %d", hexs(z, tot), i); return; } } }
    if (esc) { static char const *const br[] = { "\\q", "\\x", "\\x1", "\\x1g", "\\u12", "\\u123x", "\\U12345", "\\U110000", "\\Uffffff", "\\x80", "\\xff", "\\0", "\\ ", "\\\xc3\xa4", "\\\x80" }; char const *b = br[R(15)]; size_t l = strlen(b); p = endp - l; memcpy(p, b, l); lastn = (int)l; memcpy(last, b, l); cp_utf8_iter_t j = { .data = p, .size = l, .error_msg = NULL }; unsigned g = cp_utf8_escaped_decode(&j); if (g || !j.error_msg) VIOL("escape-invalid", "%s gives U+%04X, %s", hexs((void*)b, (int)l), g, j.error_msg ? j.error_msg : "no error"); }
    /* corrupt one byte: everything before is decoded, then error or other text, never a crash */
    int at = (int)R((unsigned)n); z[at] = (unsigned char)rnd(); p = endp - tot; memcpy(p, z, (size_t)tot); cp_utf8_iter_t k = { .data = p, .size = nul ? ~(size_t)0 : (size_t)n, .error_msg = NULL }; int guard = 0;
    size_t pos = 0; while (guard++ < 100) { unsigned w = 0; int l = ref(z + pos, (size_t)n - pos, &w); unsigned g = cp_utf8_decode(&k); if (l) { pos += (size_t)l; if (g != w || k.data != p + pos) { VIOL("corrupt", "%s at %zu", hexs(z, tot), pos); return; } } else { if (g || k.data != p + pos || !k.error_msg != (pos >= (size_t)n || !z[pos])) VIOL("corrupt", "%s stops at %zu instead of %zu", hexs(z, tot), (size_t)(k.data - p), pos); return; } } }
static void on_sig(int s) { char b[400]; int k = snprintf(b, sizeof b, "\nCRASH seed=%u signal=%d bytes=%s\n", cur, s, hexs(last, lastn)); fflush(stdout); if (write(1, b, (size_t)k)) {} signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv)
{
    (void)argc; unsigned s0 = (unsigned)strtoul(argv[1], 0, 0); int c = atoi(argv[2]); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig); 
#ifndef HOB_SAN
    signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
#endif
    char *m = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE); endp = m + 4096;
    for (int i = 0; i < c && nviol < 20; i++) {
        cur = s0 + (unsigned)i; rs = 0x9E3779B97F4A7C15ULL * (cur + 1ULL) ^ 0xA5A5A5A5DEADBEEFULL; for (int k = 0; k < 8; k++) rnd();
        alarm(60);
        if (cur < 256) enumerate((int)cur); else if (cur < 273) plane(cur - 256); else for (int k = 0; k < 50 && nviol < 20; k++) text();
    }
    alarm(0);
    printf("STAT decoded=%lld valid=%lld invalid=%lld truncated=%lld encoded=%lld texts=%lld escaped_chars=%lld\nDONE\n", n_dec, n_ok, n_err, n_trunc, n_enc, n_str, n_esc);
    return 0;
}
