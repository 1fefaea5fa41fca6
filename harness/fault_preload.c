/* LD_PRELOAD fault injector: makes chosen calls of the real program fail and
 * logs each fault that was actually delivered (fd FAULT_LOG).
 *   FAULT_FOPEN=n,errno     n-th fopen fails
 *   FAULT_READ=k,bytes,errno,eof   k-th file opened for reading fails after that many bytes (eof=1: end of file afterwards)
 *   FAULT_RSHORT=seed       files opened for reading deliver data in short pieces (no fault)
 *   FAULT_WRITE=bytes,errno     the file opened for writing fails after that many bytes
 *   FAULT_CLOSE=errno       closing the file opened for writing fails
 *   FAULT_MALLOC=n,sticky   n-th allocation of the program fails (sticky: all later, too)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

static int logfd = -1, started = 0;
static long fopen_n, fopen_no, fopen_e, read_k, read_no, read_b = -1, read_e, read_eof, write_b = -1, write_e, close_e, mal_n, mal_no, mal_sticky;
static unsigned rshort;

static void hit(char const *s, char const *p)
{
    char b[400];
    int n = snprintf(b, sizeof(b), "%s %s\n", s, p ? p : "");
    if (logfd >= 0) { ssize_t r = write(logfd, b, (size_t)n); (void)r; }
}

__attribute__((constructor)) static void init(void)
{
    char *s;
    if ((s = getenv("FAULT_LOG"))) logfd = atoi(s);
    if ((s = getenv("FAULT_FOPEN"))) sscanf(s, "%ld,%ld", &fopen_n, &fopen_e);
    if ((s = getenv("FAULT_READ"))) sscanf(s, "%ld,%ld,%ld,%ld", &read_k, &read_b, &read_e, &read_eof);
    if ((s = getenv("FAULT_RSHORT"))) rshort = (unsigned)atoi(s) | 1;
    if ((s = getenv("FAULT_WRITE"))) sscanf(s, "%ld,%ld", &write_b, &write_e);
    if ((s = getenv("FAULT_CLOSE"))) close_e = atol(s);
    if ((s = getenv("FAULT_MALLOC"))) sscanf(s, "%ld,%ld", &mal_n, &mal_sticky);
    unsetenv("LD_PRELOAD");
    started = 1;
}

typedef struct { int fd; long left; int bad, fails; int wr; char path[200]; } ck_t;

static ssize_t ck_read(void *c, char *b, size_t n)
{
    ck_t *k = c;
    if (k->bad && k->left == 0) {
        if (k->fails && read_eof) return 0;
        k->fails++;
        if (k->fails == 1) hit("read", k->path);
        errno = (int)read_e;
        return -1;
    }
    if (rshort) { rshort = rshort * 1103515245u + 12345u; size_t m = 1 + (rshort >> 16) % 700; if (n > m) n = m; }
    if (k->bad && (long)n > k->left) n = (size_t)k->left;
    ssize_t r = read(k->fd, b, n);
    if (r > 0 && k->bad) k->left -= r;
    return r;
}

static ssize_t ck_write(void *c, char const *b, size_t n)
{
    ck_t *k = c;
    if (write_b >= 0) {
        if ((long)n > k->left) {
            long m = k->left;
            if (m > 0) { ssize_t r = write(k->fd, b, (size_t)m); (void)r; }
            k->left = 0;
            hit("write", k->path);
            errno = (int)write_e;
            return m;
        }
        k->left -= (long)n;
    }
    size_t o = 0;
    while (o < n) { ssize_t r = write(k->fd, b + o, n - o); if (r <= 0) return (ssize_t)o; o += (size_t)r; }
    return (ssize_t)n;
}

static int ck_close(void *c)
{
    ck_t *k = c;
    int wr = k->wr;
    close(k->fd);
    free(k);
    if (wr && close_e) { hit("close", NULL); errno = (int)close_e; return -1; }
    return 0;
}

FILE *fopen(char const *path, char const *mode)
{
    static FILE *(*real)(char const *, char const *);
    if (!real) real = (FILE *(*)(char const *, char const *))dlsym(RTLD_NEXT, "fopen");
    if (++fopen_no == fopen_n) { hit("open", path); errno = (int)fopen_e; return NULL; }
    int wr = mode[0] != 'r';
    if (!wr) read_no++;
    int bad = !wr && read_b >= 0 && read_no == read_k;
    if (!(wr ? (write_b >= 0 || close_e) : (bad || rshort))) return real(path, mode);
    int fd = wr ? open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666) : open(path, O_RDONLY);
    if (fd < 0) return NULL;
    ck_t *k = malloc(sizeof(*k));
    snprintf(k->path, sizeof(k->path), "%s", path);
    k->fd = fd; k->wr = wr; k->bad = bad; k->fails = 0; k->left = wr ? write_b : read_b;
    cookie_io_functions_t f = { ck_read, ck_write, NULL, ck_close };
    return fopencookie(k, wr ? "w" : "r", f);
}

FILE *fopen64(char const *path, char const *mode) { return fopen(path, mode); }

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);

static int no_mem(void)
{
    if (!started || !mal_n) return 0;
    mal_no++;
    if (mal_no == mal_n || (mal_sticky && mal_no > mal_n)) {
        if (mal_no == mal_n) hit("malloc", NULL);
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc(size_t n) { return no_mem() ? NULL : __libc_malloc(n); }
void *calloc(size_t m, size_t n) { return no_mem() ? NULL : __libc_calloc(m, n); }
void *realloc(void *p, size_t n) { return no_mem() ? NULL : __libc_realloc(p, n); }
