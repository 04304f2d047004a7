// C library model for the symbolic executor (linked as IR). Behaviour follows ISO C / glibc in the C locale.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

typedef struct VFile { char *data; size_t len, cap, pos; bool open, rd, wr, eof; int fsIdx; bool app; } VFile;
struct _IO_FILE;
typedef struct _IO_FILE FILE;

void *malloc(size_t); void *realloc(void *, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
size_t strlen(const char *); int strcmp(const char *, const char *); int memcmp(const void *, const void *, size_t);
double __vp_strtod(const char *, char **);
int __vp_fmtd(char *, size_t, const char *, double);
int __vp_issym(unsigned long long);
void __vp_digits(char *, int, unsigned long long);
void vp_assume(int);
void abort(void);

static VFile vf_in = {0, 0, 0, 0, true, true, false, false, -1}, vf_out = {0, 0, 0, 0, true, false, true, false, -1}, vf_err = {0, 0, 0, 0, true, false, true, false, -1};
FILE *stdin = (FILE *)&vf_in, *stdout = (FILE *)&vf_out, *stderr = (FILE *)&vf_err;
static int verrno;
int *__errno_location(void) { return &verrno; }

#define IN(c, lo, hi) ((unsigned)(c) - (unsigned)(lo) <= (unsigned)(hi) - (unsigned)(lo))
int isdigit(int c) { return IN(c, '0', '9'); }
int isalpha(int c) { return IN(c | 32, 'a', 'z') & (c >= 0); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isxdigit(int c) { return IN(c, '0', '9') | (IN(c | 32, 'a', 'f') & (c >= 0)); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int toupper(int c) { return IN(c, 'a', 'z') ? c - 32 : c; }
int tolower(int c) { return IN(c, 'A', 'Z') ? c + 32 : c; }

char *strcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strstr(const char *h, const char *n) { size_t k = strlen(n), l = strlen(h); for (size_t i = 0; i + k <= l; i++) if (memcmp(h + i, n, k) == 0) return (char *)h + i; return 0; }
char *strdup(const char *s) { size_t n = strlen(s); char *r = malloc(n + 1); memcpy(r, s, n + 1); return r; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) i++; return i; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }

static int digval(int c) { return IN(c, '0', '9') ? c - '0' : (IN(c | 32, 'a', 'z') && c >= 0) ? (c | 32) - 'a' + 10 : 99; }
static unsigned long long pstrtoull(const char *s, char **end, int base, bool sgn) {
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digval((unsigned char)p[2]) < 16) { p += 2; base = 16; }
    else if ((base == 0 || base == 2) && p[0] == '0' && (p[1] | 32) == 'b' && digval((unsigned char)p[2]) < 2) { p += 2; base = 2; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0, lim = sgn ? (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull) : ~0ull;
    bool any = false, ovf = false;
    for (;; p++) {
        int d = (unsigned char)*p;
        if (d >= '0' && d <= '9') d = d - '0';
        else if (d >= 'a' && d <= 'z') d = d - 'a' + 10;
        else if (d >= 'A' && d <= 'Z') d = d - 'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (!ovf) {
            if ((v > lim / base) | ((v == lim / base) & ((unsigned long long)d > lim % base))) { ovf = true; v = lim; verrno = 34; }
            else v = v * base + d;
        }
    }
    if (end) *end = (char *)(any ? p : s);
    if (!any) return 0;
    if (ovf) return sgn && neg ? 0 - v : v;
    return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)pstrtoull(s, e, b, true); }
long long strtoll(const char *s, char **e, int b) { return (long long)pstrtoull(s, e, b, true); }
unsigned long strtoul(const char *s, char **e, int b) { return pstrtoull(s, e, b, false); }
unsigned long long strtoull(const char *s, char **e, int b) { return pstrtoull(s, e, b, false); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
double strtod(const char *s, char **e) { return __vp_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)__vp_strtod(s, e); }
double atof(const char *s) { return __vp_strtod(s, 0); }

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = base;
    char tmp[256];
    if (sz > 256) abort();
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) {
            memcpy(tmp, b + j * sz, sz);
            memcpy(b + j * sz, b + (j - 1) * sz, sz);
            memcpy(b + (j - 1) * sz, tmp, sz);
        }
}
static unsigned long rseed = 1;
void srand(unsigned s) { rseed = s; }
int rand(void) { rseed = rseed * 6364136223846793005ull + 1442695040888963407ull; return (int)((rseed >> 33) & 0x7fffffff); }
long time(long *t) { if (t) *t = 1000000; return 1000000; }
long clock(void) { return 1000; }
char *getenv(const char *n) { return 0; }

// ---------------------------------------------------------------- streams
typedef struct { char name[128]; char *data; size_t len; } VEnt;
static VEnt vfs[16];
static int nfs;
static int fsFind(const char *n) { for (int i = 0; i < nfs; i++) if (strcmp(vfs[i].name, n) == 0) return i; return -1; }
static int fsAdd(const char *n) { int i = fsFind(n); if (i >= 0) return i; if (nfs == 16) abort(); strcpy(vfs[nfs].name, n); return nfs++; }
void vp_fs_put(const char *n, const void *d, size_t len) { int i = fsAdd(n); vfs[i].data = malloc(len + 1); memcpy(vfs[i].data, d, len); vfs[i].len = len; }
long vp_fs_get(const char *n, void *buf, size_t cap) { int i = fsFind(n); if (i < 0) return -1; size_t k = vfs[i].len < cap ? vfs[i].len : cap; memcpy(buf, vfs[i].data, k); return (long)vfs[i].len; }
void vp_stdin_put(const void *d, size_t n) { vf_in.data = malloc(n + 1); memcpy(vf_in.data, d, n); vf_in.len = n; vf_in.pos = 0; vf_in.eof = false; }
FILE *fopen(const char *n, const char *m) {
    int i = fsFind(n);
    VFile *f;
    bool upd = m[1] == '+' || (m[1] && m[2] == '+');
    if (m[0] == 'r') { if (i < 0) { verrno = 2; return 0; } }
    else {
        if (i < 0 && strchr(n, '/')) { verrno = 2; return 0; } // no directories
        i = fsAdd(n);
        if (m[0] == 'w' || !vfs[i].data) { vfs[i].data = malloc(1); vfs[i].len = 0; }
    }
    f = malloc(sizeof *f);
    f->data = vfs[i].data; f->len = vfs[i].len; f->cap = 0; f->app = m[0] == 'a'; f->pos = f->app ? f->len : 0; f->open = true; f->rd = m[0] == 'r' || upd; f->wr = m[0] != 'r' || upd; f->eof = false; f->fsIdx = i;
    if (f->wr) { f->data = malloc(f->len + 1); memcpy(f->data, vfs[i].data, f->len); f->cap = f->len; }
    return (FILE *)f;
}
int fflush(FILE *fp) { VFile *f = (VFile *)fp; if (f && f->wr && f->fsIdx >= 0) { vfs[f->fsIdx].data = f->data; vfs[f->fsIdx].len = f->len; } return 0; }
int fclose(FILE *fp) { fflush(fp); free(fp); return 0; }
static void putb(VFile *f, char c) {
    if (f->app) f->pos = f->len;
    if (f->pos >= f->cap) { size_t nc = f->cap ? f->cap * 2 : 64; if (nc <= f->pos) nc = f->pos + 64; f->data = realloc(f->data, nc); f->cap = nc; }
    while (f->len < f->pos) f->data[f->len++] = 0; // gap left by seeking past the end
    f->data[f->pos++] = c;
    if (f->pos > f->len) f->len = f->pos;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) { const char *c = p; if (!((VFile *)fp)->wr) return 0; for (size_t i = 0; i < sz * n; i++) putb((VFile *)fp, c[i]); return n; }
size_t fread(void *p, size_t sz, size_t n, FILE *fp) {
    VFile *f = (VFile *)fp;
    size_t k = 0, t = sz * n;
    if (!f->rd) return 0;
    while (k < t && f->pos < f->len) ((char *)p)[k++] = f->data[f->pos++];
    if (k < t) f->eof = true;
    return sz ? k / sz : 0;
}
int fputc(int c, FILE *f) { putb((VFile *)f, (char)c); return (unsigned char)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { fwrite(s, 1, strlen(s), f); return 1; }
int puts(const char *s) { fputs(s, stdout); putchar('\n'); return 1; }
int fgetc(FILE *fp) { VFile *f = (VFile *)fp; if (f->pos >= f->len) { f->eof = true; return -1; } return (unsigned char)f->data[f->pos++]; }
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *fp) { VFile *f = (VFile *)fp; if (f->pos) f->pos--; f->eof = false; return c; }
char *fgets(char *b, int n, FILE *f) {
    int i = 0;
    while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; }
    if (i == 0) return 0;
    b[i] = 0;
    return b;
}
int feof(FILE *f) { return ((VFile *)f)->eof; }
int ferror(FILE *f) { return 0; }
int fseek(FILE *fp, long o, int w) { VFile *f = (VFile *)fp; long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->len; if (b + o < 0) return -1; f->pos = b + o; f->eof = false; return 0; }
long ftell(FILE *f) { return (long)((VFile *)f)->pos; }
void rewind(FILE *f) { fseek(f, 0, 0); }
int remove(const char *n) { return 0; }

static size_t outMark;
void vp_out_begin(void) { outMark = vf_out.len; }
const char *vp_out_end(size_t *len) { if (len) *len = vf_out.len - outMark; putb(&vf_out, 0); return vf_out.data + outMark; }

// ---------------------------------------------------------------- formatted output
typedef struct { char *buf; size_t cap, n; VFile *f; } Sink;
static void sput(Sink *k, char c) {
    if (k->f) putb(k->f, c);
    else if (k->cap && k->n < k->cap - 1) k->buf[k->n] = c;
    k->n++;
}
static void spad(Sink *k, char c, int n) { for (; n > 0; n--) sput(k, c); }
static int vfmt(Sink *k, const char *fmt, va_list ap) {
    for (; *fmt; fmt++) {
        if (*fmt != '%') { sput(k, *fmt); continue; }
        const char *start = fmt++;
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; fmt++) { if (*fmt == '-') left = true; else if (*fmt == '0') zero = true; else if (*fmt == '+') plus = true; else if (*fmt == ' ') space = true; else if (*fmt == '#') alt = true; else break; }
        int width = 0, prec = -1, lng = 0;
        if (*fmt == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } fmt++; }
        else while (isdigit(*fmt)) width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.') { fmt++; prec = 0; if (*fmt == '*') { prec = va_arg(ap, int); fmt++; } else while (isdigit(*fmt)) prec = prec * 10 + (*fmt++ - '0'); }
        for (;; fmt++) { if (*fmt == 'l') lng++; else if (*fmt == 'h') lng--; else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't') lng = 2; else break; }
        switch (*fmt) {
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                unsigned long long v;
                bool neg = false;
                unsigned base = (*fmt == 'x' || *fmt == 'X' || *fmt == 'p') ? 16 : *fmt == 'o' ? 8 : 10;
                if (*fmt == 'p') { v = (unsigned long long)va_arg(ap, void *); alt = true; }
                else if (*fmt == 'd' || *fmt == 'i') {
                    long long sv = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int);
                    if (lng == -1) sv = (short)sv;
                    if (lng < -1) sv = (signed char)sv;
                    neg = sv < 0;
                    v = neg ? 0 - (unsigned long long)sv : (unsigned long long)sv;
                } else {
                    v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
                    if (lng == -1) v = (unsigned short)v;
                    if (lng < -1) v = (unsigned char)v;
                }
                char tmp[32];
                int n = 0;
                unsigned long long orig = v;
                // A symbolic value: its decimal digits are the unique c[0..n) with v == sum of (c[i] - '0') * 10^i
                // (up to 19 digits the sum can't wrap; 20-digit values take the division loop below).
                if (base == 10 && __vp_issym(v) && v < 10000000000000000000ull && v) {
                    unsigned long long p = 10, h = 0;
                    int nd = 1;
                    while (nd < 19 && v >= p) { nd++; p *= 10; }
                    __vp_digits(tmp, nd, v);
                    for (int i = nd - 1; i >= 0; i--) {
                        vp_assume((unsigned char)(tmp[i] - '0') <= 9);
                        h = h * 10 + (unsigned long long)((unsigned char)tmp[i] - '0');
                    }
                    vp_assume(tmp[nd - 1] != '0');
                    vp_assume(h == v);
                    n = nd;
                    v = 0;
                }
                while (v) { unsigned d = (unsigned)(v % base); tmp[n++] = (char)(base == 16 ? (d < 10 ? '0' + d : (*fmt == 'X' ? 'A' : 'a') + d - 10) : '0' + d); v /= base; }
                if (n == 0 && prec != 0) tmp[n++] = '0';
                int zeros = prec > n ? prec - n : 0;
                int pre = (neg || plus || space) ? 1 : 0;
                if (alt && base == 16 && orig) pre += 2;
                int total = n + zeros + pre;
                if (zero && !left && prec < 0 && width > total) { zeros = width - total; total = width; }
                if (!left) spad(k, ' ', width - total);
                if (neg) sput(k, '-'); else if (plus) sput(k, '+'); else if (space) sput(k, ' ');
                if (alt && base == 16 && orig) { sput(k, '0'); sput(k, *fmt == 'X' ? 'X' : 'x'); }
                spad(k, '0', zeros);
                while (n) sput(k, tmp[--n]);
                if (left) spad(k, ' ', width - total);
                break;
            }
            case 'c': { char c = (char)va_arg(ap, int); if (!left) spad(k, ' ', width - 1); sput(k, c); if (left) spad(k, ' ', width - 1); break; }
            case 's': {
                const char *s = va_arg(ap, const char *);
                if (!s) s = "(null)";
                size_t n = 0;
                while ((prec < 0 || n < (size_t)prec) && s[n]) n++;
                if (!left) spad(k, ' ', width - (int)n);
                for (size_t i = 0; i < n; i++) sput(k, s[i]);
                if (left) spad(k, ' ', width - (int)n);
                break;
            }
            case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
                char spec[40], out[512];
                size_t n = 0;
                spec[n++] = '%';
                if (left) spec[n++] = '-';
                if (zero) spec[n++] = '0';
                if (plus) spec[n++] = '+';
                if (space) spec[n++] = ' ';
                if (alt) spec[n++] = '#';
                if (width) { if (width > 99) abort(); if (width >= 10) spec[n++] = '0' + width / 10; spec[n++] = '0' + width % 10; }
                if (prec >= 0) { spec[n++] = '.'; if (prec > 99) abort(); if (prec >= 10) spec[n++] = '0' + prec / 10; spec[n++] = '0' + prec % 10; }
                spec[n++] = *fmt;
                spec[n] = 0;
                int m = __vp_fmtd(out, sizeof out, spec, va_arg(ap, double));
                if (m >= (int)sizeof out) abort();
                for (int i = 0; i < m; i++) sput(k, out[i]);
                break;
            }
            case '%': sput(k, '%'); break;
            default: for (; start < fmt; start++) sput(k, *start); if (*fmt) sput(k, *fmt); else fmt--; break;
        }
    }
    if (!k->f && k->cap) k->buf[k->n < k->cap - 1 ? k->n : k->cap - 1] = 0;
    return (int)k->n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { Sink k = {b, n, 0, 0}; return vfmt(&k, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int vfprintf(FILE *fp, const char *f, va_list ap) { Sink k = {0, 0, 0, (VFile *)fp}; return vfmt(&k, f, ap); }
int fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
void perror(const char *s) {}

// sscanf: %[*][width](s|d|i|u|c), whitespace and literals
static int vss(const char *s, const char *f, va_list ap) {
    int n = 0;
    const char *s0 = s;
    for (; *f; f++) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return n ? n : (*s ? 0 : -1); s++; continue; }
        f++;
        bool skip = false;
        int width = 0, lng = 0;
        if (*f == '*') { skip = true; f++; }
        while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'z') { lng++; f++; }
        if (*f == 's') {
            while (isspace((unsigned char)*s)) s++;
            if (!*s) return n ? n : -1;
            char *d = skip ? 0 : va_arg(ap, char *);
            int i = 0;
            while (*s && !isspace((unsigned char)*s) && (!width || i < width)) { if (d) d[i] = *s; i++; s++; }
            if (d) { d[i] = 0; n++; }
        } else if (*f == 'd' || *f == 'i' || *f == 'u') {
            char *e;
            long long v = strtoll(s, &e, *f == 'i' ? 0 : 10);
            if (e == s) { while (isspace((unsigned char)*s)) s++; return n ? n : (*s ? 0 : -1); }
            s = e;
            if (!skip) { if (lng) *va_arg(ap, long long *) = v; else *va_arg(ap, int *) = (int)v; n++; }
        } else if (*f == 'c') {
            if (!*s) return n ? n : -1;
            if (!skip) { *va_arg(ap, char *) = *s; n++; }
            s++;
        } else if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); }
        else if (*f == '%') { if (*s != '%') return n; s++; }
        else abort();
    }
    return n;
}
int vsscanf(const char *s, const char *f, va_list ap) { return vss(s, f, ap); }
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vss(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vss(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vss(s, f, ap); va_end(ap); return r; }
