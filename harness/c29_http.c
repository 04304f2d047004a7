// C29: the request parser under every chunking.
#include "requestparser.h"
#include "stretchy_buffer.h"
#include "vp.h"

typedef struct { RequestParser p; Request r; int err; long fed; long doneAt; } Run;
static void start(Run *u) { memset(u, 0, sizeof *u); InitRequest(&u->r); InitRequestParser(&u->p); u->doneAt = -1; }
// one received chunk, handled the way the connection loop does
static void feed(Run *u, const char *data, int n) {
#ifdef EXACT
    char *buf = malloc(n ? n : 1);
#else
    char *buf = malloc(n + 1);  // the parser scans the request line as a string: the caller terminates the chunk
    buf[n] = 0;
#endif
    memcpy(buf, data, n);
    int k = 0;
    while (k < n && !u->err && u->doneAt < 0) {
        int c = ParseRequest(&u->p, &u->r, buf + k, n - k);
        if (c == REQUEST_ERROR) { u->err = 1; break; }
        vp_assert((c >= 0) & (c <= n - k), "consumes no more than it was given");
        if (c < 0 || c > n - k) vp_assume(0);
        if (c == 0 && u->p.state != REQUEST_STATE_DONE) { static int z; vp_assert(z++ < 8, "makes progress"); }
        k += c;
        if (u->p.state == REQUEST_STATE_DONE) u->doneAt = u->fed + k;
    }
    u->fed += n;
    free(buf);
}
static void fin(Run *u) { DestroyRequestParser(&u->p); DestroyRequest(&u->r); }
static char tok(void) { char c = (char)vp_u8("c"); vp_assume((c > 32) & (c < 127) & (c != ':')); return c; }
static char bin(void) { return (char)vp_u8("b"); }
static char req[256];
static int len;
static void lit(const char *s) { int n = strlen(s); memcpy(req + len, s, n); len += n; }

// well-formed requests, any split into up to three chunks
static void wellformed(void) {
    int nh = vp_choose(3, "headers"), clen = vp_choose(4, "content-length"), crlf = vp_choose(2, "crlf");
    const char *nl = crlf ? "\r\n" : "\n";
    char me = tok(), ta = tok(), ve = tok();
    lit("G"); req[len++] = me; lit(" /"); req[len++] = ta; lit(" H"); req[len++] = ve; lit(nl);
    char hn[2], hv[2];
    for (int i = 0; i < nh; i++) { req[len++] = 'N'; req[len++] = hn[i] = tok(); lit(": "); req[len++] = hv[i] = tok(); lit("v"); lit(nl); }
    if (clen) { lit("Content-Length: "); req[len++] = (char)('0' + clen); lit(nl); }
    lit(nl);
    char body[4];
    for (int i = 0; i < clen; i++) req[len++] = body[i] = bin();
    Run u;
    start(&u);
    int line = 0;
    while (req[line++] != '\n') ;
    int a = vp_shard(8, "part"), c1 = vp_choose(len + 1, "cut"), c2;
    vp_assume(c1 % 8 == a);
#ifdef LINESPLIT
    // the first chunk ends within or right after the request line
    vp_assume(c1 > 0 && c1 <= line);
    feed(&u, req, c1);
    feed(&u, req + c1, len - c1);
    vp_assert(!u.err && u.doneAt == len, "a request line split from the rest is parsed");
    if (u.err || u.doneAt != len) return;
#elif defined BYTEWISE
    feed(&u, req, line + 1);
    for (int i = line + 1; i < len; i++) feed(&u, req + i, 1);
    (void)c2;
    vp_assume(c1 == a);
#else
    vp_assume(c1 > line);
    c2 = c1 + vp_choose(len - c1 + 1, "cut2");
    feed(&u, req, c1);
    feed(&u, req + c1, c2 - c1);
    feed(&u, req + c2, len - c2);
#endif
    vp_assert(!u.err, "a well-formed request is accepted");
    vp_assert(u.doneAt == len, "complete exactly when the full request has arrived");
    if (u.err || u.doneAt != len) return;
    vp_assert((u.r.method[0] == 'G') & (u.r.method[1] == me) & (u.r.method[2] == 0), "method");
    vp_assert((u.r.target[0] == '/') & (u.r.target[1] == ta) & (u.r.target[2] == 0), "target");
    vp_assert((u.r.version[0] == 'H') & (u.r.version[1] == ve) & (u.r.version[2] == 0), "version");
    vp_assert(sb_count(u.r.headers) == nh + (clen > 0), "number of headers");
    if (sb_count(u.r.headers) != nh + (clen > 0)) return;
    for (int i = 0; i < nh; i++) {
        char *n = u.r.headers[i].name, *v = u.r.headers[i].value;
        vp_assert((n[0] == 'N') & (n[1] == hn[i]) & (n[2] == 0), "header name");
        vp_assert((v[0] == hv[i]) & (v[1] == 'v') & (v[2] == 0), "header value");
    }
    if (clen) vp_assert(GetHeaderValue(&u.r, "Content-Length") && GetHeaderValue(&u.r, "Content-Length")[0] == '0' + clen, "content length header");
    if (clen) { vp_assert(sb_count(u.r.body) == clen + 1, "body length"); if (sb_count(u.r.body) == clen + 1) { vp_assert(memcmp(u.r.body, body, clen) == 0, "body bytes"); vp_assert(u.r.body[clen] == 0, "body is terminated"); } }
    fin(&u);
    vp_reach("request parsed");
}
// arbitrary bytes: the outcome is the same whole and split, and memory-safe
static int dig(Run *u, unsigned char *out) {
    int n = 0;
    out[n++] = u->err;
    out[n++] = u->doneAt >= 0;
    if (u->err) return n;
    out[n++] = (unsigned char)u->doneAt;
    out[n++] = u->p.state;
    if (u->p.state == REQUEST_STATE_FIRST_LINE) return n;
    memcpy(out + n, u->r.method, 8); n += strlen(u->r.method) + 1;
    memcpy(out + n, u->r.target, 8); n += strlen(u->r.target) + 1;
    memcpy(out + n, u->r.version, 8); n += strlen(u->r.version) + 1;
    out[n++] = sb_count(u->r.headers);
    for (int i = 0; i < sb_count(u->r.headers); i++) {
        int k = strlen(u->r.headers[i].name) + 1;
        memcpy(out + n, u->r.headers[i].name, k); n += k;
        k = sb_count(u->r.headers[i].value);
        out[n++] = k;
        memcpy(out + n, u->r.headers[i].value, k); n += k;
    }
    out[n++] = sb_count(u->r.body);
    if (sb_count(u->r.body)) { memcpy(out + n, u->r.body, sb_count(u->r.body)); n += sb_count(u->r.body); }
    return n;
}
#ifndef N
#define N 4
#endif
static void arbitrary(void) {
    static const char *prefix[] = {"G / H\nLong-Name", "G / H\n", "G / H\r\nX", "G / H\nContent-Length:", "G / H\nContent-Length: 2\n\n", "G / H\n: \n", "G / H\nA: b"};
    int pf = vp_shard(7, "prefix");
    lit(prefix[pf]);
    int pl = len;
    int n = N;
    for (int i = 0; i < n; i++) req[len++] = vp_u8("x");
    if (pf == 3) vp_assume((unsigned char)(req[pl + n - 1] - '0') > 9);  // keep the announced length small
    Run a, b;
    start(&a);
    feed(&a, req, len);
    start(&b);
    int c = pl + vp_choose(n + 1, "cut");
    bool eol = memchr(req, '\n', pl) != NULL;
    vp_assume(eol && c > strlen("G / H\n"));
    feed(&b, req, c);
    feed(&b, req + c, len - c);
    unsigned char da[512] = {0}, db[512] = {0};
    int na = dig(&a, da), nb = dig(&b, db);
    vp_assert(na == nb, "same outcome for both splits");
    if (na == nb) vp_assert(memcmp(da, db, na) == 0, "same outcome for both splits");
    vp_observe_buf("digest", da, na);
    fin(&a);
    fin(&b);
    vp_reach("splits compared");
}
// over-long pieces
static void longs(void) {
    static char big[2400];
    int which = vp_shard(5, "which"), n = 0;
    static const int sizes[] = {62, 63, 64, 65, 100, 255, 256, 257, 511, 512, 513, 600, 1020, 1024, 1100};
    int k = sizes[vp_choose(15, "size")];
    char c = tok();
#define PUT(s) do { memcpy(big + n, s, strlen(s)); n += strlen(s); } while (0)
#define REP() do { for (int i = 0; i < k; i++) big[n++] = i == k - 1 ? c : 'a'; } while (0)
    if (which == 0) { REP(); PUT(" / H\n"); }
    else if (which == 1) { PUT("G /"); REP(); PUT(" H\n"); }
    else if (which == 2) { PUT("G / H"); REP(); PUT("\n"); }
    else if (which == 3) { PUT("G / H\n"); REP(); PUT(": v\n"); }
    else { PUT("G / H\nX: "); REP(); PUT("\n"); }
    PUT("\n");
    Run u;
    start(&u);
    int cut = vp_choose(4, "cut") * (n / 3);
    if (cut > n) cut = n;
    if (which < 3) cut = n;
    else if (cut < 8) cut = 8;
    feed(&u, big, cut);
    feed(&u, big + cut, n - cut);
    if (!u.err) {
        static const char fits[] = "method, target and version fit their fields";
        vp_assert(memchr(u.r.method, 0, sizeof u.r.method) && memchr(u.r.target, 0, sizeof u.r.target) && memchr(u.r.version, 0, sizeof u.r.version), fits);
        if (which == 4) vp_assert(u.doneAt == n && sb_count(u.r.headers) == 1 && strlen(u.r.headers[0].value) == k && u.r.headers[0].value[k - 1] == c, "long header value");
        if (which == 3) vp_assert(u.doneAt == n && strlen(u.r.headers[0].name) == k, "long header name");
    } else vp_assert(which != 4, "long header values are accepted");
    if (which == 3 && k <= 255) vp_assert(!u.err, "header names up to the limit are accepted");
    fin(&u);
    vp_reach("long pieces");
}
void vp_main(void) {
#if defined J_W
    wellformed();
#elif defined J_A
    arbitrary();
#else
    longs();
#endif
}
