// Native implementation of the harness API: replays one path with the inputs of a file of "name hex" lines.
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

typedef struct { char *name, *hex; bool used; } In;
static In *ins;
static int nins;
static int viol, aborts;
static struct { char *n; int k; } names[65536];
static int nnames;
static FILE *rep;

static In *find(const char *name) {
    char key[256];
    int k = 0, i;
    for (i = 0; i < nnames; i++) if (strcmp(names[i].n, name) == 0) break;
    if (i == nnames) { names[nnames++].n = strdup(name); }
    k = names[i].k++;
    if (k) snprintf(key, sizeof key, "%s#%d", name, k); else snprintf(key, sizeof key, "%s", name);
    for (i = 0; i < nins; i++) if (strcmp(ins[i].name, key) == 0) return &ins[i];
    return NULL;
}
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void put(const char *name, void *p, size_t n) {
    In *in = find(name);
    memset(p, 0, n);
    if (!in) return;
    for (size_t i = 0; i < n && in->hex[2 * i]; i++) ((unsigned char *)p)[i] = hv(in->hex[2 * i]) * 16 + hv(in->hex[2 * i + 1]);
}
void vp_symbolic(void *p, size_t n, const char *name) { put(name, p, n); }
unsigned vp_choose(unsigned n, const char *name) { unsigned v; put(name, &v, 4); return v; }
unsigned vp_shard(unsigned n, const char *name) { return vp_choose(n, name); }
static void done(int code) { fprintf(rep, "END %d\n", code); fflush(rep); fflush(NULL); _exit(code); }
void vp_assume(int c) { if (!c) { fprintf(rep, "ASSUME-FALSE\n"); done(viol ? 10 : 12); } }
void vp_assert(int c, const char *label) { if (!c) { fprintf(rep, "VIOLATED %s\n", label); fflush(rep); viol = 1; } }
void vp_fail(const char *label) { vp_assert(0, label); done(10); }
void vp_reach(const char *label) {}
void vp_observe(const char *label, uint64_t v) { fprintf(rep, "OBS %s ", label); for (int i = 0; i < 8; i++) fprintf(rep, "%02x", (unsigned)(v >> 8 * i) & 255); fprintf(rep, "\n"); }
void vp_observe_buf(const char *label, const void *p, size_t n) { fprintf(rep, "OBS %s ", label); for (size_t i = 0; i < n; i++) fprintf(rep, "%02x", ((const unsigned char *)p)[i]); fprintf(rep, "\n"); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_allow_abort(int on) { aborts = on; }
int vp_is_engine(void) { return 0; }
void vp_debug(const char *l, uint64_t v) {}
static FILE *savedOut;
static char *capBuf;
static size_t capLen;
void vp_out_begin(void) { savedOut = stdout; stdout = open_memstream(&capBuf, &capLen); }
const char *vp_out_end(size_t *len) { fclose(stdout); stdout = savedOut; if (len) *len = capLen; return capBuf; }
void vp_fs_put(const char *n, const void *d, size_t len) { FILE *f = fopen(n, "wb"); if (!f) { perror(n); exit(3); } fwrite(d, 1, len, f); fclose(f); }
long vp_fs_get(const char *n, void *b, size_t cap) { FILE *f = fopen(n, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long l = ftell(f); rewind(f); size_t k = fread(b, 1, (size_t)l < cap ? (size_t)l : cap, f); (void)k; fclose(f); return l; }
void vp_stdin_put(const void *d, size_t n) { stdin = fmemopen(memcpy(malloc(n + 1), d, n), n ? n : 1, "r"); if (!n) fgetc(stdin); }
void vp_main(void);
static void onabrt(int s) {
    if (s == SIGABRT && aborts) { fprintf(rep, "ALLOWED-ABORT\n"); fflush(rep); _exit(viol ? 10 : 0); }
    fprintf(rep, "SIGNAL %d\n", s);
    fflush(rep);
    _exit(11);
}
static bool finished;
static void onexit(void) { if (!finished) { fprintf(rep, "EXITED\n"); fflush(rep); _exit(aborts > 1 ? (viol ? 10 : 0) : 11); } }
int main(int argc, char **argv) {
    rep = fopen(argv[2], "w");
    FILE *f = fopen(argv[1], "r");
    if (!f || !rep) return 3;
    char *line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char *sp = strrchr(line, ' ');
        if (!sp) continue;
        *sp = 0;
        sp[strcspn(sp + 1, "\n") + 1] = 0;
        ins = realloc(ins, sizeof *ins * (nins + 1));
        ins[nins].name = strdup(line);
        ins[nins].hex = strdup(sp + 1);
        nins++;
    }
    fclose(f);
    signal(SIGABRT, onabrt);
    signal(SIGFPE, onabrt);
    signal(SIGILL, onabrt);
    signal(SIGTRAP, onabrt);
    atexit(onexit);
    vp_main();
    finished = true;
    done(viol ? 10 : 0);
}
