/* Replay search: runs scripted shell sessions on the real code and compares every byte written, every
 * callback made and every result returned with a reference model.  Only used after a proof obligation failed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <wchar.h>
#include "inc/ush.h"
#include "inc/ush_node.h"
#include "inc/ush_commands.h"
#include "inc/ush_file.h"
#include "inc/ush_const.h"
#include "inc/ush_utils.h"
#include "inc/ush_internal.h"

extern const struct ush_file_descriptor g_ush_buildin_commands[];
extern const size_t g_ush_buildin_commands_num;

#define CAP 60000
#define NF 6
enum { K_NONE, K_PRINT, K_PRINTNN, K_STATUS, K_PRINTF, K_FLUSH, K_OP, K_PROC, K_TWICE, K_PRCNULL, K_PP, K_N };
enum { O_MOUNT, O_UNMOUNT, O_ADD, O_REMOVE, O_CD, O_MOUNTSPARE, O_RESET, O_REROOT, O_N };

static const char *NAMES[] = { "a", "ab", "abc", "abd", "b", "bin", "cfg", "x1", "ls", "led", "ledger", "help", "cat", "hello_world_file", "..b", "abc", "c", "ec", "q" };
static const char *PATHS[] = { "/", "/a", "/b", "/ab", "/a/b", "/a/ab", "/a/b/c", "/bin", "/abc", "/a/..b", "/b/a", "/a b", "/..b", "/b/a/x1" };
static const char *TEXTS[] = { "", "z", "hello", "two words", "0123456789abcdef", "line\r\nline2", "a longer piece of text that fills buffers", "%d%s%n", "\x1b[1mstyle", "no\\x41", "\x80\xff" };
#define NN(a) (sizeof(a) / sizeof((a)[0]))
#define NP NN(PATHS)

struct op { int k, t; const char *s; };
struct meta { int kind, k, t[3], f[3], left; struct op op; uint8_t *data; size_t dn; unsigned gets; };
struct list { struct ush_file_descriptor *fd, *copy; struct meta m[NF]; size_t n; struct ush_node_object *node; int on; unsigned seq; struct ush_node_object keep; };

struct item { int kind; struct op op; char *b; size_t n; };
struct W {
    struct ush_object *o; struct ush_descriptor *d, dc; char *ib, *ob, *oib, *oob; struct ush_object oc;
    char host[32]; struct op hop; int hopon;
    struct list dir[NP], grp[3]; struct ush_node_object *spare;
    unsigned seq;
    /* model */
    char *line; size_t len; int esc; int exact; int cwd; int order[8]; int ng;  /* order: group index, newest first; -1 builtin */
    char obs[4096]; int wbo; size_t wpos, wsize;
    char *exp; size_t en; char *act; size_t an;
    /* io */
    const char *q; size_t qn; int gap, ref; int nread, nwrite, ncb, deliv, refused, stall; unsigned long quiet; int noio; int idle;
    struct item it[40]; int ni, cur; int dead;
};
static char logb[2][2][CAP + 8];
static struct W wd[2]; static int nw; static int PROP, V, in_lib;
/* what a mode compares: each property is judged only on what it states (memory errors and assertions always count) */
enum { CMP = 1, LINE = 2, TREE = 4, REG = 8, SVC = 16, ISO = 32, INIT = 64, NULT = 128, CWD = 256, PROG = 512, REF = 1024, DANG = 2048, PATHX = 4096, PATHF = 8192, FIND = 16384, DEC = 32768, PRE = 65536, STATS = 131072, ALLOC = 262144, CONSTS = 524288, PATHU = 1048576 };
static int F = ~0;
static const int MODE[23] = { ~0, NULT, CMP | LINE | PROG, CMP | PROG, CMP | PROG, CMP | PROG | REF, SVC | PROG, PATHX, PATHF, TREE | PATHU, CMP | CWD | PROG, FIND, CMP | PROG, CMP | PROG | DEC, CMP | PROG | STATS, CMP | PROG, CMP | PROG,
    CMP | LINE | PROG | PRE, CMP | PROG | STATS, REG, ISO | DANG | ALLOC | CONSTS, CMP | INIT, CMP | PROG };
#define CK(x) ((F & (x)) != 0)
static char *lo_stack;

/* ---- choices ---- */
static const uint8_t *D; static size_t DN; static uint64_t S;
static uint32_t xs(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (uint32_t)(S >> 20); }
static uint32_t rnd(uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (DN) { v = *D++; DN--; if (n > 256 && DN) { v = v * 256 + *D++; DN--; } } else v = xs();
    return v % n;
}
static int pc(int p) { return (int)rnd(100) < p; }
#define PICK(a) ((a)[rnd(NN(a))])

/* ---- reporting ---- */
static void show(const char *t, const char *b, size_t n) {
    fprintf(stderr, "%s\"", t);
    for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)b[i]; if (c == '\\' || c == '"') fprintf(stderr, "\\%c", c); else if (c >= 32 && c < 127) fputc(c, stderr); else fprintf(stderr, "\\x%02x", c); }
    fprintf(stderr, "\"\n");
}
/* logs hold records: 'o' byte | 'e' text '\n' */
static void showlog(const char *t, const char *b, size_t n, size_t from) {
    fprintf(stderr, "%s", t);
    size_t i = 0; int inq = 0; size_t shown = 0;
    while (i < n && shown < 400) {
        if (b[i] == 'o') {
            if (i + 1 >= n) break;
            if (i >= from) { unsigned char c = (unsigned char)b[i + 1]; if (!inq) { fprintf(stderr, " \""); inq = 1; } if (c >= 32 && c < 127) fputc(c, stderr); else fprintf(stderr, "\\x%02x", c); shown++; }
            i += 2;
        } else {
            size_t j = i; while (j < n && b[j] != '\n') j++;
            if (i >= from) { if (inq) { fprintf(stderr, "\""); inq = 0; } fprintf(stderr, " <%.*s>", (int)(j - i - 1), b + i + 1); shown += j - i; }
            i = j + 1;
        }
    }
    fprintf(stderr, "%s%s\n", inq ? "\"" : "", i < n ? " ..." : "");
}
static void die(const char *f, ...) {
    va_list a; va_start(a, f);
    fprintf(stderr, "\nDEVIATION: "); vfprintf(stderr, f, a); fprintf(stderr, "\n"); va_end(a);
    fflush(stderr); in_lib = 0;
    abort();
}
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t n); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n) { if (in_lib && CK(ALLOC)) die("the library allocates memory (malloc)"); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { if (in_lib && CK(ALLOC)) die("the library allocates memory (calloc)"); return __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n) { if (in_lib && CK(ALLOC)) die("the library allocates memory (realloc)"); return __real_realloc(p, n); }
void __wrap_free(void *p) { if (in_lib && CK(ALLOC)) die("the library frees memory"); __real_free(p); }

static void put(char *b, size_t *n, const char *p, size_t k) { if (*n + k < CAP) { memcpy(b + *n, p, k); *n += k; } else *n = CAP; }
static void mo(struct W *w, const char *p, size_t k) { for (size_t i = 0; i < k; i++) { char r[2] = { 'o', p[i] }; put(w->exp, &w->en, r, 2); } }
static void ms(struct W *w, const char *p) { mo(w, p, strlen(p)); }
static void ev(int real, struct W *w, const char *f, ...) {
    char t[400]; t[0] = 'e'; va_list a; va_start(a, f); int k = vsnprintf(t + 1, 398, f, a); va_end(a);
    if (k > 397) k = 397;
    for (int i = 1; i <= k; i++) if (t[i] == '\n') t[i] = '~';
    t[k + 1] = '\n';
    if (real) put(w->act, &w->an, t, k + 2); else put(w->exp, &w->en, t, k + 2);
}
static void hex(char *o, size_t on, const uint8_t *d, size_t n) { size_t p = 0; for (size_t i = 0; i < n && p + 3 < on; i++) p += (size_t)snprintf(o + p, on - p, "%02x", d[i]); if (!n) o[0] = 0; }

static struct W *wof(struct ush_object *s) { for (int i = 0; i < nw; i++) if (wd[i].o == s) return &wd[i]; die("a callback got an unknown instance %p", (void*)s); return NULL; }
static struct meta *meta_of(struct W *w, struct ush_file_descriptor const *f) {
    for (size_t i = 0; i < NP; i++) for (size_t j = 0; j < w->dir[i].n; j++) if (&w->dir[i].fd[j] == f) return &w->dir[i].m[j];
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < w->grp[i].n; j++) if (&w->grp[i].fd[j] == f) return &w->grp[i].m[j];
    die("a callback got an unknown file"); return NULL;
}
static const char *fid(struct W *w, struct ush_file_descriptor const *f) {
    static char t[64];
    for (size_t i = 0; i < NP; i++) for (size_t j = 0; j < w->dir[i].n; j++) if (&w->dir[i].fd[j] == f) { snprintf(t, 64, "%s#%zu:%s", PATHS[i], j, f->name); return t; }
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < w->grp[i].n; j++) if (&w->grp[i].fd[j] == f) { snprintf(t, 64, "group%zu#%zu:%s", i, j, f->name); return t; }
    for (size_t j = 0; j < g_ush_buildin_commands_num; j++) if (&g_ush_buildin_commands[j] == f) { snprintf(t, 64, "builtin:%s", f->name); return t; }
    return f ? "?" : "NULL";
}

/* ---- reference model ---- */
static const char *const STAT[] = { "ok", "error: directory not found", "error: nested directories exist", "error: cannot find parent node", "error: directory already mounted",
    "error: syntax error", "error: wrong arguments", "error: file not executable", "error: file not writable", "error: file not readable", "error: no help available", "error: file not found", "error: read only file" };
static const char *m_last(const char *p) { const char *q = strrchr(p, '/'); return (strlen(p) == 1 || !q) ? p : q + 1; }
static void m_parent(const char *p, char *o) { strcpy(o, p); if (strlen(p) <= 1) { o[0] = 0; return; } char *q = strrchr(o, '/'); if (q == o) q[1] = 0; else *q = 0; }
static int m_dir(struct W *w, const char *p) { for (size_t i = 0; i < NP; i++) if (w->dir[i].on && strcmp(PATHS[i], p) == 0) return (int)i; return -1; }
/* absolute canonical path, 0 when it does not fit */
static int m_abs(struct W *w, const char *in, char *o) {
    static char t[9000]; static char *c[4600]; static size_t cl[4600]; size_t nc = 0;
    if (in[0] == '/') strcpy(t, in);
    else { strcpy(t, PATHS[w->cwd]); if (strcmp(t, "/")) strcat(t, "/"); strcat(t, in); }
    if (strlen(t) + 1 > w->d->path_max_length) { o[0] = 0; return 0; }
    size_t n = strlen(t); if (n > 1 && t[n - 1] == '/') t[n - 1] = 0;
    if (!strcmp(t, "/")) { strcpy(o, "/"); return 1; }
    /* a component is what follows a slash up to the next slash; a slash right after a slash belongs to it */
    char *p = t;
    while (*p == '/') {
        char *q = p + 1; char *e = q; if (*e) e++; while (*e && *e != '/') e++;
        size_t l = (size_t)(e - q);
        if (l == 2 && q[0] == '.' && q[1] == '.') { if (nc) nc--; } else if (!(l == 1 && q[0] == '.')) { c[nc] = q; cl[nc++] = l; }
        p = e;
    }
    o[0] = 0; size_t k = 0;
    for (size_t i = 0; i < nc; i++) { o[k++] = '/'; memcpy(o + k, c[i], cl[i]); k += cl[i]; }
    if (!nc) o[k++] = '/';
    o[k] = 0;
    return 1;
}
static size_t m_children(struct W *w, int d, int *out) {
    size_t n = 0; char t[64];
    for (size_t i = 0; i < NP; i++) if (w->dir[i].on && i != (size_t)d) { m_parent(PATHS[i], t); if (strcmp(t, PATHS[d]) == 0) out[n++] = (int)i; }
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (w->dir[out[j]].seq > w->dir[out[i]].seq) { int x = out[i]; out[i] = out[j]; out[j] = x; }
    return n;
}
static const struct ush_file_descriptor *glist(struct W *w, int g, size_t *n) { if (g < 0) { *n = g_ush_buildin_commands_num; return g_ush_buildin_commands; } *n = w->grp[g].n; return w->grp[g].fd; }
static const struct ush_file_descriptor *m_find(struct W *w, const char *name) {
    for (int i = 0; i < w->ng; i++) { size_t n; const struct ush_file_descriptor *f = glist(w, w->order[i], &n); for (size_t j = 0; j < n; j++) if (!strcmp(f[j].name, name)) return &f[j]; }
    static char abs[9000]; char par[9000];
    if (!m_abs(w, name, abs)) return NULL;
    m_parent(abs, par);
    int d = par[0] ? m_dir(w, par) : -1;
    if (d < 0) return NULL;
    for (size_t j = 0; j < w->dir[d].n; j++) { char t[200]; snprintf(t, 200, "%s%s%s", PATHS[d], d ? "/" : "", w->dir[d].fd[j].name); if (!strcmp(t, abs)) return &w->dir[d].fd[j]; }
    return NULL;
}
static int m_op(struct W *w, struct op *p) {
    char t[64]; int k;
    switch (p->k) {
    case O_MOUNTSPARE: case O_MOUNT:
        if (w->dir[p->t].on) return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
        m_parent(PATHS[p->t], t);
        if (!t[0] || m_dir(w, t) < 0) return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
        w->dir[p->t].on = 1; w->dir[p->t].seq = ++w->seq; return USH_STATUS_OK;
    case O_UNMOUNT: {
        int c[NP];
        if (!w->dir[p->t].on) return USH_STATUS_ERROR_NODE_NOT_FOUND;
        if (m_children(w, p->t, c)) return USH_STATUS_ERROR_NODE_WITH_CHILDS;
        w->dir[p->t].on = 0;
        if (w->cwd == p->t) { m_parent(PATHS[p->t], t); w->cwd = m_dir(w, t); }
        return USH_STATUS_OK; }
    case O_ADD:
        for (k = 0; k < w->ng; k++) if (w->order[k] == p->t) return -1;   /* adding twice is a misuse */
        memmove(w->order + 1, w->order, sizeof(int) * (size_t)w->ng); w->order[0] = p->t; w->ng++; return USH_STATUS_OK;
    case O_REMOVE:
        for (k = 0; k < w->ng; k++) if (w->order[k] == p->t) { memmove(w->order + k, w->order + k + 1, sizeof(int) * (size_t)(w->ng - k - 1)); w->ng--; return USH_STATUS_OK; }
        return USH_STATUS_ERROR_NODE_NOT_FOUND;
    case O_CD: { static char a[9000]; int d; if (!p->s[0] || !m_abs(w, p->s, a) || (d = m_dir(w, a)) < 0) return USH_STATUS_ERROR_NODE_NOT_FOUND; w->cwd = d; return USH_STATUS_OK; }
    }
    return 0;
}
static void m_prompt(struct W *w) { ms(w, "\x1b[35m["); ms(w, w->host); ms(w, " "); ms(w, m_last(PATHS[w->cwd])); ms(w, "]$ \x1b[0m"); }
static void m_ready(struct W *w, int nl) { if (nl) ms(w, "\r\n"); m_prompt(w); w->len = 0; w->line[0] = 0; w->esc = 0; }
static void m_stat(struct W *w, int s) { ms(w, STAT[s]); m_ready(w, 1); }

static int do_fmt(char *b, size_t n, int f, const char *t) {
    switch (f) {
    case 0: return snprintf(b, n, "%s", t);
    case 1: return snprintf(b, n, "%d:%s|", 42, t);
    case 2: return snprintf(b, n, "%-30s.", t);
    case 3: return snprintf(b, n, "%s", "");
    case 4: return snprintf(b, n, "p%%%c%04x", 'c', 0xbeef);
    default: return snprintf(b, n, "ab%lc%s", (wint_t)0x1234, t);
    }
}
static void do_printf(struct ush_object *s, int f, const char *t) {
    switch (f) {
    case 0: ush_printf(s, "%s", t); break;
    case 1: ush_printf(s, "%d:%s|", 42, t); break;
    case 2: ush_printf(s, "%-30s.", t); break;
    case 3: ush_printf(s, "%s", ""); break;
    case 4: ush_printf(s, "p%%%c%04x", 'c', 0xbeef); break;
    default: ush_printf(s, "ab%lc%s", (wint_t)0x1234, t); break;
    }
}
static void m_printf(struct W *w, int f, const char *t) {
    size_t sz = w->d->output_buffer_size;
    if (!w->wbo) { w->obs[0] = 0; w->wpos = w->wsize = 0; w->wbo = 1; }
    size_t at = strlen(w->obs);
    int ideal = do_fmt(w->obs + at, sz - at, f, t), real = (int)strlen(w->obs + at);
    w->wsize += (size_t)real;
    if (ideal >= 0 && ideal <= real) return;
    const char *m = ideal < 0 ? "...format error\r\n" : "...overflow error\r\n"; size_t ml = strlen(m) + 1;
    if (sz - strlen(w->obs) > ml - 1) { strcat(w->obs, m); w->wsize += ml - 1; }
    else { size_t e = 0; if (sz >= ml) e = sz - ml; else ml = sz; snprintf(w->obs + e, ml, "%s", m); w->wsize = sz; }
}
static void m_exec(struct W *w, const struct ush_file_descriptor *f, int argc, char **argv) {
    struct meta *m = meta_of(w, f);
    char t[300]; size_t p = 0; t[0] = 0;
    for (int i = 0; i < argc && p < 250; i++) p += (size_t)snprintf(t + p, sizeof(t) - p, " [%s]", argv[i]);
    ev(0, w, "exec %s argc=%d%s", fid(w, f), argc, t);
    switch (m->kind) {
    case K_NONE: m_ready(w, 0); break;
    case K_PRINT: ms(w, TEXTS[m->t[0]]); m_ready(w, 1); break;
    case K_PRINTNN: ms(w, TEXTS[m->t[0]]); m_ready(w, 0); break;
    case K_TWICE: ms(w, TEXTS[m->t[1]]); m_ready(w, 1); break;
    case K_STATUS: m_stat(w, m->k % (int)NN(STAT)); break;
    case K_FLUSH: { char b[64]; snprintf(b, w->d->output_buffer_size < 64 ? w->d->output_buffer_size : 64, "%s", TEXTS[m->t[0]]); ms(w, b); m_ready(w, 0); break; }
    case K_PP: w->wbo = 0; if (m->k >= 20) { snprintf(w->obs, w->d->output_buffer_size < 64 ? w->d->output_buffer_size : 64, "%s", TEXTS[m->t[0]]); w->wbo = 1; w->wpos = 0; w->wsize = strlen(w->obs); } /* fallthrough */
    case K_PRINTF: for (int i = 0; i <= m->k % 3; i++) m_printf(w, m->f[i], TEXTS[m->t[i]]); mo(w, w->obs + w->wpos, w->wsize - w->wpos); m_ready(w, 0); break;
    case K_OP: ev(0, w, "op result %d", m_op(w, &m->op)); m_ready(w, 0); break;
    case K_PROC: for (int i = 0; i <= m->k % 3; i++) ev(0, w, "process %s", fid(w, f)); ms(w, TEXTS[m->t[0]]); m_ready(w, 0); break;
    case K_PRCNULL: m_ready(w, 1); break;
    }
}
static void m_get(struct W *w, const struct ush_file_descriptor *f, uint8_t **d, size_t *n, int real) {
    struct meta *m = meta_of(w, f); ev(real, w, "get %s", fid(w, f));
    *d = m->data; *n = m->dn;
}
static void m_files(struct W *w, const struct ush_file_descriptor *f, size_t n, int ls) {
    for (size_t j = 0; j < n; j++) {
        char t[80];
        if (ls) { snprintf(t, 80, "-%c%c%c%c ", f[j].get_data ? 'r' : '-', f[j].set_data ? 'w' : '-', f[j].exec ? 'x' : '-', f[j].help ? 'h' : '-'); ms(w, t); }
        if (f[j].description) { snprintf(t, 80, "%-16s \x1b[33m- ", f[j].name); ms(w, t); ms(w, f[j].description); ms(w, "\x1b[0m\r\n"); } else { ms(w, f[j].name); ms(w, "\r\n"); }
    }
}
static size_t m_decode(const char *s, char *o) {
    size_t n = 0; int hv[2], st = 0;
    for (; *s; s++) {
        char c = *s; int h = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 0;
        if (st == 0) { if (c == '\\') st = 1; else o[n++] = c; }
        else if (st == 1) { if (c == 'x') st = 2; else { o[n++] = c; st = 0; } }
        else if (st == 2) { hv[0] = h; st = 3; }
        else { hv[1] = h; o[n++] = (char)(hv[0] * 16 + hv[1]); st = 0; }
    }
    o[n] = 0;
    return n;
}
static void m_builtin(struct W *w, const char *nm, int argc, char **argv) {
    char t[128];
    static char abs[9000];
    if (!strcmp(nm, "pwd")) { if (argc != 1) m_stat(w, 6); else { ms(w, PATHS[w->cwd]); m_ready(w, 1); } }
    else if (!strcmp(nm, "cd")) {
        if (argc != 2) { m_stat(w, 6); return; }
        struct op p = { O_CD, 0, argv[1] }; int r = m_op(w, &p);
        if (r) m_stat(w, r); else m_ready(w, 0);
    } else if (!strcmp(nm, "ls")) {
        int d = w->cwd, c[NP];
        if (argc > 2) { m_stat(w, 6); return; }
        if (argc == 2 && (!m_abs(w, argv[1], abs) || (d = m_dir(w, abs)) < 0)) { m_stat(w, 1); return; }
        if (w->d->output_buffer_size < 40) { w->exact = 0; return; }
        ms(w, "d---- \x1b[32m.\x1b[0m\r\n"); if (d) ms(w, "d---- \x1b[32m..\x1b[0m\r\n");
        size_t n = m_children(w, d, c);
        for (size_t i = 0; i < n; i++) { snprintf(t, 128, "d---- \x1b[32m%s/\x1b[0m\r\n", m_last(PATHS[c[i]])); ms(w, t); }
        m_files(w, w->dir[d].fd, w->dir[d].n, 1);
        m_ready(w, 0);
    } else if (!strcmp(nm, "help")) {
        if (argc > 2) { m_stat(w, 6); return; }
        if (argc == 2) { const struct ush_file_descriptor *f = m_find(w, argv[1]); if (!f) m_stat(w, 11); else if (!f->help) m_stat(w, 10); else { ms(w, f->help); m_ready(w, 0); } return; }
        if (w->d->output_buffer_size < 40) { w->exact = 0; return; }
        for (int i = 0; i < w->ng; i++) { size_t n; const struct ush_file_descriptor *f = glist(w, w->order[i], &n); m_files(w, f, n, 0); }
        m_ready(w, 0);
    } else if (!strcmp(nm, "cat")) {
        if (argc < 2) { m_stat(w, 6); return; }
        for (int i = 1; i < argc; i++) { const struct ush_file_descriptor *f = m_find(w, argv[i]); if (!f) { m_stat(w, 11); return; } if (!f->get_data) { m_stat(w, 9); return; } }
        for (int i = 1; i < argc; i++) { uint8_t *d; size_t n; m_get(w, m_find(w, argv[i]), &d, &n, 0); mo(w, (char*)d, n); }
        m_ready(w, 0);
    } else if (!strcmp(nm, "xxd")) {
        if (argc != 2) { m_stat(w, 6); return; }
        const struct ush_file_descriptor *f = m_find(w, argv[1]);
        if (!f) { m_stat(w, 11); return; }
        if (!f->get_data) { m_stat(w, 9); return; }
        uint8_t *d; size_t n; m_get(w, f, &d, &n, 0);
        if (w->d->output_buffer_size < 26) { w->exact = 0; return; }
        size_t o = 0;
        do {
            snprintf(t, 128, "%08zX: ", o); ms(w, t);
            for (size_t i = o; i < o + 8; i++) { if (i < n) { snprintf(t, 128, "%02X ", d[i]); ms(w, t); } else ms(w, "   "); }
            ms(w, " ");
            for (size_t i = o; i < o + 8; i++) { char c = i >= n ? ' ' : d[i] >= 0x20 && d[i] <= 0x7e ? (char)d[i] : '.'; mo(w, &c, 1); }
            ms(w, "\r\n"); o += 8;
        } while (o < n);
        m_ready(w, 0);
    } else if (!strcmp(nm, "echo")) {
        static char b[9000]; size_t n;
        if (argc == 1) { m_ready(w, 1); return; }
        if (argc == 2) { m_decode(argv[1], b); ms(w, b); m_ready(w, 1); return; }
        if (argc != 4 || strcmp(argv[2], ">")) { m_stat(w, 6); return; }
        const struct ush_file_descriptor *f = m_find(w, argv[3]);
        if (!f) { m_stat(w, 11); return; }
        if (!f->set_data) { m_stat(w, 8); return; }
        n = m_decode(argv[1], b); char hx[200]; hex(hx, 200, (uint8_t*)b, n); ev(0, w, "set %s %zu %s", fid(w, f), n, hx); m_ready(w, 0);
    } else die("the table of built-in commands holds an unknown command '%s'", nm);
}
static void m_line(struct W *w) {
    static char buf[9000]; static char *argv[9000]; int argc = 0; char *o = buf; int st = 0, es = 0;
    for (size_t i = 0; i < w->len; i++) {
        char c = w->line[i];
        if (st == 0) { if (c == ' ') continue; argv[argc++] = o; st = 1; if (c == '"') st = 2; else if (c == '\\') es = 1; else *o++ = c; }
        else if (es) { if (c == 'x') *o++ = '\\'; *o++ = c; es = 0; }
        else if (c == '\\') es = 1;
        else if (c == '"') st = 3 - st;
        else if (c == ' ' && st == 1) { *o++ = 0; st = 0; }
        else *o++ = c;
    }
    *o = 0; argv[argc] = NULL;
    if (!argc) { m_ready(w, 0); return; }
    if (w->d->exec) {
        char t[300]; size_t p = 0; t[0] = 0;
        for (int i = 0; i < argc && p < 250; i++) p += (size_t)snprintf(t + p, sizeof(t) - p, " [%s]", argv[i]);
        ev(0, w, "hook NULL argc=%d%s", argc, t);
        if (w->hopon) ev(0, w, "hook op result %d", m_op(w, &w->hop));
    }
    const struct ush_file_descriptor *f = m_find(w, argv[0]);
    if (!f) m_stat(w, 5);
    else if (!f->exec) m_stat(w, 7);
    else if (f >= g_ush_buildin_commands && f < g_ush_buildin_commands + g_ush_buildin_commands_num) m_builtin(w, f->name, argc, argv);
    else m_exec(w, f, argc, argv);
}
static size_t m_cands(struct W *w, const char *pre, const char **out) {
    size_t n = 0, pl = strlen(pre), k; static char abs[9000], par[9000]; int c[NP], d = w->cwd;
    for (int i = 0; i < w->ng; i++) { const struct ush_file_descriptor *f = glist(w, w->order[i], &k); for (size_t j = 0; j < k; j++) if (!strncmp(f[j].name, pre, pl)) out[n++] = f[j].name; }
    for (size_t j = 0; j < w->dir[d].n; j++) if (!strncmp(w->dir[d].fd[j].name, pre, pl)) out[n++] = w->dir[d].fd[j].name;
    if (pre[0] && m_abs(w, pre, abs)) { m_parent(abs, par); if (par[0] && m_dir(w, par) >= 0) d = m_dir(w, par); }
    k = m_children(w, d, c);
    for (size_t j = 0; j < k; j++) if (!strncmp(m_last(PATHS[c[j]]), pre, pl)) out[n++] = m_last(PATHS[c[j]]);
    return n;
}
static void m_tab(struct W *w) {
    const char *c[200]; w->len = strlen(w->line);
    char *pre = strrchr(w->line, ' '); pre = pre ? pre + 1 : w->line;
    size_t n = m_cands(w, pre, c), add = 0, sz = w->d->input_buffer_size;
    w->wbo = 0;
    if (n == 0) return;
    if (n == 1) {
        if ((size_t)(pre - w->line) + strlen(c[0]) >= sz) return;
        ms(w, c[0] + strlen(pre)); strcpy(pre, c[0]); w->len = strlen(w->line); return;
    }
    for (;;) {
        if (w->len + 1 >= sz) break;
        const char *l = c[n - 1]; size_t p = strlen(pre);
        if (p >= strlen(l)) break;
        w->line[w->len++] = l[p]; w->line[w->len] = 0; add++;
        size_t k = m_cands(w, pre, c);
        if (k < n) { w->line[--w->len] = 0; add--; break; }
        n = k;
    }
    if (add) { mo(w, w->line + w->len - add, add); return; }
    n = m_cands(w, pre, c);
    ms(w, "\r\n"); for (size_t i = 0; i < n; i++) { ms(w, c[i]); ms(w, "\r\n"); }
    m_prompt(w); ms(w, w->line);
}
static void m_byte(struct W *w, char ch) {
    size_t sz = w->d->input_buffer_size;
    switch (ch) {
    case 3: ms(w, "^C"); m_ready(w, 1); return;
    case 8: case 127: if (w->len) { w->line[--w->len] = 0; ms(w, "\b \b"); } return;
    case 9: m_tab(w); return;
    case 27: w->esc = 1; return;
    }
    if (w->esc) { w->esc = (w->esc == 1 && (ch == '[' || ch == 'O')) ? 2 : 0; return; }
    if (ch == 0) { w->exact = 0; return; }
    if (w->len + 1 >= sz) {
        if (ch == '\r' || ch == '\n') { w->exact = 0; return; }
        w->len = 0; w->line[0] = 0; mo(w, &ch, 1); return;
    }
    if (ch == '\r' || ch == '\n') {
        strcpy(w->obs, ch == '\r' ? "\r\n" : "\n"); w->wpos = w->wsize = strlen(w->obs); w->wbo = 1;
        ms(w, w->obs); m_line(w); return;
    }
    w->line[w->len++] = ch; w->line[w->len] = 0; mo(w, &ch, 1);
}

/* ---- the real side ---- */
static int real_op(struct W *w, struct op *p) {
    struct ush_node_object keep; int r = 0; struct ush_node_object *n;
    switch (p->k) {
    case O_MOUNT: case O_MOUNTSPARE:
        n = p->k == O_MOUNT ? w->dir[p->t].node : w->spare; keep = *n;
        in_lib = 1; r = ush_node_mount(w->o, PATHS[p->t], n, w->dir[p->t].fd, w->dir[p->t].n); in_lib = 0;
        if (CK(TREE) && r != USH_STATUS_OK && memcmp(&keep, n, sizeof(keep))) die("a refused mount of %s changed the node passed in", PATHS[p->t]);
        break;
    case O_UNMOUNT: in_lib = 1; r = ush_node_unmount(w->o, PATHS[p->t]); in_lib = 0; break;
    case O_ADD: if (w->grp[p->t].on) return -1; w->grp[p->t].on = 1; in_lib = 1; r = ush_commands_add(w->o, w->grp[p->t].node, w->grp[p->t].fd, w->grp[p->t].n); in_lib = 0; break;
    case O_REMOVE: w->grp[p->t].on = 0; in_lib = 1; r = ush_commands_remove(w->o, w->grp[p->t].node); in_lib = 0; break;
    case O_CD: in_lib = 1; r = ush_node_set_current_dir(w->o, p->s); in_lib = 0; break;
    }
    return r;
}
static int cb_read(struct ush_object *s, char *ch) {
    int l = in_lib; in_lib = 0; struct W *w = wof(s); w->nread++; in_lib = l;
    if (!w->qn || (w->gap && (int)(xs() % 100) < w->gap)) return 0;
    *ch = *w->q++; w->qn--; w->deliv = 1; return 1;
}
static int cb_write(struct ush_object *s, char ch) {
    int l = in_lib; in_lib = 0; struct W *w = wof(s); w->nwrite++; char r[2] = { 'o', ch };
    if (w->ref && (int)(xs() % 100) < w->ref) { w->refused = 1; in_lib = l; return 0; }
    put(w->act, &w->an, r, 2); in_lib = l; return 1;
}
static void logargs(struct W *w, const char *k, const char *id, int argc, char **argv) {
    char t[300]; size_t p = 0; t[0] = 0;
    for (int i = 0; i < argc && p < 250; i++) { if (!argv[i] && CK(CMP)) die("argv[%d] is NULL with argc=%d", i, argc); p += (size_t)snprintf(t + p, sizeof(t) - p, " [%s]", argv[i]); }
    if (argv[argc] && CK(CMP)) die("argv[argc] is not NULL (argc=%d)", argc);
    ev(1, w, "%s %s argc=%d%s", k, id, argc, t);
}
static void cb_hook(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) {
    in_lib = 0; struct W *w = wof(s); w->ncb++; if (f && CK(CMP)) die("the exec hook got a file"); logargs(w, "hook", "NULL", argc, argv); if (w->hopon) ev(1, w, "hook op result %d", real_op(w, &w->hop)); in_lib = 1;
}
static void cb_exec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) {
    in_lib = 0; struct W *w = wof(s); struct meta *m = meta_of(w, f); w->ncb++;
    logargs(w, "exec", fid(w, f), argc, argv);
    in_lib = 1;
    switch (m->kind) {
    case K_PRINT: ush_print(s, (char*)TEXTS[m->t[0]]); break;
    case K_PRINTNN: ush_print_no_newline(s, (char*)TEXTS[m->t[0]]); break;
    case K_TWICE: ush_print_no_newline(s, (char*)TEXTS[m->t[0]]); ush_print(s, (char*)TEXTS[m->t[1]]); break;
    case K_STATUS: ush_print_status(s, (ush_status_t)(m->k % (int)NN(STAT))); break;
    case K_FLUSH: in_lib = 0; snprintf(w->ob, w->d->output_buffer_size < 64 ? w->d->output_buffer_size : 64, "%s", TEXTS[m->t[0]]); in_lib = 1; ush_flush(s); break;
    case K_PP:
        if (m->k >= 20) { in_lib = 0; snprintf(w->ob, w->d->output_buffer_size < 64 ? w->d->output_buffer_size : 64, "%s", TEXTS[m->t[0]]); in_lib = 1; if (m->k & 1) ush_print(s, w->ob); else ush_print_no_newline(s, w->ob); }
        else ush_print_no_newline(s, (char*)TEXTS[m->t[0]]);
        /* fallthrough */
    case K_PRINTF: for (int i = 0; i <= m->k % 3; i++) do_printf(s, m->f[i], TEXTS[m->t[i]]); break;
    case K_OP: in_lib = 0; ev(1, w, "op result %d", real_op(w, &m->op)); break;
    case K_PROC: m->left = m->k % 3; ush_process_start(s, f); break;
    case K_PRCNULL: ush_process_start(s, f); break;
    }
    in_lib = 1;
}
static void cb_proc(struct ush_object *s, struct ush_file_descriptor const *f) {
    in_lib = 0; struct W *w = wof(s); struct meta *m = meta_of(w, f); w->ncb++; ev(1, w, "process %s", fid(w, f)); in_lib = 1;
    if (m->left-- > 0) return;
    ush_print_no_newline(s, (char*)TEXTS[m->t[0]]);
}
static size_t cb_get(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { int l = in_lib; in_lib = 0; struct W *w = wof(s); size_t n; w->ncb++; m_get(w, f, d, &n, 1); in_lib = l; return n; }
static void cb_set(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { int l = in_lib; in_lib = 0; struct W *w = wof(s); char hx[200]; w->ncb++; hex(hx, 200, d, n); ev(1, w, "set %s %zu %s", fid(w, f), n, hx); in_lib = l; }
static const struct ush_io_interface io = { .read = cb_read, .write = cb_write };

static void compare(struct W *w, int idle) {
    size_t n = w->an < w->en ? w->an : w->en;
    if (!CK(CMP)) { if (w->en >= CAP || w->an >= CAP) w->dead = 1; if (w->an >= CAP || memcmp(w->act, w->exp, n) || (w->exact && idle && w->an != w->en)) w->exact = 0; return; }
    if (w->en >= CAP || w->an >= CAP) { if (w->an >= CAP && w->en < CAP && w->exact) die("output does not end"); w->exact = 0; w->dead = 1; return; }
    if (memcmp(w->act, w->exp, n) || (w->exact && idle && w->an != w->en)) {
        size_t i = 0; while (i < n && w->act[i] == w->exp[i]) i++;
        size_t from = i > 120 ? i - 120 : 0;
        if (from) { size_t p = 0; while (p < from) { if (w->exp[p] == 'o') p += 2; else { while (w->exp[p] != '\n') p++; p++; } } from = p; }
        fprintf(stderr, "\n"); showlog("  expected:", w->exp, w->en, from); showlog("  actual:  ", w->act, w->an, from);
        die("output bytes or callbacks differ from what the property requires (instance %d)", (int)(w - wd));
    }
    if (w->an > w->en && w->exact && idle) die("more output than expected");
}
static void scan_stack(struct W *w) {
    if (!CK(DANG)) return;
    char here; uintptr_t lo = (uintptr_t)&here - 65536, hi = (uintptr_t)lo_stack; const char *p = (const char*)w->o;
    for (size_t i = 0; i + 8 <= sizeof(*w->o); i += 8) { uintptr_t v; memcpy(&v, p + i, 8); if (v >= lo && v < hi) die("the instance (offset %zu) points at the stack of a call that has returned", i); }
}
static void snap(struct W *w) { w->oc = *w->o; memcpy(w->oib, w->ib, w->d->input_buffer_size); memcpy(w->oob, w->ob, w->d->output_buffer_size); }
static int same(struct W *w) { return !memcmp(&w->oc, w->o, sizeof(*w->o)) && !memcmp(w->oib, w->ib, w->d->input_buffer_size) && !memcmp(w->oob, w->ob, w->d->output_buffer_size); }
static void service(struct W *w) {
    struct W *x = &wd[0] == w ? &wd[1] : &wd[0];
    snap(w); if (nw > 1) snap(x);
    w->nread = w->nwrite = w->ncb = w->deliv = w->refused = 0;
    int st = (int)w->o->state;
    in_lib = 1; bool r = ush_service(w->o); in_lib = 0;
    if (CK(ISO) && nw > 1 && !same(x)) die("servicing one instance changed another instance");
    scan_stack(w);
    if (CK(SVC) && w->nread + w->nwrite > 1) die("one ush_service call made %d read and %d write calls", w->nread, w->nwrite);
    if (w->nread && !w->deliv) {
        if (CK(SVC) && r) die("ush_service returned true although no byte was delivered");
        if (CK(SVC) && !same(w)) die("a read attempt without a byte changed the instance or its buffers");
        if (CK(NULT | LINE) && !memchr(w->ib, 0, w->d->input_buffer_size)) die("the input line is not NUL-terminated while waiting for input");
    } else if (st == USH_STATE_READ_PREPARE) { if (CK(SVC) && r) die("ush_service returned true while starting to read"); }
    else if (CK(SVC) && !r) die("ush_service returned false although it was busy (state %d)", st);
    if (CK(REF) && w->refused && !same(w)) die("a refused byte changed the instance or its buffers");
    if (w->deliv || (w->nwrite && !w->refused) || w->ncb || w->nread) w->quiet = 0; else if (!w->refused && ++w->quiet > 50000) { if (CK(PROG)) die("no progress: ush_service never reaches an interface call again"); w->dead = 1; }
    w->idle = w->nread && !w->deliv && !w->qn;
    if (w->an >= CAP) compare(w, 0);
    else if (w->an > w->en && w->exact) compare(w, 1);
    if (w->idle) {
        compare(w, 1);
        if (CK(LINE) && w->exact && strcmp(w->ib, w->line)) { show("  expected line: ", w->line, strlen(w->line)); show("  actual line:   ", w->ib, strlen(w->ib)); die("the line in the input buffer differs"); }
    }
}
static void check_tree(struct W *w) {
    if (CK(TREE)) for (size_t i = 0; i < NP; i++) {
        if (strlen(PATHS[i]) + 1 > w->d->path_max_length) continue;
        in_lib = 1; struct ush_node_object *n = ush_node_get_by_path(w->o, PATHS[i]); in_lib = 0;
        if (n != (w->dir[i].on ? (w->dir[i].node) : NULL)) die("lookup of %s returns %s", PATHS[i], n ? "a wrong node" : "nothing");
        if (n && (n->file_list != w->dir[i].fd || n->file_list_size != w->dir[i].n || n->path != PATHS[i])) die("the node mounted at %s does not hold what was mounted", PATHS[i]);
    }
    if (CK(CWD) && w->o->current_node != w->dir[w->cwd].node) die("the current directory is not %s", PATHS[w->cwd]);
    if (!CK(REG)) return;
    struct ush_node_object *g = w->o->commands;
    for (int i = 0; i < w->ng; i++, g = g->next) {
        int k = w->order[i]; size_t n; const struct ush_file_descriptor *f = glist(w, k, &n);
        if (g != (k < 0 ? &w->o->buildin_commands : w->grp[k].node)) die("command group %d of the registry is wrong", i);
        if (g->file_list != f || g->file_list_size != n) die("command group %d has changed", i);
    }
    if (g) die("the registry holds more groups than were added");
}
static void check_const(struct W *w) {
    if (!CK(CONSTS)) return;
    if (memcmp(w->d, &w->dc, sizeof(w->dc))) die("the descriptor was changed");
    for (size_t i = 0; i < NP; i++) if (w->dir[i].n && memcmp(w->dir[i].fd, w->dir[i].copy, w->dir[i].n * sizeof(*w->dir[i].fd))) die("a file list was changed");
    for (size_t i = 0; i < 3; i++) if (w->grp[i].n && memcmp(w->grp[i].fd, w->grp[i].copy, w->grp[i].n * sizeof(*w->grp[i].fd))) die("a file list was changed");
}
static void reroot(struct W *w) {
    int c[NP], kids = (int)m_children(w, 0, c); struct ush_node_object *t, keep;
    in_lib = 1; int r = ush_node_unmount(w->o, "/"); in_lib = 0;
    if (CK(TREE) && r != (kids ? USH_STATUS_ERROR_NODE_WITH_CHILDS : USH_STATUS_OK)) die("unmounting the root, which has %d children, returned status %d", kids, r);
    if ((r != USH_STATUS_OK) != (kids != 0)) { w->exact = 0; return; }
    if (kids) { check_tree(w); return; }
    w->dir[0].on = 0; keep = *w->dir[1].node;
    in_lib = 1; int a = ush_node_get_by_path(w->o, "/") != NULL, b = ush_node_get_by_path(w->o, PATHS[1]) != NULL, d = ush_node_unmount(w->o, "/"), e = ush_node_mount(w->o, PATHS[1], w->dir[1].node, w->dir[1].fd, w->dir[1].n); in_lib = 0;
    if (CK(TREE) && (a || b || d != USH_STATUS_ERROR_NODE_NOT_FOUND || e != USH_STATUS_ERROR_NODE_WITHOUT_PARENT || memcmp(&keep, w->dir[1].node, sizeof(keep)))) die("after unmounting the root: lookup of / %s, of %s %s, second unmount %d, mount of %s %d", a ? "finds a node" : "finds nothing", PATHS[1], b ? "finds a node" : "finds nothing", d, PATHS[1], e);
    if (e == USH_STATUS_OK) { w->exact = 0; w->dead = 1; return; }
    t = w->dir[0].node; w->dir[0].node = w->spare; w->spare = t; w->cwd = 0;
    in_lib = 1; r = ush_node_mount(w->o, "/", w->dir[0].node, w->dir[0].fd, w->dir[0].n); in_lib = 0;
    if (CK(TREE) && r != USH_STATUS_OK) die("mounting a new root returned status %d", r);
    if (r != USH_STATUS_OK) { w->exact = 0; w->dead = 1; return; }
    w->dir[0].on = 1; check_tree(w);
}
static void run_op(struct W *w, struct op *p) {
    struct W *x = &wd[0] == w ? &wd[1] : &wd[0];
    if (!w->exact || (p->k == O_MOUNTSPARE && !w->dir[p->t].on)) return;
    if (nw > 1) snap(x);
    if (p->k == O_REROOT) reroot(w);
    else if (p->k == O_RESET) { w->cwd = 0; ms(w, USH_NAME " " USH_VERSION "\r\n"); m_ready(w, 0); w->wbo = 0; in_lib = 1; ush_reset(w->o); in_lib = 0; w->idle = 0; }
    else {
        int a = m_op(w, p); if (a < 0) return;
        int b = real_op(w, p);
        if (a != b && CK(p->k == O_MOUNT || p->k == O_MOUNTSPARE || p->k == O_UNMOUNT ? TREE : p->k == O_CD ? CWD : REG)) die("the operation returned status %d, %d is required", b, a);
        if (a != b) { w->exact = 0; return; }
        check_tree(w);
    }
    if (CK(ISO) && nw > 1 && !same(x)) die("an operation on one instance changed another instance");
    scan_stack(w);
}
static char *exactbuf(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static void direct(struct W *w, struct item *t) {
    static char a[9000]; const char *s = t->b; size_t pm = w->d->path_max_length;
    if (!w->exact) return;
    char *in = exactbuf(s), *out = malloc(pm); memset(out, 'Z', pm);
    int fits = m_abs(w, s, a);
    switch (t->op.t) {
    case 0:
        in_lib = 1; ush_node_get_absolute_path(w->o, in, out); in_lib = 0;
        if (CK(fits ? PATHX : PATHF) && strcmp(out, fits ? a : "")) { show("  argument: ", s, strlen(s)); show("  expected: ", a, strlen(a)); show("  actual:   ", out, strlen(out)); die("ush_node_get_absolute_path is wrong (current directory %s, path_max_length %zu)", PATHS[w->cwd], pm); }
        if (CK(PATHX) && strcmp(in, s)) die("ush_node_get_absolute_path changed its argument");
        break;
    case 1: {
        in_lib = 1; struct ush_file_descriptor const *f = ush_file_find_by_name(w->o, in); in_lib = 0;
        const struct ush_file_descriptor *g = m_find(w, s);
        if (f != g && CK(FIND)) { show("  name: ", s, strlen(s)); char e[64]; snprintf(e, 64, "%s", fid(w, g)); die("ush_file_find_by_name finds %s instead of %s (current directory %s)", fid(w, f), e, PATHS[w->cwd]); }
        break; }
    case 2:
        if (s[0] == '/' && strlen(s) + 1 <= pm && (strlen(s) == 1 || s[strlen(s) - 1] != '/')) {
            int c = w->cwd; w->cwd = 0; m_abs(w, s, a); w->cwd = c; char *o = malloc(strlen(s) + 1);
            in_lib = 1; ush_utils_get_collapse_path(in, o); in_lib = 0;
            if (CK(PATHX) && strcmp(o, a)) { show("  path:     ", s, strlen(s)); show("  expected: ", a, strlen(a)); show("  actual:   ", o, strlen(o)); die("ush_utils_get_collapse_path is wrong"); }
            free(o);
        }
        break;
    case 3: {
        char *o = malloc(strlen(s) ? strlen(s) : 1); size_t n = m_decode(s, a);
        in_lib = 1; size_t k = ush_utils_decode_ascii(in, (uint8_t*)o, strlen(s)); in_lib = 0;
        if (CK(DEC) && (k != n || memcmp(o, a, n))) { show("  input:    ", s, strlen(s)); show("  expected: ", a, n); show("  actual:   ", o, k); die("ush_utils_decode_ascii is wrong"); }
        free(o);
        break; }
    case 4: {
        in_lib = 1; char *l = ush_utils_get_last_arg(in); bool sw = ush_utils_startswith("abc", in); in_lib = 0;
        const char *e = strrchr(s, ' '); if (CK(PRE) && l - in != (e ? e + 1 - s : 0)) { show("  line: ", s, strlen(s)); die("ush_utils_get_last_arg is wrong"); }
        if (CK(PRE) && sw != !strncmp("abc", s, strlen(s))) { show("  prefix: ", s, strlen(s)); die("ush_utils_startswith is wrong"); }
        break; }
    case 5: {
        const char *p = PATHS[t->op.k]; char par[64], *q = exactbuf(p), *o; m_parent(p, par);
        in_lib = 1; char *l = ush_utils_path_last(q); in_lib = 0;
        if (CK(PATHU) && strcmp(l, m_last(p))) { show("  path: ", p, strlen(p)); die("ush_utils_path_last is wrong"); }
        in_lib = 1; ush_utils_path_upper(q); in_lib = 0;
        if (CK(PATHU) && strcmp(q, par)) { show("  path: ", p, strlen(p)); die("ush_utils_path_upper is wrong"); }
        free(q); o = malloc(strlen(p) + 1 + strlen(s) + 1); snprintf(a, sizeof(a), "%s%s%s", p, p[1] ? "/" : "", s);
        in_lib = 1; ush_utils_join_path(p, in, o); in_lib = 0;
        if (CK(PATHU) && strcmp(o, a)) { show("  path: ", p, strlen(p)); show("  name: ", s, strlen(s)); die("ush_utils_join_path is wrong"); }
        free(o); break; }
    case 6: {
        for (int i = 0; i < (int)NN(STAT); i++) { in_lib = 1; const char *z = ush_utils_get_status_string((ush_status_t)i); in_lib = 0; if (CK(STATS) && strcmp(z, STAT[i])) die("status %d prints as '%s'", i, z); }
        for (int i = 0; i < 256; i++) { in_lib = 1; bool b = ush_utils_is_printable((uint8_t)i); in_lib = 0; if (CK(STATS) && b != (i >= 0x20 && i <= 0x7e)) die("ush_utils_is_printable(%d) is wrong", i); }
        break; }
    }
    free(in); free(out);
}

/* ---- scenarios ---- */
static void gen_list(struct W *w, struct list *l, int cmds) {
    l->n = cmds ? 1 + rnd(3) : rnd(NF); size_t alloc = l->n ? l->n : 1;
    if (l->n > NF) l->n = NF;
    l->fd = calloc(alloc, sizeof(*l->fd)); l->copy = calloc(alloc, sizeof(*l->fd)); l->node = calloc(1, sizeof(*l->node));
    if (cmds) memset(l->node, 0xA5, sizeof(*l->node));
    for (size_t j = 0; j < l->n; j++) {
        struct ush_file_descriptor *f = &l->fd[j]; struct meta *m = &l->m[j];
        size_t lim = w->d->path_max_length; int k = 0;
        do f->name = PICK(NAMES); while (strlen(f->name) > (lim > 20 ? 17u : 1u) && ++k < 50);
        if (strlen(f->name) > (lim > 20 ? 17u : 1u)) f->name = "a";
        if (cmds && pc(8)) { static const char *SN[] = { "/a", "/a/b", "a/b", "/b", "b/" }; f->name = PICK(SN); }
        if (pc(50)) f->description = PICK(TEXTS);
        if (pc(50)) f->help = PICK(TEXTS);
        if (cmds || pc(60)) f->exec = cb_exec;
        if (pc(60)) f->get_data = cb_get;
        if (pc(60)) f->set_data = cb_set;
        m->kind = (int)rnd(K_N); if (PROP == 18 && pc(70)) m->kind = pc(70) ? K_PRINTF : K_PP;
        m->k = (int)rnd(39);
        for (int i = 0; i < 3; i++) { m->t[i] = (int)rnd(NN(TEXTS)); m->f[i] = (int)rnd(pc(15) ? 6 : 5); }
        if (m->kind == K_PROC) f->process = cb_proc;
        m->op.k = pc(50) ? (int)rnd(2) : 2 + (int)rnd(3); m->op.t = m->op.k < 2 ? 1 + (int)rnd(NP - 1) : (int)rnd(3); m->op.s = PICK(PATHS);
        m->dn = pc(PROP == 14 ? 8 : 1) ? 240 + rnd(60) : pc(30) ? 7 + rnd(4) : pc(20) ? 0 : rnd(40);
        m->data = malloc(m->dn ? m->dn : 1);
        for (size_t i = 0; i < m->dn; i++) m->data[i] = (uint8_t)(pc(70) ? 32 + rnd(95) : rnd(256));
        if (PROP == 5 && pc(50)) for (size_t i = 0; i < m->dn; i++) m->data[i] = (uint8_t)rnd(256);
        l->copy[j] = *f;
    }
}
static size_t cat(char *b, size_t n, const char *s) { size_t k = strlen(s); if (n + k < 800) { memcpy(b + n, s, k); n += k; } return n; }
static size_t gen_path(char *b, size_t n) {
    int k = 1 + (int)rnd(4);
    if (pc(15)) return cat(b, n, PICK(PATHS));
    if (pc(PROP >= 7 && PROP <= 11 ? 15 : 3)) { k = 6 + (int)rnd(20); int up = 20 + (int)rnd(60); while (k--) { n = cat(b, n, "/"); n = cat(b, n, pc(up) ? ".." : pc(6) ? "." : pc(50) ? "a" : "b"); } return n; }
    if (pc(40)) n = cat(b, n, PICK(PATHS));
    while (k--) {
        if (pc(60) || (n && b[n - 1] != '/')) n = cat(b, n, "/");
        if (pc(30)) n = cat(b, n, "..");
        else if (pc(10)) n = cat(b, n, ".");
        else if (pc(10)) n = cat(b, n, "/");
        else if (pc(5)) n = cat(b, n, "...");
        else n = cat(b, n, PICK(NAMES));
    }
    if (pc(15)) n = cat(b, n, "/");
    return n;
}
static size_t gen_junk(char *b, size_t n) {
    int k = (int)rnd(pc(20) ? 40 : 6);
    static const char al[] = "ab \\\"x/.>01f";
    while (k-- && n < 800) b[n++] = pc(70) ? al[rnd(sizeof(al) - 1)] : (char)(32 + rnd(95));
    return n;
}
static size_t gen_word(char *b, size_t n) {
    switch (rnd(6)) {
    case 0: return cat(b, n, PICK(NAMES));
    case 1: case 2: return gen_path(b, n);
    case 3: return gen_junk(b, n);
    case 4: { int k = 1 + (int)rnd(4); char t[8]; while (k--) { if (pc(60)) { snprintf(t, 8, pc(50) ? "\\x%02X" : "\\x%02x", pc(85) ? rnd(256) : 0); n = cat(b, n, t); } else if (pc(20)) n = cat(b, n, "\\x4"); else n = cat(b, n, PICK(NAMES)); } return n; }
    default: return cat(b, n, PICK(PATHS));
    }
}
/* types word s so that the parser yields it (roughly) */
static size_t enc(char *b, size_t n, const char *s, size_t sn, int raw) {
    int q = pc(25), open = 0;
    if (raw) { memcpy(b + n, s, sn); return n + sn; }
    if (q) { b[n++] = '"'; open = 1; }
    for (size_t i = 0; i < sn && n < 2000; i++) {
        if (pc(4)) { b[n++] = '"'; open = !open; }
        if (s[i] == '"' || (s[i] == '\\' && s[i + 1] != 'x' && pc(70)) || (s[i] == ' ' && !open) || (pc(5) && s[i] != 'x')) b[n++] = '\\';
        b[n++] = s[i];
    }
    if (open) b[n++] = '"';
    return n;
}
static const char *BC[] = { "help", "ls", "cd", "pwd", "cat", "xxd", "echo" };
static void gen_type(struct W *w, struct item *t) {
    char b[4096], wo[1024]; size_t n = 0, k; int raw = 0;
    const char *c = NULL;
    t->kind = 0;
    if (PROP == 21) { t->b = malloc(8); strcpy(t->b, pc(50) ? "\r" : "xyz"); t->n = strlen(t->b); return; }
    if (pc(75)) switch (PROP) {
    case 10: c = pc(75) ? "cd" : "pwd"; break;
    case 12: c = "cat"; break;
    case 13: c = "echo"; break;
    case 14: c = "xxd"; break;
    case 15: c = "ls"; break;
    case 16: c = "help"; break;
    }
    while (pc(10)) b[n++] = ' ';
    if (!c) { if (pc(50)) c = PICK(BC); else if (pc(60)) c = PICK(NAMES); }
    if (PROP == 17 && pc(60)) c = "";
    if (c) n = cat(b, n, c); else { k = gen_word(wo, 0); n = enc(b, n, wo, k, pc(20)); }
    int na = pc(20) ? 0 : pc(60) ? 1 : (int)rnd(5);
    if (PROP == 12 && c) na = 1 + (int)rnd(4);
    size_t md = 0, mf = 0; int many = 0;
    if (PROP == 12 && c && pc(15)) for (int x = 0; x < 12 && !many; x++) { md = rnd(6); if (w->dir[md].n) { mf = rnd((uint32_t)w->dir[md].n); many = w->dir[md].fd[mf].get_data != NULL; } }
    if (many) na = 6 + (int)rnd(8);
    if (PROP == 14 && c) na = pc(90) ? 1 : (int)rnd(3);
    int to = c && !strcmp(c, "echo") && pc(40);
    if (to) na = 3;
    for (int i = 0; i < na && n < 2500; i++) {
        do b[n++] = ' '; while (pc(12));
        if (to && i == 1 && pc(93)) { b[n++] = '>'; continue; }
        /* aim at files that exist */
        if ((PROP == 12 || PROP == 14 || PROP == 16 || PROP == 11 || to) && pc(75)) {
            size_t d = rnd(NP); int same = many && pc(93); if (same) d = md; struct list *l = &w->dir[d]; wo[0] = 0; k = 0;
            if (same) { k = cat(wo, 0, PATHS[d]); if (d) k = cat(wo, k, "/"); k = cat(wo, k, l->fd[mf].name); } else if (l->n) { if (pc(60)) { k = cat(wo, 0, PATHS[d]); if (d) k = cat(wo, k, "/"); } k = cat(wo, k, l->fd[rnd((uint32_t)l->n)].name); }
        } else k = gen_word(wo, 0);
        wo[k] = 0;
        n = enc(b, n, wo, k, raw = pc(15));
    }
    if (pc(8)) b[n++] = ' ';
    if (pc(PROP == 17 ? 85 : 12)) { int x = 1 + (int)rnd(3); if (pc(30) && n) n -= rnd((uint32_t)n); while (x--) b[n++] = '\t'; if (pc(50)) n = cat(b, n, PICK(NAMES)); }
    if (pc(w->d->input_buffer_size > 255 && PROP < 3 ? 40 : 5)) { while (n < w->d->input_buffer_size + 3 && n < 3000) b[n++] = (char)('a' + rnd(4)); }
    /* editing noise */
    int noise = (PROP == 2 || PROP == 1) ? 50 : 12;
    if (pc(noise)) {
        char z[4096]; size_t m = 0;
        for (size_t i = 0; i < n && m < 3900; i++) {
            if (pc(10)) switch (rnd(10)) {
            case 0: z[m++] = (char)('a' + rnd(3)); z[m++] = pc(50) ? 8 : 127; break;
            case 1: z[m++] = 27; z[m++] = pc(50) ? '[' : 'O'; z[m++] = (char)('A' + rnd(5)); break;
            case 2: z[m++] = 27; z[m++] = (char)(32 + rnd(90)); break;
            case 9: z[m++] = 27; z[m++] = '['; z[m++] = pc(50) ? '[' : 'O'; z[m++] = (char)('A' + rnd(26)); break;
            case 3: z[m++] = 27; break;
            case 4: z[m++] = '\t'; break;
            case 5: z[m++] = pc(50) ? 8 : 127; break;
            case 6: if (pc(30)) z[m++] = 3; break;
            case 7: z[m++] = (char)rnd(256); if (!z[m - 1] && !(PROP == 1 && pc(30))) z[m - 1] = 'n'; break;
            case 8: { int x = (int)rnd(12); while (x--) z[m++] = 8; break; }
            }
            z[m++] = b[i];
        }
        memcpy(b, z, m); n = m;
    }
    if (pc(93)) b[n++] = pc(70) ? '\r' : '\n'; else if (pc(30)) b[n++] = 3;
    if (pc(80) && n > w->d->input_buffer_size - 1) { /* mostly lines that fit */ size_t x = n - (w->d->input_buffer_size - 1); memmove(b, b + x, n - x); n -= x; }
    t->b = malloc(n + 1); memcpy(t->b, b, n); t->b[n] = 0; t->n = n;
}
static void gen_op(struct op *p) {
    if (PROP == 21 && pc(40)) { p->k = O_RESET; p->t = 0; p->s = ""; return; }
    static const int mo_[] = { O_MOUNT, O_MOUNT, O_MOUNT, O_UNMOUNT, O_UNMOUNT, O_ADD, O_REMOVE, O_CD, O_MOUNTSPARE, O_RESET, O_REROOT };
    p->k = PICK(mo_); p->s = PICK(PATHS);
    if (PROP == 19 && pc(70)) p->k = pc(60) ? O_ADD : O_REMOVE;
    if ((PROP == 9 || PROP == 21) && pc(70)) p->k = pc(60) ? O_MOUNT : O_UNMOUNT;
    if (PROP == 10 && pc(60)) p->k = pc(50) ? O_UNMOUNT : O_MOUNT;
    p->t = (p->k == O_ADD || p->k == O_REMOVE) ? (int)rnd(3) : 1 + (int)rnd(NP - 1);
    if ((p->k == O_MOUNT || p->k == O_MOUNTSPARE) && pc(3)) p->t = 0;
}
static int fits(struct W *w, int d) { size_t m = strlen(PATHS[d]) + 1; for (size_t j = 0; j < w->dir[d].n; j++) { size_t k = strlen(PATHS[d]) + 1 + strlen(w->dir[d].fd[j].name) + 1; if (k > m) m = k; } return m <= w->d->path_max_length; }
static void gen(struct W *w) {
    static const size_t IB[] = { 2, 3, 5, 8, 16, 32, 64, 200, 256, 300 }, OB[] = { 4, 5, 8, 16, 20, 26, 40, 64, 128 }, PM[] = { 24, 28, 32, 40, 48, 64, 80 };
    static const char *HO[] = { "h", "", "host", "a-long-host-name" };
    memset(w, 0, sizeof(*w));
    w->d = calloc(1, sizeof(*w->d));
    int big = PROP >= 3 && PROP <= 22 && pc(75);
    size_t ni = big ? 40 + rnd(300) : PICK(IB), no = (PROP >= 14 && PROP <= 16 && pc(85)) ? 40 + rnd(60) : PICK(OB);
    if (PROP == 17) ni = 4 + rnd(40);
    w->ib = malloc(ni); w->ob = malloc(no); w->oib = malloc(ni); w->oob = malloc(no); memset(w->ib, 0xC7, ni); memset(w->ob, 0xC7, no);
    strcpy(w->host, PICK(HO));
    *w->d = (struct ush_descriptor){ .io = &io, .input_buffer = w->ib, .input_buffer_size = ni, .output_buffer = w->ob, .output_buffer_size = no, .path_max_length = PICK(PM), .hostname = w->host, .exec = pc(PROP == 4 ? 60 : 30) ? cb_hook : NULL };
    w->dc = *w->d; w->line = calloc(1, ni + 1); w->exp = logb[w - wd][0]; w->act = logb[w - wd][1]; w->spare = calloc(1, sizeof(*w->spare)); 
    w->o = malloc(sizeof(*w->o)); memset(w->o, (int[]){ 0, 0xff, 0xa5, 1 }[rnd(4)], sizeof(*w->o));
    for (size_t i = 0; i < NP; i++) gen_list(w, &w->dir[i], 0);
    for (size_t i = 0; i < NP; i++) while (!fits(w, (int)i) && w->dir[i].n) w->dir[i].n--;
    for (size_t i = 0; i < 3; i++) gen_list(w, &w->grp[i], 1);
    w->gap = pc(30) ? (int)rnd(80) : 0; w->ref = pc(PROP == 5 ? 80 : 30) ? (int)rnd(80) : 0;
    w->exact = 1; w->order[0] = -1; w->ng = 1;
    w->hopon = w->d->exec && pc(40); w->hop = (struct op){ pc(70) ? 2 + (int)rnd(2) : (int)rnd(5), 0, PICK(PATHS) }; w->hop.t = w->hop.k < 2 ? 1 + (int)rnd(NP - 1) : (int)rnd(3);
    /* initial world */
    int opw = PROP == 9 || PROP == 19 || PROP == 10 || PROP == 21 ? 55 : 20;
    int dir = PROP == 7 || PROP == 8 || PROP == 11 ? 60 : PROP == 13 || PROP == 17 || PROP == 18 || PROP == 9 ? 15 : 5;
    int pre = (int)rnd(10), k = 0;
    if (pc(50)) for (int i = 1; i < (int)NP && k < 8; i++) if (pc(60)) { w->it[k].kind = 1; w->it[k].op = (struct op){ O_MOUNT, i, "" }; k++; }
    while (pre-- && k < 14) { w->it[k].kind = 1; gen_op(&w->it[k].op); if (w->it[k].op.k == O_RESET) w->it[k].op.k = O_MOUNT; if (w->it[k].op.k == O_MOUNT && w->it[k].op.t < 3 && w->it[k].op.t) k++; else k++; }
    int n = 1 + (int)rnd(pc(30) ? 14 : 6);
    while (n-- && k < 38) {
        struct item *t = &w->it[k];
        if (pc(opw)) { t->kind = 1; gen_op(&t->op); }
        else if (pc(dir)) {
            char b[1200]; t->kind = 2; t->op.t = (int)rnd(7); t->op.k = (int)rnd(NP);
            if (PROP == 7) t->op.t = pc(50) ? 0 : 2; if (PROP == 8) t->op.t = (int[]){ 0, 0, 1, 2, 5 }[rnd(5)]; if (PROP == 11) t->op.t = 1; if (PROP == 9) t->op.t = 5; if (PROP == 13) t->op.t = 3; if (PROP == 17) t->op.t = 4; if (PROP == 18 || PROP == 14) t->op.t = 6;
            size_t m = t->op.t == 3 || t->op.t == 4 ? gen_word(b, 0) : gen_path(b, 0); b[m] = 0; t->b = malloc(m + 1); memcpy(t->b, b, m + 1); t->n = m;
        } else gen_type(w, t);
        k++;
    }
    for (int i = 0; i < k; i++) if (w->it[i].kind == 1 && (w->it[i].op.k == O_MOUNT || w->it[i].op.k == O_MOUNTSPARE || w->it[i].op.k == O_UNMOUNT) && !fits(w, w->it[i].op.t)) w->it[i].op.t = 1;
    for (size_t i = 0; i < NP + 3; i++) { struct list *l = i < NP ? &w->dir[i] : &w->grp[i - NP]; for (size_t j = 0; j < l->n; j++) if (l->m[j].op.k < 2 && !fits(w, l->m[j].op.t)) l->m[j].op.t = 1; }
    if (w->hop.k < 2 && !fits(w, w->hop.t)) w->hop.t = 1;
    if (!fits(w, 1)) w->dir[1].n = 0;
    w->ni = k;
}
static const char *opn[] = { "mount", "unmount", "add group", "remove group", "set current directory", "mount with a second node", "reset", "unmount the root and mount another one" };
static void print_w(struct W *w, int i) {
    fprintf(stderr, "instance %d: input_buffer_size %zu, output_buffer_size %zu, path_max_length %zu, hostname \"%s\", exec hook %s, read gaps %d%%, refused writes %d%%\n", i, w->d->input_buffer_size, w->d->output_buffer_size, w->d->path_max_length, w->host, w->d->exec ? "yes" : "no", w->gap, w->ref);
    if (w->hopon) fprintf(stderr, "  the exec hook does: %s %s\n", opn[w->hop.k], w->hop.k < 2 ? PATHS[w->hop.t] : w->hop.k == O_CD ? w->hop.s : w->hop.t == 0 ? "0" : w->hop.t == 1 ? "1" : "2");
    static const char *kn[] = { "nothing", "ush_print", "ush_print_no_newline", "ush_print_status", "ush_printf", "ush_flush", "operation", "process", "print twice", "process without callback", "print, then ush_printf" };
    for (size_t a = 0; a < NP + 3; a++) {
        struct list *l = a < NP ? &w->dir[a] : &w->grp[a - NP];
        if (!l->n) continue;
        if (a < NP) fprintf(stderr, "  files of %s:", PATHS[a]); else fprintf(stderr, "  group %zu:", a - NP);
        for (size_t j = 0; j < l->n; j++) {
            struct ush_file_descriptor *f = &l->fd[j]; struct meta *m = &l->m[j];
            fprintf(stderr, " %s(%s%s%s%s%s", f->name, f->description ? "d" : "", f->help ? "h" : "", f->get_data ? "r" : "", f->set_data ? "w" : "", f->exec ? "x:" : "");
            if (f->exec) { fprintf(stderr, "%s", kn[m->kind]); if (m->kind == K_OP) fprintf(stderr, " %s %s", opn[m->op.k], m->op.k < 2 ? PATHS[m->op.t] : m->op.k == O_CD ? m->op.s : ""); if (m->kind == K_PRINTF || m->kind == K_PP) for (int q = 0; q <= m->k % 3; q++) fprintf(stderr, " fmt%d/text%d", m->f[q], m->t[q]); }
            fprintf(stderr, ")");
        }
        fprintf(stderr, "\n");
    }
}
static void print_it(struct W *w, struct item *t) {
    if (!V) return;
    if (nw > 1) fprintf(stderr, "  [%d]", (int)(w - wd));
    if (t->kind == 0) show("  type ", t->b, t->n);
    else if (t->kind == 1) fprintf(stderr, "  %s %s\n", opn[t->op.k], t->op.k == O_ADD || t->op.k == O_REMOVE ? (t->op.t == 0 ? "0" : t->op.t == 1 ? "1" : "2") : t->op.k == O_CD ? t->op.s : t->op.k == O_RESET ? "" : PATHS[t->op.t]);
    else { fprintf(stderr, "  direct call %d (path %s) ", t->op.t, PATHS[t->op.k]); show("with ", t->b, t->n); }
}
static void start(struct W *w) {
    in_lib = 1; ush_init(w->o, w->d); in_lib = 0;
    scan_stack(w);
    if (CK(INIT) && (w->o->commands != &w->o->buildin_commands || w->o->buildin_commands.next || w->o->buildin_commands.file_list != g_ush_buildin_commands || w->o->buildin_commands.file_list_size != g_ush_buildin_commands_num)) die("ush_init does not register exactly the built-in commands");
    if (CK(INIT) && (w->o->root || w->o->current_node)) die("ush_init leaves something mounted");
    if (CK(INIT) && (g_ush_buildin_commands_num != NN(BC))) die("there are %zu built-in commands", g_ush_buildin_commands_num);
    for (size_t i = 0; i < NN(BC); i++) { size_t j = 0; while (j < NN(BC) && strcmp(g_ush_buildin_commands[j].name, BC[i])) j++; if (CK(INIT) && (j == NN(BC))) die("built-in command %s is missing", BC[i]); }
    in_lib = 1; int r = ush_node_mount(w->o, "/", w->dir[0].node, w->dir[0].fd, w->dir[0].n); in_lib = 0;
    if (CK(INIT) && (r)) die("mounting the root returns %d", r);
    w->dir[0].on = 1; w->dir[0].seq = ++w->seq; w->cwd = 0;
    if (CK(INIT) && (w->o->current_node != w->dir[0].node)) die("mounting the root does not make it the current directory");
    ms(w, USH_NAME " " USH_VERSION "\r\n"); m_ready(w, 0);
    if (pc(20)) { in_lib = 1; ush_reset(w->o); in_lib = 0; }
    check_tree(w);
}
static int step(struct W *w) {
    if (w->dead) return 0;
    if (w->idle || (w->cur == 0 && w->ni && w->it[0].kind && w->it[0].op.k != O_RESET)) {
        if (w->cur >= w->ni) return 0;
        struct item *t = &w->it[w->cur++];
        print_it(w, t);
        if (t->kind == 0) { w->q = t->b; w->qn = t->n; w->idle = 0; for (size_t i = 0; i < t->n && w->exact; i++) m_byte(w, t->b[i]); if (!t->n) return 1; }
        else if (t->kind == 1) run_op(w, &t->op);
        else direct(w, t);
        return 1;
    }
    service(w);
    return 1;
}
static void finish(struct W *w) {
    check_const(w);
    if (w->exact && !w->dead) check_tree(w);
    for (size_t i = 0; i < NP; i++) w->dir[i].keep = *w->dir[i].node;
    for (size_t i = 0; i < 3; i++) w->grp[i].keep = *w->grp[i].node;
    if (w->exact && !w->dead && pc(50)) {
        struct W *x = &wd[0] == w ? &wd[1] : &wd[0];
        if (nw > 1) snap(x);
        snap(w);
        in_lib = 1; ush_deinit(w->o); in_lib = 0;
        struct ush_object z; memset(&z, 0, sizeof(z)); struct ush_node_object zn; memset(&zn, 0, sizeof(zn));
        if (CK(INIT) && (memcmp(&z, w->o, sizeof(z)))) die("ush_deinit does not clear the instance");
        for (size_t i = 0; i < NP; i++) {
            if (CK(INIT) && (w->dir[i].on && memcmp(w->dir[i].node, &zn, sizeof(zn)))) die("ush_deinit does not clear the node mounted at %s", PATHS[i]);
            if (CK(INIT) && (!w->dir[i].on && memcmp(w->dir[i].node, &w->dir[i].keep, sizeof(zn)))) die("ush_deinit changed a node that is not mounted");
        }
        for (size_t i = 0; i < 3; i++) if (CK(INIT) && (memcmp(w->grp[i].node, &w->grp[i].keep, sizeof(zn)))) die("ush_deinit changed a command group");
        if (CK(INIT) && (memcmp(w->oib, w->ib, w->d->input_buffer_size) || memcmp(w->oob, w->ob, w->d->output_buffer_size))) die("ush_deinit changed the buffers");
        if (CK(ISO) && nw > 1 && x->o && !same(x)) die("deinitialising one instance changed another");
        check_const(w);
    }
}
static void drop(struct W *w) {
    for (size_t i = 0; i < NP + 3; i++) { struct list *l = i < NP ? &w->dir[i] : &w->grp[i - NP]; free(l->fd); free(l->copy); free(l->node); for (size_t j = 0; j < NF; j++) free(l->m[j].data); }
    for (int i = 0; i < 40; i++) free(w->it[i].b);
    free(w->ib); free(w->ob); free(w->oib); free(w->oob); free(w->d); free(w->line);  free(w->spare); free(w->o);
}
const char *__asan_default_options(void) { return "detect_stack_use_after_return=0:detect_leaks=0:handle_abort=1"; }
int LLVMFuzzerInitialize(int *c, char ***v) { (void)c; (void)v; const char *p = getenv("FZ_PROP"); PROP = p ? atoi(p) : 0; F = MODE[PROP]; V = getenv("FZ_V") != NULL; return 0; }
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    char base; lo_stack = &base;
    D = d; DN = n; S = 0x9E3779B97F4A7C15ull; in_lib = 0;
    for (size_t i = 0; i < n; i++) S = (S ^ d[i]) * 0x100000001B3ull; if (!S) S = 1;
    for (int i = 0; i < 4; i++) xs();
    nw = (PROP == 20 ? pc(80) : pc(8)) ? 2 : 1;
    for (int i = 0; i < nw; i++) gen(&wd[i]);
    if (V) for (int i = 0; i < nw; i++) print_w(&wd[i], i);
    for (int i = 0; i < nw; i++) start(&wd[i]);
    if (nw == 1) while (step(&wd[0]));
    else { int a = 1, b = 1; while (a || b) { if (!b || (a && xs() % 2)) a = step(&wd[0]); else b = step(&wd[1]); } }
    for (int i = 0; i < nw; i++) finish(&wd[i]);
    for (int i = 0; i < nw; i++) drop(&wd[i]);
    return 0;
}
