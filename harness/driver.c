// Replays behaviours generated from the TLA+ specification (CellGen, FetchUpdate) into the
// compiled code.  Input: a vectors file (see vectors.py); output: one "FAIL ..." line per
// disagreement (bounded) and "STAT ..." lines with measured counts.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t up;
typedef u32 (*fn4)(u8 *, u8 *, u8 *, u8 *);
typedef u32 (*fn6)(u8 *, u8 *, u8 *, u8 *, u32, u32);
struct type {
    const char *name; int size;
    fn4 ld[5], st[5], sw[5], ce[25], cw[25]; fn4 fu[25];
    fn6 rld, rst, rsw, rce, rcw, rfu, uld, ust, usw, uce, ucw;
    fn4 v[11]; // new cnew from fromv gmr gmw apr apw into fpld fpst
    void (*info)(u32 *); u8 *(*stat)(u32);
};
#include "table.h"
enum { LD, ST, SW, CE, CW, FU, VNEW, VCNEW, VFROM, VFROMV, VGMR, VGMW, VAPR, VAPW, VINTO, VFPLD, VFPST, NOPS };
static const char *opname[] = { "ld", "st", "sw", "ce", "cw", "fu", "new", "cnew", "from", "fromv", "gmr", "gmw", "apr", "apw", "into", "fpld", "fpst" };

extern u32 vp_call(void *fn, up *args);
extern u32 vp_regs_bad[1];
void rust_eh_personality(void) { abort(); }
static sigjmp_buf jb; static volatile int in_call; static char panic_msg[256]; static volatile u64 ncalls;
static volatile u64 watch; static volatile int watch_same;
void vp_panic(const u8 *p, size_t n) {
    if (n > 255) n = 255; memcpy(panic_msg, p, n); panic_msg[n] = 0;
    if (!in_call) abort();
    siglongjmp(jb, 1);
}
static int crash_sig; static up crash_addr;
static void on_crash(int s, siginfo_t *si, void *c) {
    (void)c; crash_sig = s; crash_addr = (up)si->si_addr;
    if (!in_call) { _exit(3); }
    siglongjmp(jb, 2);
}
static void on_tick(int s) {
    (void)s;
    if (!in_call) { watch_same = 0; return; }
    if (watch == ncalls) { if (++watch_same >= 3) { watch_same = 0; crash_sig = SIGALRM; siglongjmp(jb, 2); } }
    else { watch = ncalls; watch_same = 0; }
}
// 0 ok, 1 panic, 2 crash/hang
static int guarded(void *fn, up *args, u32 *ret) {
    volatile int r;
    ncalls++;
    in_call = 1;
    r = sigsetjmp(jb, 1);
    if (r == 0) { vp_regs_bad[0] = 0; *ret = vp_call(fn, args); }
    in_call = 0;
    return r;
}
static u64 nfail; static int maxfail = 40; static u64 stat[NOPS + 8];
static char hexb[4][64];
static const char *hx(int k, const u8 *p, int n) { for (int i = 0; i < n; i++) sprintf(hexb[k] + 2 * i, "%02x", p[i]); hexb[k][2 * n] = 0; return hexb[k]; }

static u8 *win;                       // 4 KiB page between two inaccessible pages
static u8 A[32] __attribute__((aligned(16))), B[32] __attribute__((aligned(16))), R[64] __attribute__((aligned(16)));
static u8 canary[4096];
static u8 *ro;                        // read-only page

struct ctxinfo { const char *what, *ty; int op, o, f; const u8 *pre, *a, *b; int n; const char *flavour; up off; };
static void fail(const struct ctxinfo *c, const char *kind, const char *detail) {
    nfail++;
    if (nfail > (u64)maxfail) return;
    printf("FAIL {\"cfg\":\"%s\",\"kind\":\"%s\",\"op\":\"%s\",\"type\":\"%s\",\"o\":%d,\"f\":%d,\"flavour\":\"%s\",\"off\":%lu,\"pre\":\"%s\",\"a\":\"%s\",\"b\":\"%s\",\"what\":\"%s\",\"detail\":\"%s\"}\n",
        CFGNAME, kind, opname[c->op], c->ty, c->o, c->f, c->flavour, (unsigned long)c->off, hx(0, c->pre, c->n), hx(1, c->a, c->n), hx(2, c->b, c->n), c->what, detail);
    fflush(stdout);
}
static char det[512];
struct env { unsigned short cw, sw, tag; };
static void fpstate(unsigned short *cw, unsigned short *tag, u32 *mx) {
    struct { unsigned short cw, r0, sw, r1, tag, r2; u32 x[4]; } e;
    __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); *cw = e.cw; *tag = e.tag;
    u32 m = 0; __asm__ volatile("stmxcsr %0" : "=m"(m)); *mx = m & ~0x3fu;
}
static unsigned short base_cw, base_tag; static u32 base_mx;

// Execute one operation on the cell at `cell`; compare with the specified outcome.
static int step(struct ctxinfo *c, void *fn, int extra, u8 *cell, u8 *zone, int zlen, int ok, const u8 *res, int has_res, const u8 *post) {
    int n = c->n; u32 ret = 0; int bad = 0;
    memset(R, 0xc3, sizeof R);
    up args[6] = { (up)cell, (up)A, (up)B, (up)(R + 16), (up)c->o, (up)c->f };
    (void)extra;
    int g = guarded(fn, args, &ret);
    if (g == 1) { snprintf(det, sizeof det, "panicked: %s", panic_msg); fail(c, "panic", det); return 1; }
    if (g == 2) { snprintf(det, sizeof det, crash_sig == SIGALRM ? "did not finish" : "signal %d at %p", crash_sig, (void *)crash_addr); fail(c, crash_sig == SIGALRM ? "hang" : "crash", det); return 1; }
    if (c->op == CW && ok && ret == 0) { // a spurious failure: allowed, but it must change nothing and must not last
        u32 tries = 0;
        while (ret == 0 && tries++ < 64 && !memcmp(R + 16, c->pre, n) && !memcmp(cell, c->pre, n)) {
            g = guarded(fn, args, &ret); if (g) { fail(c, "crash", "while repeating a weak compare-exchange"); return 1; } }
        if (ret == 0 && tries > 64) { fail(c, "spurious", "the weak form failed 64 times in a row although the bytes match"); return 1; }
    }
    if (vp_regs_bad[0]) { snprintf(det, sizeof det, "callee-saved registers/flags changed: mask %u", vp_regs_bad[0]); fail(c, "regs", det); bad = 1; }
    if (ret != (u32)ok) { snprintf(det, sizeof det, "reported %u, specified %d", ret, ok); fail(c, "ok", det); bad = 1; }
    if (has_res && memcmp(R + 16, res, n)) { snprintf(det, sizeof det, "returned %s, specified %s", hx(0, R + 16, n), hx(3, res, n)); char t[512]; strcpy(t, det); fail(c, "res", t); bad = 1; }
    if (memcmp(cell, post, n)) { snprintf(det, sizeof det, "cell is %s, specified %s", hx(0, cell, n), hx(3, post, n)); char t[512]; strcpy(t, det); fail(c, "post", t); bad = 1; }
    for (int i = 0; i < 16; i++) if (R[i] != 0xc3 || R[16 + 16 + i] != 0xc3) { fail(c, "outbuf", "wrote beyond the returned value"); bad = 1; break; }
    for (int i = n; i < 16; i++) if (R[16 + i] != 0xc3) { fail(c, "outbuf", "wrote beyond the returned value"); bad = 1; break; }
    for (int i = 0; i < zlen; i++) { u8 *p = zone + i; if (p >= cell && p < cell + n) continue;
        if (*p != canary[p - win]) { snprintf(det, sizeof det, "byte at offset %ld from the cell changed %02x -> %02x", (long)(p - cell), canary[p - win], *p); fail(c, "neighbour", det); bad = 1; *p = canary[p - win]; break; } }
    return bad;
}
static int rdhex(const char *s, u8 *o) { int n = 0; if (*s == '-') return 0; while (s[0] && s[1] && s[0] != ' ' && s[0] != '\n') { char t[3] = { s[0], s[1], 0 }; o[n++] = strtoul(t, 0, 16); s += 2; } return n; }
static int opcode(const char *s) { for (int i = 0; i < NOPS; i++) if (!strcmp(s, opname[i])) return i; fprintf(stderr, "bad op %s\n", s); exit(2); }

struct ord { int op, o, f, ok; char msg[96]; } ords[400]; static int nords;
static int only; // bit mask of op classes to run; 0 = all
static int is_valid(int op, int o, int f) { for (int i = 0; i < nords; i++) if (ords[i].op == op && ords[i].o == o && ords[i].f == f) return ords[i].ok; return 0; }

// ------------------------------------------------ fetch_update callback
struct fstep { u8 arg[16], next[16], w[2][16]; int some, nw; };
struct fctx { int n, calls, nsteps, bad; u8 *cell; struct fstep *s; u8 got[16]; u32 idx; };
static struct fctx *cur_f;
static u32 fu_cb(u8 *ctx, u8 *prev, u8 *next) {
    struct fctx *f = cur_f; (void)ctx;
    int i = f->calls++;
    if (i >= f->nsteps) { f->bad = f->bad ? f->bad : 1; return 0; }
    struct fstep *s = &f->s[i];
    if (memcmp(prev, s->arg, f->n)) { if (!f->bad) { f->bad = 2; f->idx = i; memcpy(f->got, prev, f->n); } }
    for (int k = 0; k < s->nw; k++) { for (int j = 0; j < f->n; j++) ((volatile u8 *)f->cell)[j] = s->w[k][j]; __sync_synchronize(); }
    if (!s->some) return 0;
    memcpy(next, s->next, f->n);
    return 1;
}
static void place(u8 *cell, const u8 *pre, int n, u8 *zone, int zlen) {
    for (int i = 0; i < zlen; i++) zone[i] = canary[zone - win + i];
    memcpy(cell, pre, n);
}
static void *cfn(struct type *t, int op, int o, int f) {
    switch (op) { case LD: return t->ld[o]; case ST: return t->st[o]; case SW: return t->sw[o]; case CE: return t->ce[o * 5 + f]; case CW: return t->cw[o * 5 + f]; case FU: return t->fu[o * 5 + f]; default: return t->v[op - VNEW]; }
}
static void *rfn(struct type *t, int op) { switch (op) { case LD: return t->rld; case ST: return t->rst; case SW: return t->rsw; case CE: return t->rce; case CW: return t->rcw; case FU: return t->rfu; default: return 0; } }
static void *ufn(struct type *t, int op) { switch (op) { case LD: return t->uld; case ST: return t->ust; case SW: return t->usw; case CE: return t->uce; case CW: return t->ucw; default: return 0; } }

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    if (argc > 2) maxfail = atoi(argv[2]);
    int full = argc > 3 ? atoi(argv[3]) : 0; // 1: every vector with every ordering pair
    u8 *m = mmap(0, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 2;
    win = m + 4096; mprotect(win, 4096, PROT_READ | PROT_WRITE);
    ro = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (ro == MAP_FAILED) return 2;
    srand(12345); for (int i = 0; i < 4096; i++) { canary[i] = rand() >> 7; win[i] = canary[i]; }
    stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 }; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGTRAP, &sa, 0);
    struct sigaction st; memset(&st, 0, sizeof st); st.sa_handler = on_tick; st.sa_flags = SA_ONSTACK | SA_RESTART | SA_NODEFER; sigaction(SIGVTALRM, &st, 0);
    struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    fpstate(&base_cw, &base_tag, &base_mx);
    FILE *fp = fopen(argv[1], "r"); if (!fp) return 2;
    static char line[1 << 16]; u64 vec = 0; char w[8][128]; u64 rot = 0;
    while (fgets(line, sizeof line, fp)) {
        if (line[0] == 'O') {
            struct ord *r = &ords[nords++]; char op[16]; int k = 0;
            if (sscanf(line, "O %15s %d %d %d %n", op, &r->o, &r->f, &r->ok, &k) < 4) return 2;
            r->op = opcode(op); strncpy(r->msg, line + k, 95); r->msg[strcspn(r->msg, "\n")] = 0; if (!strcmp(r->msg, "-")) r->msg[0] = 0;
        } else if (line[0] == 'E') { // one transition: E n op pre a b ok res post
            int n, ok; u8 pre[16] = {0}, a[16] = {0}, b[16] = {0}, res[16] = {0}, post[16] = {0};
            if (sscanf(line, "E %d %15s %40s %40s %40s %d %40s %40s", &n, w[0], w[1], w[2], w[3], &ok, w[4], w[5]) != 8) return 2;
            int op = opcode(w[0]); rdhex(w[1], pre); rdhex(w[2], a); rdhex(w[3], b); int hr = rdhex(w[4], res) > 0; rdhex(w[5], post); vec++;
            for (int t = 0; t < NTYPES; t++) { struct type *ty = &types[t]; if (ty->size != n) continue;
                for (int o = 0; o < 5; o++) for (int f = 0; f < 5; f++) {
                    if (op > FU && (o || f)) continue;
                    if (op < CE && f) continue;
                    if (op <= FU && !is_valid(op, o, f)) continue;
                    // the specified outcome does not depend on the ordering: cross all orderings on a
                    // rotating schedule (quick) or all of them for every vector (full)
                    if (!full && (op == CE || op == CW) && ((rot++) % 7)) continue;
                    for (int fl = 0; fl < 3; fl++) {
                        void *fn = fl == 0 ? cfn(ty, op, o, f) : fl == 1 ? rfn(ty, op) : ufn(ty, op);
                        if (!fn) continue;
                        // positions: inside the page at every residue, at both page ends
                        int slot = (int)((rot * 7 + vec + fl) % 19); u8 *cell; u8 *zone; int zl = 64;
                        if (slot == 17) { cell = win; zone = win; } else if (slot == 18) { cell = win + 4096 - n; zone = win + 4096 - 64; }
                        else { zone = win + 1024; cell = zone + 16 + (slot * n) % 32; }
                        struct ctxinfo c = { "transition", ty->name, op, o, f, pre, a, b, n, fl == 0 ? "const" : fl == 1 ? "runtime" : "raw", (up)cell & 63 };
                        place(cell, pre, n, zone, zl); memset(A, 0x99, 32); memset(B, 0x66, 32); memcpy(A, a, n); memcpy(B, b, n);
                        step(&c, fn, fl, cell, zone, zl, ok, res, hr, post); stat[op]++;
                        if (memcmp(A, a, n) || memcmp(B, b, n)) fail(&c, "args", "an argument was modified");
                        if (fl == 0 && (stat[op] & 1023) == 0) { unsigned short cw, tag; u32 mx; fpstate(&cw, &tag, &mx); if (cw != base_cw || tag != base_tag || mx != base_mx) { fail(&c, "fpu", "x87/SSE control or tag state changed"); __asm__ volatile("fninit"); fpstate(&base_cw, &base_tag, &base_mx); } }
                    }
                    if (op == LD && n <= (int)sizeof(void *)) { // memory that is only readable
                        u8 *cell = ro + 64; mprotect(ro, 4096, PROT_READ | PROT_WRITE); memcpy(cell, pre, n); mprotect(ro, 4096, PROT_READ);
                        struct ctxinfo c = { "read-only", ty->name, op, o, f, pre, a, b, n, "const", 0 };
                        step(&c, cfn(ty, op, o, f), 0, cell, cell, 0, ok, res, hr, post); stat[NOPS]++;
                    }
                }
            }
        } else if (line[0] == 'W') { // a history: W n pre k  (then k lines: op o f a b ok res post)
            int n, k; u8 pre[16]; if (sscanf(line, "W %d %40s %d", &n, w[0], &k) != 3) return 2; rdhex(w[0], pre);
            static struct { int op, o, f, ok, hr; u8 a[16], b[16], res[16], post[16]; } S[64];
            for (int i = 0; i < k; i++) { if (!fgets(line, sizeof line, fp)) return 2;
                if (sscanf(line, "%15s %d %d %40s %40s %d %40s %40s", w[0], &S[i].o, &S[i].f, w[1], w[2], &S[i].ok, w[3], w[4]) != 8) return 2;
                S[i].op = opcode(w[0]); rdhex(w[1], S[i].a); rdhex(w[2], S[i].b); S[i].hr = rdhex(w[3], S[i].res) > 0; rdhex(w[4], S[i].post); }
            vec++;
            for (int t = 0; t < NTYPES; t++) { struct type *ty = &types[t]; if (ty->size != n) continue;
                for (int fl = 0; fl < 3; fl++) {
                    u8 *zone = win + 2048, *cell = zone + 16 + ((vec + fl) * n) % 32; place(cell, pre, n, zone, 64);
                    int bad = 0;
                    for (int i = 0; i < k && !bad; i++) { int op = S[i].op; void *fn = op > FU ? cfn(ty, op, 0, 0) : fl == 0 ? cfn(ty, op, S[i].o, S[i].f) : fl == 1 ? rfn(ty, op) : ufn(ty, op);
                        if (!fn) { memcpy(cell, S[i].post, n); continue; }
                        struct ctxinfo c = { "history", ty->name, op, op > FU ? 0 : S[i].o, op > FU ? 0 : S[i].f, i ? S[i - 1].post : pre, S[i].a, S[i].b, n, fl == 0 ? "const" : fl == 1 ? "runtime" : "raw", (up)cell & 63 };
                        memset(A, 0x99, 32); memset(B, 0x66, 32); memcpy(A, S[i].a, n); memcpy(B, S[i].b, n);
                        bad = step(&c, fn, fl, cell, zone, 64, S[i].ok, S[i].res, S[i].hr, S[i].post); stat[op]++; }
                    stat[NOPS + 1]++;
                } }
        } else if (line[0] == 'F') { // F n pre k ok res post  (then k lines: arg some next w0 w1)
            int n, k, ok; u8 pre[16], res[16], post[16]; if (sscanf(line, "F %d %40s %d %d %40s %40s", &n, w[0], &k, &ok, w[1], w[2]) != 6) return 2;
            rdhex(w[0], pre); rdhex(w[1], res); rdhex(w[2], post); static struct fstep fs[32]; memset(fs, 0, sizeof fs);
            for (int i = 0; i < k; i++) { if (!fgets(line, sizeof line, fp)) return 2;
                if (sscanf(line, "%40s %d %40s %40s %40s", w[0], &fs[i].some, w[1], w[2], w[3]) != 5) return 2;
                rdhex(w[0], fs[i].arg); rdhex(w[1], fs[i].next); fs[i].nw = (rdhex(w[2], fs[i].w[0]) > 0) + (rdhex(w[3], fs[i].w[1]) > 0); }
            vec++;
            for (int t = 0; t < NTYPES; t++) { struct type *ty = &types[t]; if (ty->size != n || !ty->rfu) continue;
                for (int o = 0; o < 5; o++) for (int f = 0; f < 5; f++) for (int fl = 0; fl < 2; fl++) {
                    if (!is_valid(FU, o, f)) continue;
                    if (!full && ((rot++) % 5)) continue;
                    u8 *zone = win + 3072, *cell = zone + 16 + ((vec + o) * n) % 32; place(cell, pre, n, zone, 64);
                    struct ctxinfo c = { "fetch_update", ty->name, FU, o, f, pre, pre, pre, n, fl ? "runtime" : "const", (up)cell & 63 };
                    struct fctx fc; memset(&fc, 0, sizeof fc); fc.n = n; fc.nsteps = k; fc.cell = cell; fc.s = fs; cur_f = &fc;
                    memset(R, 0xc3, sizeof R); u32 ret = 0; up args[6] = { (up)cell, (up)fu_cb, (up)&fc, (up)(R + 16), (up)o, (up)f };
                    int g = guarded(fl ? (void *)ty->rfu : (void *)ty->fu[o * 5 + f], args, &ret); stat[FU]++;
                    if (g == 1) { snprintf(det, sizeof det, "panicked: %s", panic_msg); fail(&c, "panic", det); continue; }
                    if (g == 2) { snprintf(det, sizeof det, crash_sig == SIGALRM ? "did not finish" : "signal %d", crash_sig); fail(&c, crash_sig == SIGALRM ? "hang" : "crash", det); continue; }
                    char scr[256] = ""; for (int i = 0; i < k && i < 4; i++) { char q[64]; snprintf(q, sizeof q, "[%s;%s;w%d]", fs[i].some ? "some" : "none", hx(3, fs[i].next, n > 4 ? 4 : n), fs[i].nw); strcat(scr, q); }
                    if (fc.bad == 1) { snprintf(det, sizeof det, "function applied more often than specified; script %s", scr); fail(&c, "fu-calls", det); }
                    else if (fc.bad == 2) { char g1[64]; strcpy(g1, hx(3, fc.got, n)); snprintf(det, sizeof det, "call %u of the function got %s, specified %s; script %s", fc.idx, g1, hx(3, fs[fc.idx].arg, n), scr); fail(&c, "fu-arg", det); }
                    else if (fc.calls != k) { snprintf(det, sizeof det, "function applied %d times, specified %d; script %s", fc.calls, k, scr); fail(&c, "fu-calls", det); }
                    else {
                        if (ret != (u32)ok) { snprintf(det, sizeof det, "reported %u, specified %d; script %s", ret, ok, scr); fail(&c, "fu-ok", det); }
                        if (memcmp(R + 16, res, n)) { char g1[64]; strcpy(g1, hx(3, R + 16, n)); snprintf(det, sizeof det, "returned %s, specified %s; script %s", g1, hx(3, res, n), scr); fail(&c, "fu-res", det); }
                        if (memcmp(cell, post, n)) { char g1[64]; strcpy(g1, hx(3, cell, n)); snprintf(det, sizeof det, "cell is %s, specified %s; script %s", g1, hx(3, post, n), scr); fail(&c, "fu-post", det); }
                    }
                    if (vp_regs_bad[0]) fail(&c, "regs", "callee-saved registers changed");
                    for (int i = 0; i < 64; i++) { u8 *p = zone + i; if (p >= cell && p < cell + n) continue; if (*p != canary[p - win]) { fail(&c, "neighbour", "byte outside the cell changed"); break; } }
                } }
        } else if (line[0] == 'P') { // ordering validity: every (op, o, f) on every type, const and run-time
            for (int t = 0; t < NTYPES; t++) { struct type *ty = &types[t]; int n = ty->size;
                for (int q = 0; q < nords; q++) { struct ord *r = &ords[q];
                    for (int fl = 0; fl < 2; fl++) for (int eq = 0; eq < 2; eq++) {
                        void *fn = fl ? rfn(ty, r->op) : cfn(ty, r->op, r->o, r->f); if (!fn) continue;
                        u8 pre[16], a[16], b[16]; for (int i = 0; i < 16; i++) { pre[i] = 17 * i + 3; a[i] = eq ? pre[i] : 91 - i; b[i] = i * 29 + 1; }
                        u8 *zone = win + 512, *cell = zone + 16; place(cell, pre, n, zone, 64); memcpy(A, a, 16); memcpy(B, b, 16); memset(R, 0xc3, sizeof R);
                        struct ctxinfo c = { "ordering", ty->name, r->op, r->o, r->f, pre, a, b, n, fl ? "runtime" : "const", 0 };
                        struct fstep s1; memset(&s1, 0, sizeof s1); memcpy(s1.arg, pre, n); memcpy(s1.next, b, n); s1.some = 1;
                        struct fctx fc; memset(&fc, 0, sizeof fc); fc.n = n; fc.nsteps = 1; fc.cell = cell; fc.s = &s1; cur_f = &fc;
                        up args[6] = { (up)cell, r->op == FU ? (up)fu_cb : (up)A, r->op == FU ? (up)&fc : (up)B, (up)(R + 16), (up)r->o, (up)r->f };
                        u32 ret = 0; int g = guarded(fn, args, &ret); stat[NOPS + 2]++;
                        if (g == 2) { fail(&c, crash_sig == SIGALRM ? "hang" : "crash", "crashed or did not finish"); continue; }
                        if (r->ok && g == 1) { snprintf(det, sizeof det, "permitted ordering panicked: %s", panic_msg); fail(&c, "ord-panic", det); }
                        if (!r->ok && g == 0) fail(&c, "ord-nopanic", "forbidden ordering did not panic");
                        if (!r->ok && g == 1) {
                            if (strcmp(panic_msg, r->msg)) { snprintf(det, sizeof det, "panic message '%s', documented '%s'", panic_msg, r->msg); fail(&c, "ord-msg", det); }
                            if (memcmp(cell, pre, n)) fail(&c, "ord-touched", "the cell was modified before the panic");
                            if (r->op == FU && fc.calls) fail(&c, "ord-touched", "the function was applied before the panic");
                        }
                    } } }
        } else if (line[0] == 'L') { // layout and statics
            for (int t = 0; t < NTYPES; t++) { struct type *ty = &types[t]; u32 i5[5] = {0}; ty->info(i5); u8 z[16] = {0};
                struct ctxinfo c = { "layout", ty->name, VNEW, 0, 0, z, z, z, ty->size, "const", 0 }; stat[NOPS + 3]++;
                if (i5[0] != (u32)ty->size || i5[1] != (u32)ty->size || i5[2] != 5u * ty->size || i5[3] != (u32)ty->size || i5[4] != (u32)ty->size) {
                    snprintf(det, sizeof det, "size %u align %u array %u offset %u of %u", i5[0], i5[1], i5[2], i5[3], i5[4]); fail(&c, "layout", det); }
                static const u8 e[3][1] = { { 0x5a }, { 0xff }, { 0x33 } };
                for (int k = 0; k < 4; k++) { u8 *p = ty->stat(k); stat[NOPS + 3]++;
                    if ((up)p % ty->size) fail(&c, "layout", "static array element is misaligned");
                    if (k && p != ty->stat(k - 1) + ty->size) fail(&c, "layout", "static array stride");
                    if (k < 3) for (int i = 0; i < ty->size; i++) { u8 want = k == 1 ? 0xff : i == 0 ? e[k][0] : 0; if (p[i] != want) { snprintf(det, sizeof det, "static %d byte %d is %02x, specified %02x", k, i, p[i], want); fail(&c, "static", det); break; } } }
            }
        }
    }
    for (int i = 0; i < NOPS; i++) printf("STAT %s %llu\n", opname[i], (unsigned long long)stat[i]);
    printf("STAT readonly %llu\nSTAT histories %llu\nSTAT orderings %llu\nSTAT layout %llu\nSTAT vectors %llu\nSTAT failures %llu\n",
        (unsigned long long)stat[NOPS], (unsigned long long)stat[NOPS + 1], (unsigned long long)stat[NOPS + 2], (unsigned long long)stat[NOPS + 3], (unsigned long long)vec, (unsigned long long)nfail);
    return 0;
}
