// Native implementation of the intrinsics: replays a tape of concrete values.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/resource.h>
typedef uint64_t u64;
#define NEVER ((u64)-1)
static u64 *tape; static size_t tn, tp; static u64 *params; static size_t pn;
static u64 tracev[1 << 20]; static size_t trn;
static void fin(const char *o, const char *m, u64 n) {
    fflush(stdout);
    printf("\nOUTCOME %s\nMSG %.*s\nTAPE %zu/%zu\nTRACE", o, (int)n, m, tp, tn);
    for (size_t i = 0; i < trn; i++) printf(" %llu", (unsigned long long)tracev[i]);
    printf("\n"); fflush(stdout); _exit(0);
}
static void on_sig(int s) { fin(s == SIGALRM ? "hang" : s == SIGABRT ? "panic" : "memory", "", 0); }
static size_t rd(const char *f, u64 **out) {
    FILE *h = fopen(f, "r"); size_t n = 0, c = 0; unsigned long long v; *out = 0;
    if (!h) return 0;
    while (fscanf(h, "%llu", &v) == 1) { if (n == c) { c = c ? 2 * c : 64; *out = realloc(*out, c * 8); } (*out)[n++] = v; }
    fclose(h); return n;
}
void rt_init(void) {
    const char *t = getenv("RSYM_TAPE"), *p = getenv("RSYM_PARAMS");
    if (t) tn = rd(t, &tape);
    if (p) pn = rd(p, &params);
    static char alt[1 << 16]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, 0);
    struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK }; int sg[] = { SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM };
    for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
    struct rlimit rl = { (rlim_t)4 << 30, (rlim_t)4 << 30 }; setrlimit(RLIMIT_AS, &rl);
    const char *tl = getenv("RSYM_ALARM"); alarm(tl ? atoi(tl) : 20);
}
void rt_finish(void) { fin("ok", "", 0); }
static u64 next(void) { return tp < tn ? tape[tp++] : (tp++, 0); }
u64 sym_bits(uint32_t w) { u64 v = next(); return w >= 64 ? v : v & (((u64)1 << w) - 1); }
void sym_bytes(uint8_t *p, u64 n) { for (u64 i = 0; i < n; i++) p[i] = (uint8_t)next(); }
u64 sym_choice(u64 n) { if (n <= 1) return 0; u64 v = next(); return v < n ? v : 0; }
void sym_assume(uint32_t c) { if (!c) fin("assume", "", 0); }
void sym_assert(uint32_t c, const char *m, u64 n) { if (!c) fin("assert", m, n); }
void sym_fail(const char *m, u64 n) { fin("assert", m, n); }
void sym_reach(u64 id) { (void)id; }
void sym_trace(u64 v) { if (trn < 1 << 20) tracev[trn++] = v; }
u64 sym_concretize(u64 v) { return v; }
u64 sym_param(u64 i) { return i < pn ? params[i] : 0; }
void sym_end(void) { fin("ok", "", 0); }
u64 sym_steps(void) { return 0; }
void sym_debug(const char *m, u64 n) { if (getenv("RSYM_TRACE")) fprintf(stderr, "[dbg] %.*s\n", (int)n, m); }
// ---- cooperative threads, scheduled exactly as the engine schedules them ----
enum { RUN, WAIT, DONE };
struct th { ucontext_t c; int st, timed_out; u64 ch, until; void (*f)(void *); void *a; };
#define MAXT 65536
static struct th T[MAXT]; static void *spare[MAXT]; static int nspare; static int nth = 1, cur; static u64 vnow, budget, flags;
u64 sym_now(void) { return vnow; }
void sym_advance(u64 n) { vnow = vnow + n < vnow ? NEVER : vnow + n; }
u64 sym_tid(void) { return cur; }
u64 sym_done(u64 t) { return T[t].st == DONE; }
u64 sym_timed_out(void) { return T[cur].timed_out; }
void sym_sched(u64 b, u64 f) { if (b != NEVER) budget = b; flags = f; }
void sym_wake(u64 ch) { for (int i = 0; i < nth; i++) if (T[i].st == WAIT && T[i].ch == ch) { T[i].st = RUN; T[i].timed_out = 0; } }
/* the k-th distinct deadline of a waiting thread */
static u64 deadline(int k) {
    u64 t = NEVER, lo = 0; int any = 0;
    for (;; k--) {
        t = NEVER;
        for (int i = 0; i < nth; i++) if (T[i].st == WAIT && T[i].until != NEVER) { u64 u = T[i].until > vnow ? T[i].until : vnow; if ((!any || u > lo) && u < t) t = u; }
        if (t == NEVER || k == 0) return t;
        lo = t; any = 1;
    }
}
static int fire(int k) {
    u64 t = deadline(k); int first = -1;
    if (t == NEVER) return -1;
    if (t > vnow) vnow = t;
    for (int i = 0; i < nth; i++) if (T[i].st == WAIT && T[i].until != NEVER && T[i].until <= vnow) { T[i].st = RUN; T[i].timed_out = 1; if (first < 0) first = i; }
    return first;
}
static void go(int n) { if (n == cur) return; int o = cur; cur = n; swapcontext(&T[o].c, &T[n].c); }
static void schedule(void) {
    static int order[MAXT]; int k;
    for (;;) { k = 0; for (int i = 0; i < nth; i++) { int j = (cur + i) % nth; if (T[j].st == RUN) order[k++] = j; } if (k) break; if (fire(0) < 0) fin("deadlock", "", 0); }
    u64 left = flags & 2 ? 0 : budget, opts = flags & 16 ? 1 : (u64)k < left + 1 ? (u64)k : left + 1, delays = opts; int n = 0;
    u64 nap[2]; int m = 0; if (left >= 1 && nth > 1 && order[0] == cur) { if (flags & 8) nap[m++] = 20000000; if (flags & 32) nap[m++] = 2000000000; } opts += m; u64 base = opts;
    if ((flags & 1) && left >= 1) { int m = flags & 4 ? 4 : 1; while (n < m && deadline(n) != NEVER) n++; }
    opts += n;
    u64 p = 0; if (opts > 1) { p = next(); if (p >= opts) p = 0; }
    if (p >= delays && p < base) { budget -= 1; T[cur].st = WAIT; T[cur].ch = ((u64)1 << 62) | 3; T[cur].until = vnow + nap[p - delays]; go(k > 1 ? order[1] : fire(0)); }
    else if (p < base) { budget -= p; go(order[p]); } else { budget -= 1; go(fire(p - base)); }
}
static void tramp(void) { struct th *t = &T[cur]; t->f(t->a); t = &T[cur]; t->st = DONE; sym_wake(((u64)1 << 63) | (u64)cur); schedule(); abort(); }
u64 sym_spawn(void (*f)(void *), void *a) {
    if (nth >= MAXT) abort();
    int i = nth++; struct th *t = &T[i]; t->f = f; t->a = a; t->st = RUN;
    getcontext(&t->c); size_t sz = 2 << 20; t->c.uc_stack.ss_sp = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->c.uc_stack.ss_size = sz; t->c.uc_link = 0;
    makecontext(&t->c, tramp, 0); return i;
}
void sym_yield(void) { if (nth > 1) schedule(); }
void sym_wait(u64 ch, u64 ns) { struct th *t = &T[cur]; t->st = WAIT; t->ch = ch; t->until = ns == NEVER ? NEVER : (vnow + ns < vnow ? NEVER : vnow + ns); t->timed_out = 0; schedule(); }
