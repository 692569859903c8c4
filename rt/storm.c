/* Monitor of reentrancy: threads and asynchronous signals running compiled code.
   Linked with one unit whose main is renamed vf_main and one unit with vf_handler, both compiled by the compiler under test. */
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <sys/time.h>
#include <ucontext.h>

extern int vf_main(void);
extern unsigned long long vf_handler(unsigned);
extern char __executable_start, etext;
_Thread_local long vf_ext_tls = 77;
long vf_ext_tls_get(void) { return vf_ext_tls; }

/* ---- per-thread event log (same events as chk.c, hashed and optionally kept) */
static _Thread_local unsigned long long H;
static _Thread_local unsigned long NEV, RND;
static _Thread_local FILE *KEEP;
static int yields;
static volatile unsigned long delivered, nested, wrong;
static void ev(char c, long id, const void *p, unsigned long n) {
    H = (H ^ (unsigned char) c) * 1099511628211ull; H = (H ^ (unsigned long) id) * 1099511628211ull;
    for (unsigned long i = 0; i < n; i++) H = (H ^ ((const unsigned char *) p)[i]) * 1099511628211ull;
    if (KEEP) { fprintf(KEEP, "%c%lx ", c, id); for (unsigned long i = 0; i < n; i++) fprintf(KEEP, "%02x", ((const unsigned char *) p)[i]); fputc('\n', KEEP); }
    NEV++;
    if (NEV > 4000000) _exit(97);
    if (yields) { RND = RND * 6364136223846793005ull + 1442695040888963407ull; if ((RND >> 40) % 23 == 0) sched_yield(); else if ((RND >> 40) % 997 == 0) usleep(50); }
}
void T(long id, unsigned long long v) { ev('T', id, &v, 8); }
void TF(long id, float v) { if (v != v) v = 0.12345f; ev('F', id, &v, 4); }
void TD(long id, double v) { if (v != v) v = 0.12345; ev('D', id, &v, 8); }
void TL(long id, long double v) { if (v != v) v = 0.12345L; ev('L', id, &v, 10); }
void TB(long id, const void *p, unsigned long n) { ev('M', id, p, n); }
void TS(long id, const char *s) { ev('S', id, s, strlen(s)); }
void B(long id) { ev('#', id, "", 0); }
void SPM(long id, const void *p) { (void) id; (void) p; }
void END(void) { ev('E', 0, "", 0); }
volatile int chk_zero = 0;
long long I(long long v) { return v + chk_zero; }
unsigned long long U(unsigned long long v) { return v + (unsigned) chk_zero; }
double D(double v) { volatile double x = v; return x; }
float F(float v) { volatile float x = v; return x; }
long double L(long double v) { volatile long double x = v; return x; }
void *P(void *p) { return (char *) p + chk_zero; }

/* ---- handlers */
#define NH 8
static unsigned long long want[NH];
static _Thread_local volatile int depth;
static volatile unsigned turn;
static void fire(void) {
    unsigned k = __atomic_fetch_add(&turn, 1, __ATOMIC_RELAXED) % NH;
    if (depth) __atomic_fetch_add(&nested, 1, __ATOMIC_RELAXED);
    depth++;
    if (vf_handler(k) != want[k]) __atomic_fetch_add(&wrong, 1, __ATOMIC_RELAXED);
    depth--;
    __atomic_fetch_add(&delivered, 1, __ATOMIC_RELAXED);
}
static void on_timer(int s) { (void) s; if (depth < 4) fire(); }
static unsigned long steps, every = 1, maxsteps;
static void on_step(int s, siginfo_t *si, void *u) {
    (void) s; (void) si;
    ucontext_t *c = u;
    unsigned long ip = (unsigned long) c->uc_mcontext.gregs[REG_RIP];
    if (ip < (unsigned long) &__executable_start || ip >= (unsigned long) &etext) return;
    if (++steps > maxsteps) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100l; return; }
    if (steps % every == 0) fire();
}
static void stepping(int on) {
    if (on) __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "cc", "memory");
    else __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "cc", "memory");
}
static void timer(long us) { struct itimerval t = {{0, us}, {0, us}}; setitimer(ITIMER_REAL, &t, NULL); }

static int reps, nthr;
static pthread_barrier_t bar;
struct res { unsigned long long h[16]; unsigned long n; };
static struct res base, *rs;
static void session(struct res *r, unsigned long seed) {
    RND = seed;
    for (int i = 0; i < reps; i++) { H = 1469598103934665603ull; vf_main(); r->h[i] = H; }
    r->n = NEV;
}
static void *alone(void *a) { KEEP = a; session(&base, 1); return NULL; }
static void *worker(void *a) { unsigned long k = (unsigned long) a; pthread_barrier_wait(&bar); session(&rs[k], k * 77 + 5); return NULL; }
static void *stepped(void *a) {
    (void) a;
    RND = 3;
    H = 1469598103934665603ull;
    stepping(1);
    vf_main();
    stepping(0);
    rs[0].h[0] = H; rs[0].n = NEV;
    return NULL;
}
int main(int argc, char **argv) {
    /* mode threads reps */
    const char *mode = argc > 1 ? argv[1] : "log";
    nthr = argc > 2 ? atoi(argv[2]) : 1; reps = argc > 3 ? atoi(argv[3]) : 1;
    every = argc > 4 ? strtoul(argv[4], 0, 10) : 1; maxsteps = argc > 5 ? strtoul(argv[5], 0, 10) : 400000;
    if (reps > 16) reps = 16;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    pthread_t th[64];
    for (unsigned k = 0; k < NH; k++) want[k] = vf_handler(k);
    pthread_create(&th[0], &at, alone, !strcmp(mode, "log") ? stdout : NULL); pthread_join(th[0], NULL);
    if (!strcmp(mode, "log")) return 0;
    rs = calloc(nthr, sizeof *rs);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    if (!strcmp(mode, "step")) {
        sa.sa_sigaction = on_step; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGTRAP, &sa, NULL);
        nthr = 1; reps = 1;
        pthread_create(&th[0], &at, stepped, NULL); pthread_join(th[0], NULL);
    } else {
        yields = 1;
        pthread_barrier_init(&bar, NULL, nthr);
        if (!strcmp(mode, "storm")) { sa.sa_handler = on_timer; sa.sa_flags = SA_RESTART | SA_NODEFER; sigaction(SIGALRM, &sa, NULL); timer(60); }
        for (long k = 0; k < nthr; k++) pthread_create(&th[k], &at, worker, (void *) k);
        for (int k = 0; k < nthr; k++) pthread_join(th[k], NULL);
        timer(0);
    }
    unsigned long diff = 0;
    for (int k = 0; k < nthr; k++) for (int i = 0; i < reps; i++) if (rs[k].h[i] != base.h[i]) diff++;
    printf("RESULT runs=%d events=%lu diff=%lu delivered=%lu nested=%lu wrong=%lu steps=%lu\n", nthr * reps, base.n, diff, delivered, nested, wrong, steps);
    return 0;
}
