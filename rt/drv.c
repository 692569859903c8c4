/* In-process driver of libkefir with a ledger allocator: fuzzing, leak, allocation-failure, history and thread monitors. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <locale.h>
#include <time.h>
#include <pthread.h>
#include <execinfo.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "kefir/compiler/compiler.h"
#include "kefir/cli/input.h"
#include "kefir/cli/filesystem_source.h"
#include "kefir/core/util.h"
#include "kefir/core/error_format.h"
#include "kefir/lexer/format.h"
#include "kefir/ast/format.h"
#include "kefir/ir/format.h"
#include "kefir/preprocessor/format.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
/* the sanitizer knows the wchar_t conversions, which are the same functions on this platform, but not these */
#include <wchar.h>
#include <uchar.h>
#include <sanitizer/msan_interface.h>
size_t mbrtoc32(char32_t *c, const char *s, size_t n, mbstate_t *st) { wchar_t w = 0; size_t r = mbrtowc(&w, s, n, st); if (c && s && (ssize_t)r >= 0) *c = (char32_t)w; return r; }
#include <dlfcn.h>
size_t mbrtoc16(char16_t *c, const char *s, size_t n, mbstate_t *st) {
    size_t (*f)(char16_t *, const char *, size_t, mbstate_t *) = dlsym(RTLD_NEXT, "mbrtoc16");
    size_t r = f(c, s, n, st);
    if (c && s && (r != (size_t)-1 && r != (size_t)-2)) __msan_unpoison(c, sizeof *c);
    if (st) __msan_unpoison(st, sizeof *st);
    return r;
}
size_t c16rtomb(char *s, char16_t c, mbstate_t *st) {
    size_t (*f)(char *, char16_t, mbstate_t *) = dlsym(RTLD_NEXT, "c16rtomb");
    size_t r = f(s, c, st);
    if (s && r != (size_t)-1) __msan_unpoison(s, r);
    if (st) __msan_unpoison(st, sizeof *st);
    return r;
}
size_t c32rtomb(char *s, char32_t c, mbstate_t *st) { return wcrtomb(s, (wchar_t)c, st); }
#endif
#endif

/* ---------------------------------------------------------------- ledger */
#define NBT 14
typedef struct blk { struct blk *next; void *p; size_t sz; unsigned long idx; int nbt; void *bt[NBT]; } blk;
typedef struct ledger {
    unsigned long count, live, bad, bytes, peak, fails;
    unsigned long failat;  /* 0 = never */
    int persistent, trace, poison;
    void *failbt[NBT]; int nfailbt;
    blk **h; size_t nh;
} ledger;
static size_t hp(ledger *l, void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (l->nh - 1); }
static void led_init(ledger *l) { memset(l, 0, sizeof *l); l->nh = 1 << 16; l->h = calloc(l->nh, sizeof(blk *)); }
static void led_free(ledger *l) {
    for (size_t i = 0; i < l->nh; i++) for (blk *b = l->h[i], *n; b; b = n) { n = b->next; free(b->p); free(b); }
    free(l->h);
}
static int led_fail(ledger *l) {
    l->count++;
    if (l->failat && (l->count == l->failat || (l->persistent && l->count > l->failat))) {
        if (!l->fails++) l->nfailbt = backtrace(l->failbt, NBT);
        return 1;
    }
    return 0;
}
static void *led_add(ledger *l, void *p, size_t sz) {
    if (!p) return p;
    blk *b = malloc(sizeof *b);
    b->p = p; b->sz = sz; b->idx = l->count;
    b->nbt = l->trace ? backtrace(b->bt, NBT) : 0;
    size_t k = hp(l, p);
    b->next = l->h[k]; l->h[k] = b; l->live++; l->bytes += sz;
    if (l->bytes > l->peak) l->peak = l->bytes;
    return p;
}
static int led_del(ledger *l, void *p) {
    for (blk **q = &l->h[hp(l, p)]; *q; q = &(*q)->next) if ((*q)->p == p) {
        blk *b = *q; *q = b->next; l->live--; l->bytes -= b->sz; free(b); return 1;
    }
    l->bad++;
    return 0;
}
static void *m_malloc(struct kefir_mem *m, kefir_size_t sz) {
    ledger *l = m->data;
    if (led_fail(l)) return NULL;
    void *p = malloc(sz ? sz : 1);
    if (p && l->poison) memset(p, l->poison, sz);
    return led_add(l, p, sz);
}
static void *m_calloc(struct kefir_mem *m, kefir_size_t n, kefir_size_t sz) { ledger *l = m->data; if (led_fail(l)) return NULL; return led_add(l, calloc(n ? n : 1, sz ? sz : 1), n * sz); }
static void *m_realloc(struct kefir_mem *m, void *p, kefir_size_t sz) {
    ledger *l = m->data;
    if (led_fail(l)) return NULL;
    if (p && !led_del(l, p)) { fprintf(stderr, "LEDGER: realloc of a block that is not live\n"); fflush(stderr); abort(); }
    return led_add(l, realloc(p, sz ? sz : 1), sz);
}
static void m_free(struct kefir_mem *m, void *p) {
    ledger *l = m->data;
    if (!p) return;
    if (!led_del(l, p)) { fprintf(stderr, "LEDGER: release of a block that is not live\n"); fflush(stderr); abort(); }
    if (l->poison) memset(p, l->poison, 1);
    free(p);
}
extern void __sanitizer_symbolize_pc(void *, const char *, char *, size_t) __attribute__((weak));
static void show_bt(void **bt, int n) {
    if (__sanitizer_symbolize_pc) {
        for (int i = 2; i < n; i++) {
            char b[512] = "";
            __sanitizer_symbolize_pc((char *)bt[i] - 1, "%f", b, sizeof b);
            char *sp = strchr(b, ' '); if (sp) *sp = 0;
            printf(" %s", b[0] ? b : "?");
            if (!strcmp(b, "vf_compile") || !strcmp(b, "pipeline")) break;
        }
        return;
    }
    char **s = backtrace_symbols(bt, n);
    for (int i = 2; i < n; i++) {
        char *a = strchr(s[i], '('), *e = a ? strchr(a, ')') : NULL;
        if (a && e) { *e = 0; char *pl = strchr(a, '+'); if (pl) *pl = 0; }
        printf(" %s", a && a[1] ? a + 1 : "?");
        if (a && !strcmp(a + 1, "vf_compile")) break;
    }
    free(s);
}
static void show_leaks(ledger *l, int max) {
    for (size_t i = 0; i < l->nh && max > 0; i++) for (blk *b = l->h[i]; b && max > 0; b = b->next, max--) {
        printf("LEAK idx=%lu size=%zu", b->idx, b->sz);
        show_bt(b->bt, b->nbt);
        printf("\n");
    }
}

/* ---------------------------------------------------------------- one compilation through the public interface */
static kefir_result_t pipeline(struct kefir_mem *mem, struct kefir_compiler_context *c, char mode, int skip, const char *src, size_t len,
                               const char *id, const char *path, FILE *out, int detailed) {
    struct kefir_token_buffer tokens;
    struct kefir_ast_translation_unit *unit = NULL;
    struct kefir_ir_module module;
    int have_module = 0;
    REQUIRE_OK(kefir_token_buffer_init(&tokens));
    kefir_result_t r;
    if (mode == 'p') {
        r = kefir_compiler_preprocess(mem, c, &tokens, src, len, id, path);
        REQUIRE_CHAIN(&r, kefir_preprocessor_format(out, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
        kefir_token_buffer_free(mem, &tokens);
        return r;
    }
    if (skip) r = kefir_compiler_lex(mem, c, &tokens, src, len, id);
    else r = kefir_compiler_preprocess_lex(mem, c, &tokens, src, len, id, path);
    if (mode == 't' && r == KEFIR_OK) {
        struct kefir_json_output j;
        r = kefir_json_output_init(&j, out, 4);
        REQUIRE_CHAIN(&r, kefir_token_buffer_format(&j, &tokens, detailed));
        REQUIRE_CHAIN(&r, kefir_json_output_finalize(&j));
    }
    if (mode != 't') {
        REQUIRE_CHAIN(&r, kefir_compiler_parse(mem, c, &tokens, &unit));
        if (r != KEFIR_OK) unit = NULL;
        REQUIRE_CHAIN(&r, kefir_compiler_analyze(mem, c, KEFIR_AST_NODE_BASE(unit)));
        if (mode == 'a' && r == KEFIR_OK) {
            struct kefir_json_output j;
            r = kefir_json_output_init(&j, out, 4);
            REQUIRE_CHAIN(&r, kefir_ast_format(&j, KEFIR_AST_NODE_BASE(unit), detailed));
            REQUIRE_CHAIN(&r, kefir_json_output_finalize(&j));
        } else if (r == KEFIR_OK) {
            r = kefir_ir_module_alloc(mem, &module);
            have_module = r == KEFIR_OK;
            REQUIRE_CHAIN(&r, kefir_compiler_translate(mem, c, unit, &module));
            if (mode == 'i') { REQUIRE_CHAIN(&r, kefir_ir_format_module(out, &module)); }
            else REQUIRE_CHAIN(&r, kefir_compiler_codegen(mem, c, &module, out));
        }
    }
    if (have_module) kefir_ir_module_free(mem, &module);
    if (unit) KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(unit));
    kefir_token_buffer_free(mem, &tokens);
    return r;
}

static _Thread_local void (*on_error)(void);
/* feats: 13-bit mask, bit 13 = skip preprocessor, bit 14 = detailed output */
kefir_result_t vf_compile(struct kefir_mem *mem, char mode, unsigned feats, const char *path, const char *incdir, const char *src, size_t len, FILE *out) {
    struct kefir_compiler_profile profile;
    struct kefir_compiler_context c;
    struct kefir_preprocessor_filesystem_source_locator loc;
    kefir_result_t r = kefir_preprocessor_filesystem_source_locator_init(&loc, &c.ast_global_context.symbols);
    if (r != KEFIR_OK) return r;
    if (incdir && *incdir) r = kefir_preprocessor_filesystem_source_locator_append(mem, &loc, incdir);
    REQUIRE_CHAIN(&r, kefir_compiler_profile(&profile, NULL));
    if (r == KEFIR_OK) r = kefir_compiler_context_init(mem, &c, &profile, &loc.locator, NULL);
    if (r != KEFIR_OK) { kefir_preprocessor_filesystem_source_locator_free(mem, &loc); return r; }
#define BIT(n) ((feats >> (n)) & 1)
    c.parser_configuration.fail_on_attributes = BIT(0);
    c.parser_configuration.implicit_function_definition_int = BIT(1);
    c.parser_configuration.designated_initializer_colons = BIT(2);
    c.parser_configuration.label_addressing = BIT(3);
    c.parser_configuration.statement_expressions = BIT(4);
    c.parser_configuration.omitted_conditional_operand = BIT(5);
    c.ast_global_context.configuration.analysis.non_strict_qualifiers = BIT(6);
    c.ast_global_context.configuration.analysis.fixed_enum_type = BIT(7);
    c.ast_global_context.configuration.analysis.implicit_function_declaration = BIT(8);
    c.ast_global_context.configuration.analysis.ext_pointer_arithmetics = BIT(9);
    c.ast_global_context.configuration.analysis.missing_braces_subobj = BIT(10);
    c.ast_global_context.configuration.analysis.int_to_pointer = BIT(11);
    c.translator_configuration.empty_structs = BIT(12);
    c.preprocessor_context.environment.timestamp = 86400 * 365;
    r = pipeline(mem, &c, mode, BIT(13), src, len, path, path, out, BIT(14));
    if (r != KEFIR_OK && on_error) on_error();  /* diagnostics refer to names owned by the context */
    kefir_compiler_context_free(mem, &c);
    kefir_preprocessor_filesystem_source_locator_free(mem, &loc);
    return r;
}

static char *slurp(const char *path, size_t *len) {
    FILE *f = fopen(path, "rb");
    if (!f) { fprintf(stderr, "drv: cannot read %s\n", path); _exit(99); }
    size_t cap = 4096; char *b = malloc(cap + 1); *len = 0;
    for (size_t n; (n = fread(b + *len, 1, cap - *len, f)) > 0;) { *len += n; if (*len == cap) b = realloc(b, (cap *= 2) + 1); }
    fclose(f);
    /* exact-size copy: reads past the end of the input are visible to the sanitizer */
    char *c = malloc(*len + 1); memcpy(c, b, *len); c[*len] = 0; free(b);
    return c;
}

static unsigned long long hash_bytes(const char *p, size_t n) { unsigned long long h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }

typedef struct job { char id[64], mode; unsigned feats; char path[512], inc[512]; } job;
static int read_job(job *j, char *rest, size_t n) {
    char line[2048];
    while (fgets(line, sizeof line, stdin)) {
        j->inc[0] = 0; rest[0] = 0;
        int used = 0;
        if (sscanf(line, "%63s %c %u %511s %511s%n", j->id, &j->mode, &j->feats, j->path, j->inc, &used) >= 4) {
            if (!strcmp(j->inc, "-")) j->inc[0] = 0;
            if (used) snprintf(rest, n, "%s", line + used);
            return 1;
        }
    }
    return 0;
}

static kefir_result_t run_led(ledger *l, job *j, const char *src, size_t len, FILE *out) {
    struct kefir_mem mem = {.malloc = m_malloc, .calloc = m_calloc, .realloc = m_realloc, .free = m_free, .data = l};
    kefir_clear_error();
    return vf_compile(&mem, j->mode, j->feats, j->path, j->inc, src, len, out);
}

static void fuzz_report(void) {
    fprintf(stderr, "REJECTED\n");
    if (!kefir_current_error()) { fprintf(stderr, "LEDGER: failure without a diagnostic\n"); fflush(stderr); _exit(98); }
    kefir_format_error_json(stderr, kefir_current_error());
    kefir_format_error_tabular(stderr, kefir_current_error());
}
static int do_fuzz(const char *errdir, int secs) {
    job j; char rest[1024];
    while (read_job(&j, rest, sizeof rest)) {
        size_t len; char *src = slurp(j.path, &len);
        fflush(stdout);
        struct timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        pid_t pid = fork();
        if (pid == 0) {
            char e[1024]; snprintf(e, sizeof e, "%s/%s.err", errdir, j.id);
            freopen(e, "w", stderr); freopen("/dev/null", "w", stdout);
            struct rlimit rl = {secs, secs + 1}; setrlimit(RLIMIT_CPU, &rl);
            alarm(secs * 4);
            FILE *out = fopen("/dev/null", "w");
            ledger l; led_init(&l); l.trace = 0; l.poison = 0xA5;
            on_error = fuzz_report;
            kefir_result_t r = run_led(&l, &j, src, len, out);
            fclose(out);
            fflush(stderr);
            _exit(r == KEFIR_OK ? 0 : 1);
        }
        int st; waitpid(pid, &st, 0);
        clock_gettime(CLOCK_MONOTONIC, &b);
        printf("%s %d %ld\n", j.id, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), (b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000);
        fflush(stdout);
        free(src);
    }
    return 0;
}

static _Thread_local unsigned long long ERRH;
static void thr_report(void) {
    char *eb = NULL; size_t en = 0; FILE *e = open_memstream(&eb, &en);
    kefir_format_error_json(e, kefir_current_error()); fclose(e); ERRH = hash_bytes(eb, en) ^ 1; free(eb);
}
/* history: all units in this process; outputs are hashed and every block must be returned */
static int do_hist(int trace) {
    job j; char rest[1024];
    while (read_job(&j, rest, sizeof rest)) {
        size_t len; char *src = slurp(j.path, &len);
        char *ob = NULL; size_t on = 0;
        FILE *out = open_memstream(&ob, &on);
        ledger l; led_init(&l); l.trace = trace & 1; l.poison = trace & 2 ? 0 : 0xA5;
        on_error = thr_report; ERRH = 0;
        kefir_result_t r = run_led(&l, &j, src, len, out);
        fclose(out);
        printf("%s %d %lu %lu %llx %zu\n", j.id, r == KEFIR_OK ? 0 : 1, l.count, l.live, r == KEFIR_OK ? hash_bytes(ob, on) : ERRH, on);
        if (l.trace && l.live) show_leaks(&l, 3);
        fflush(stdout);
        led_free(&l); free(ob); free(src);
    }
    return 0;
}

/* allocation failures: rest = "first step count persistent" */
static int do_oom(const char *errdir) {
    job j; char rest[1024];
    while (read_job(&j, rest, sizeof rest)) {
        unsigned long first, step, count; int pers;
        if (sscanf(rest, "%lu %lu %lu %d", &first, &step, &count, &pers) != 4) return 2;
        size_t len; char *src = slurp(j.path, &len);
        unsigned long k = first, left = count;
        while (left) {
            fflush(stdout);
            int pp[2]; if (pipe(pp)) return 3;
            pid_t pid = fork();
            if (pid == 0) {
                char e[1024]; snprintf(e, sizeof e, "%s/%s.err", errdir, j.id);
                freopen(e, "w", stderr);
                alarm(240);
                for (; left; left--, k += step) {
                    char *ob = NULL; size_t on = 0;
                    write(pp[1], &k, sizeof k);
                    FILE *out = open_memstream(&ob, &on);
                    ledger l; led_init(&l); l.failat = k; l.persistent = pers; l.poison = 0xA5;
                    kefir_result_t r = run_led(&l, &j, src, len, out);
                    fclose(out);
                    int quiet = !l.live && !(l.fails && r == KEFIR_OK) && !(r != KEFIR_OK && !kefir_current_error());
                    if (!quiet) {
                        /* once more, with the origin of every block */
                        led_free(&l); free(ob); ob = NULL;
                        out = open_memstream(&ob, &on);
                        led_init(&l); l.trace = 1; l.failat = k; l.persistent = pers; l.poison = 0xA5;
                        r = run_led(&l, &j, src, len, out);
                        fclose(out);
                    }
                    const struct kefir_error *err = kefir_current_error();
                    printf("K %s %lu %d %lu %lu %s", j.id, k, r == KEFIR_OK ? 0 : 1, l.live, l.fails, r == KEFIR_OK || err ? "D" : "N");
                    if (l.fails && !quiet) show_bt(l.failbt, l.nfailbt);
                    printf("\n");
                    if (l.live) show_leaks(&l, 2);
                    int done = !l.fails;
                    led_free(&l); free(ob);
                    if (done) break;
                }
                /* recovery */
                char *ob = NULL; size_t on = 0;
                FILE *out = open_memstream(&ob, &on);
                ledger l; led_init(&l);
                kefir_result_t r = run_led(&l, &j, src, len, out);
                fclose(out);
                printf("REC %s %d %lu %llx\n", j.id, r == KEFIR_OK ? 0 : 1, l.live, hash_bytes(ob, on));
                fflush(stdout); fflush(stderr);
                _exit(0);
            }
            close(pp[1]);
            unsigned long kk, last = k; size_t n = 0;
            while (read(pp[0], &kk, sizeof kk) == sizeof kk) { last = kk; n++; }
            close(pp[0]);
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            printf("CRASH %s %lu %d\n", j.id, last, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
            fflush(stdout);
            char cmd[2300]; char f[1024], t[1100];
            snprintf(f, sizeof f, "%s/%s.err", errdir, j.id); snprintf(t, sizeof t, "%s/%s.%lu.err", errdir, j.id, last); rename(f, t); (void)cmd;
            left = n <= left ? left - n : 0;
            k = last + step;
        }
        printf("DONE %s\n", j.id);
        fflush(stdout);
        free(src);
    }
    return 0;
}

/* threads: every thread compiles every unit, in its own order, with its own allocator */
static job *JOBS_; static size_t NJ; static char **SRC; static size_t *LEN; static unsigned long long *RES; static int NT;
static pthread_barrier_t BAR;
static void *thr(void *a) {
    on_error = thr_report;
    size_t t = (size_t)a;
    pthread_barrier_wait(&BAR);
    for (size_t i = 0; i < NJ; i++) {
        size_t k = (i * (t * 2 + 1) + t * 7) % NJ;
        char *ob = NULL; size_t on = 0;
        FILE *out = open_memstream(&ob, &on);
        ledger l; led_init(&l);
        kefir_result_t r = run_led(&l, &JOBS_[k], SRC[k], LEN[k], out);
        unsigned long long h = 0;
        fclose(out);
        if (r == KEFIR_OK) h = hash_bytes(ob, on);
        else h = ERRH;
        RES[t * NJ + k] = h ^ (l.live * 0x9E3779B97F4A7C15ull);
        led_free(&l); free(ob);
    }
    return NULL;
}
static int do_threads(int nt) {
    job j; char rest[1024];
    JOBS_ = malloc(sizeof(job) * 4096); SRC = malloc(sizeof(char *) * 4096); LEN = malloc(sizeof(size_t) * 4096);
    while (NJ < 4096 && read_job(&j, rest, sizeof rest)) { JOBS_[NJ] = j; SRC[NJ] = slurp(j.path, &LEN[NJ]); NJ++; }
    NT = nt; RES = calloc(NJ * (nt + 1), sizeof *RES);
    /* alone first, in thread slot nt */
    pthread_t th[64];
    pthread_barrier_init(&BAR, NULL, 1);
    thr((void *)(size_t)nt);
    pthread_barrier_init(&BAR, NULL, nt);
    for (int i = 0; i < nt; i++) pthread_create(&th[i], NULL, thr, (void *)(size_t)i);
    for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
    for (int i = 0; i < nt; i++) for (size_t k = 0; k < NJ; k++)
        if (RES[i * NJ + k] != RES[(size_t)nt * NJ + k]) printf("DIFF thread=%d unit=%s\n", i, JOBS_[k].id);
    printf("DONE %zu\n", NJ * nt);
    return 0;
}

int main(int argc, char **argv) {
    setlocale(LC_ALL, "C.UTF-8");
    setlocale(LC_NUMERIC, "C");
    if (argc > 3 && !strcmp(argv[1], "fuzz")) return do_fuzz(argv[2], atoi(argv[3]));
    if (argc > 2 && !strcmp(argv[1], "hist")) return do_hist(atoi(argv[2]));
    if (argc > 2 && !strcmp(argv[1], "oom")) return do_oom(argv[2]);
    if (argc > 2 && !strcmp(argv[1], "threads")) return do_threads(atoi(argv[2]));
    return 2;
}
