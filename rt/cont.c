/* Random operation histories over kefir's core containers, judged by trivially simple reference models.
   usage: cont KIND SEED HISTORIES OPS   -> "ok histories ops states" or "MISMATCH kind seed history op what" (exit 3) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <locale.h>
#include <stdbool.h>
#include "kefir/core/list.h"
#include "kefir/core/vector.h"
#include "kefir/core/linked_stack.h"
#include "kefir/core/tree.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/trie.h"
#include "kefir/core/string_buffer.h"
#include "kefir/core/block_tree.h"
#include "kefir/core/symbol_table.h"
#include "kefir/core/error.h"
#include "kefir/util/char32.h"

static uint64_t S;
static uint64_t rnd(void) { uint64_t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned R(unsigned n) { return n ? rnd() % n : 0; }
static const char *kind; static uint64_t seed0; static long hist, opno, ops_done; static long states;
static uint64_t seen[1 << 16];
static void state(uint64_t h) { h *= 0x9e3779b97f4a7c15ull; if (!h) h = 1; uint64_t *p = &seen[h >> 48]; if (*p != h) { *p = h; states++; } }
#define BAD(...) do { printf("MISMATCH %s %llu %ld %ld ", kind, (unsigned long long) seed0, hist, opno); printf(__VA_ARGS__); printf("\n"); exit(3); } while (0)
#define MUST(c) do { if (!(c)) BAD("%s", #c); } while (0)

static long live;
static void *mm(struct kefir_mem *m, kefir_size_t n) { char *p = malloc(n ? n : 1); memset(p, 0xA5, n); live++; return p; }
static void *mc(struct kefir_mem *m, kefir_size_t n, kefir_size_t k) { live++; return calloc(n ? n : 1, k ? k : 1); }
static void *mr(struct kefir_mem *m, void *p, kefir_size_t n) { if (!p) live++; return realloc(p, n ? n : 1); }
static void mf(struct kefir_mem *m, void *p) { if (p) live--; free(p); }
static struct kefir_mem mem = {mm, mc, mr, mf, NULL};
#define N 400
static int removed[1 << 16];

/* ------------------------------------------------------------------ list + stack */
static kefir_result_t l_rm(struct kefir_mem *m, struct kefir_list *l, struct kefir_list_entry *e, void *d) { MUST(d == (void *) 77); removed[(uintptr_t) e->value]++; return KEFIR_OK; }
struct ml { struct kefir_list l; uintptr_t v[N]; int n; };
static void l_check(struct ml *m) {
    MUST(kefir_list_length(&m->l) == (kefir_size_t) m->n);
    const struct kefir_list_entry *e = kefir_list_head(&m->l), *prev = NULL; int i = 0;
    uint64_t h = 7;
    while (e) { MUST(i < m->n); MUST(e->prev == prev); MUST((uintptr_t) e->value == m->v[i]); prev = e; h = h * 31 + m->v[i] % 8;
        const struct kefir_list_entry *nx = e; MUST((uintptr_t) kefir_list_next(&nx) == m->v[i]); MUST(nx == e->next); e = nx; i++; }
    MUST(i == m->n); MUST(kefir_list_tail(&m->l) == prev);
    state(h * 64 + m->n);
}
static void t_list(int ops) {
    static struct ml a[2]; uintptr_t next = 1; memset(removed, 0, sizeof removed); int expect[1 << 12] = {0};
    int big = R(4) == 0;
    for (int k = 0; k < 2; k++) { a[k].n = 0; MUST(kefir_list_init(&a[k].l) == KEFIR_OK); MUST(kefir_list_on_remove(&a[k].l, l_rm, (void *) 77) == KEFIR_OK); }
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; struct ml *m = &a[R(2)];
        switch (R(10)) {
            case 0: case 1: case 2: { if (m->n >= (big ? N - 1 : 8) || next >= 4000) break; int at = (int) R(m->n + 1) - 1; struct kefir_list_entry *it = at < 0 ? NULL : kefir_list_at(&m->l, at);
                MUST(at < 0 || it); MUST(kefir_list_insert_after(&mem, &m->l, it, (void *) next) == KEFIR_OK);
                memmove(m->v + at + 2, m->v + at + 1, (m->n - at - 1) * sizeof *m->v); m->v[at + 1] = next++; m->n++; } break;
            case 3: if (m->n) { int at = R(m->n); struct kefir_list_entry *it = kefir_list_at(&m->l, at); MUST(it && (uintptr_t) it->value == m->v[at]);
                MUST(kefir_list_pop(&mem, &m->l, it) == KEFIR_OK); expect[m->v[at]]++; memmove(m->v + at, m->v + at + 1, (m->n - at - 1) * sizeof *m->v); m->n--; } break;
            case 4: if (R(12) == 0) { MUST(kefir_list_clear(&mem, &m->l) == KEFIR_OK); for (int i = 0; i < m->n; i++) expect[m->v[i]]++; m->n = 0; } break;
            case 5: if (R(4) == 0) { struct ml *s = m == a ? a + 1 : a; if (s->n + m->n >= N) break; MUST(kefir_list_move_all(&m->l, &s->l) == KEFIR_OK);
                memcpy(m->v + m->n, s->v, s->n * sizeof *s->v); m->n += s->n; s->n = 0; } break;
            case 6: if (m->n < (big ? N - 1 : 8) && next < 4000) { MUST(kefir_linked_stack_push(&mem, &m->l, (void *) next) == KEFIR_OK); m->v[m->n++] = next++; } break;
            case 7: { void *v = (void *) 1; MUST(kefir_linked_stack_pop(&mem, &m->l, R(5) ? &v : NULL) == KEFIR_OK); if (m->n) { m->n--; expect[m->v[m->n]]++; if (v != (void *) 1) MUST((uintptr_t) v == m->v[m->n]); } else if (v != (void *) 1) MUST(v == NULL); } break;
            case 8: { void *v = (void *) 1; MUST(kefir_linked_stack_peek(&m->l, &v) == KEFIR_OK); MUST(v == (m->n ? (void *) m->v[m->n - 1] : NULL)); } break;
            case 9: { unsigned i = R(m->n + 3); struct kefir_list_entry *e = kefir_list_at(&m->l, i); if (i < (unsigned) m->n) MUST(e && (uintptr_t) e->value == m->v[i]); else MUST(!e); } break;
        }
        l_check(a); l_check(a + 1);
        for (int i = 0; i < (int) next; i++) MUST(removed[i] == expect[i]);
    }
    for (int k = 0; k < 2; k++) { MUST(kefir_list_free(&mem, &a[k].l) == KEFIR_OK); for (int i = 0; i < a[k].n; i++) expect[a[k].v[i]]++; }
    for (int i = 0; i < (int) next; i++) MUST(removed[i] == expect[i]);
    for (int i = 1; i < (int) next; i++) MUST(removed[i] == 1);
}

/* ------------------------------------------------------------------ vector */
static void t_vector(int ops) {
    static unsigned char model[1 << 14]; unsigned es = 1 + R(24), cap = R(5) ? 1 + R(12) : 0, len = 0; struct kefir_vector v;
    static unsigned char area[1 << 14]; bool own = cap == 0 || R(4);
    if (own) MUST(kefir_vector_alloc(&mem, es, cap, &v) == KEFIR_OK); else MUST(kefir_vector_init(&v, es, area, cap) == KEFIR_OK);
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; unsigned char e[64]; for (unsigned i = 0; i < es; i++) e[i] = rnd();
        switch (R(7)) {
            case 0: case 1: case 2: { kefir_result_t r = kefir_vector_append(&v, e); if (len < cap) { MUST(r == KEFIR_OK); memcpy(model + len++ * es, e, es); } else { MUST(r == KEFIR_OUT_OF_BOUNDS); kefir_clear_error(); } } break;
            case 3: { unsigned k = R(4); kefir_result_t r = kefir_vector_extend(&v, k); if (len + k <= cap) { MUST(r == KEFIR_OK); for (unsigned i = 0; i < k; i++) { unsigned char *p = kefir_vector_at(&v, len + i); MUST(p); for (unsigned j = 0; j < es; j++) p[j] = model[(len + i) * es + j] = rnd(); } len += k; } else { MUST(r == KEFIR_OUT_OF_BOUNDS); kefir_clear_error(); } } break;
            case 4: if (own && len > 0) { unsigned nc = R(3) ? cap + R(12) : R(cap + 1); if (nc == 0 || nc > 500) break; kefir_result_t r = kefir_vector_realloc(&mem, nc, &v); if (nc >= len) { MUST(r == KEFIR_OK); cap = nc; } else { MUST(r == KEFIR_OUT_OF_BOUNDS); kefir_clear_error(); } } break;
            case 5: if (len) { unsigned char *p = kefir_vector_at(&v, R(len)); unsigned i = R(len); p = kefir_vector_at(&v, i); MUST(p); for (unsigned j = 0; j < es; j++) p[j] = model[i * es + j] = rnd(); } break;
            case 6: { unsigned k = R(4); unsigned char src[4 * 64]; for (unsigned i = 0; i < k * es; i++) src[i] = rnd(); kefir_result_t r = kefir_vector_copy(&v, k ? src : NULL, k);
                if (len + k <= cap) { MUST(r == KEFIR_OK); memcpy(model + len * es, src, k * es); len += k; } else { MUST(r == KEFIR_OUT_OF_BOUNDS); kefir_clear_error(); } } break;
        }
        MUST(kefir_vector_length(&v) == len); MUST(kefir_vector_available(&v) == cap - len);
        for (unsigned i = 0; i < len; i++) { void *p = kefir_vector_at(&v, i); MUST(p && memcmp(p, model + i * es, es) == 0); }
        MUST(kefir_vector_at(&v, len) == NULL); MUST(kefir_vector_at(&v, len + R(100)) == NULL);
        state(((uint64_t) es * 64 + len) * 64 + cap);
    }
    if (own) MUST(kefir_vector_free(&mem, &v) == KEFIR_OK);
}

/* ------------------------------------------------------------------ hashtree */
static char strs[N][8]; static int hmode;
static kefir_hashtree_hash_t h_hash(kefir_hashtree_key_t k, void *d) { MUST(d == (void *) 5); return hmode == 2 ? k % 3 : hmode == 3 ? 42 : hmode == 4 ? (k % 7) << 40 : (k * 0x9e3779b97f4a7c15ull) >> 60; }
static bool h_cmp(kefir_hashtree_key_t a, kefir_hashtree_key_t b, void *d) { MUST(d == (void *) 5); return a == b; }
static kefir_result_t h_rm(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v, void *d) { MUST(d == (void *) 78); removed[v]++; return KEFIR_OK; }
static void t_hashtree(int ops) {
    static const struct kefir_hashtree_ops cops = {.hash = h_hash, .compare_keys = h_cmp, .data = (void *) 5};
    hmode = R(6); struct kefir_hashtree t; const struct kefir_hashtree_ops *op = hmode == 0 ? &kefir_hashtree_uint_ops : hmode == 1 ? &kefir_hashtree_str_ops : &cops;
    int nk = R(3) ? 3 + R(20) : 60 + R(200); uintptr_t val[N], next = 1; bool in[N] = {0}; int cnt = 0;
    static int expect[1 << 16]; memset(removed, 0, sizeof removed); memset(expect, 0, sizeof expect);
    char tmp[8];
#define KEY(i) (hmode == 1 ? (kefir_hashtree_key_t) strcpy(tmp, strs[i]) : (kefir_hashtree_key_t) (hmode == 0 && i % 5 == 0 ? ~(uint64_t) i : (uint64_t) i))
#define KEYP(i) (hmode == 1 ? (kefir_hashtree_key_t) strs[i] : KEY(i))
    for (int i = 0; i < N; i++) { char *s = strs[i]; int j = i; s[0] = 0; do { strcat(s, (const char *[]){"Aa", "BB", "C#"}[j % 3]); j /= 3; } while (j && strlen(s) < 6); if (strlen(s) < 6 && i % 2) { s[strlen(s) + 1] = 0; s[strlen(s)] = (char) (i % 7 ? 'a' + i % 26 : 0x80 + i % 100); } }
    if (hmode == 1) { int k = 0; for (int i = 0; i < N && k < nk; i++) { bool dup = false; for (int j = 0; j < k; j++) if (!strcmp(strs[i], strs[j])) dup = true; if (!dup) { memmove(strs[k], strs[i], 8); k++; } } nk = k; }
    MUST(kefir_hashtree_init(&t, op) == KEFIR_OK); MUST(kefir_hashtree_on_removal(&t, h_rm, (void *) 78) == KEFIR_OK);
    int phase = 0;
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; int i = R(nk); if (o % 40 == 0) phase = R(3); kefir_result_t r; struct kefir_hashtree_node *nd = NULL;
        int what = R(10); if (phase == 1 && what >= 7 && what < 9) what = 0; if (phase == 2 && what < 3) what = 7;
        if (what < 4) {
            if (next > 60000) break;
            r = kefir_hashtree_insert(&mem, &t, KEYP(i), next);
            if (in[i]) { MUST(r == KEFIR_ALREADY_EXISTS); kefir_clear_error(); } else { MUST(r == KEFIR_OK); in[i] = true; val[i] = next++; cnt++; }
        } else if (what < 7) {
            r = kefir_hashtree_at(&t, KEY(i), &nd);
            if (in[i]) { MUST(r == KEFIR_OK); MUST(nd && nd->value == val[i]); MUST(nd->key == KEYP(i)); } else { MUST(r == KEFIR_NOT_FOUND); kefir_clear_error(); }
            MUST(!!kefir_hashtree_has(&t, KEY(i)) == in[i]); MUST(!!kefir_hashtree_empty(&t) == (cnt == 0));
        } else if (what < 9) {
            r = kefir_hashtree_delete(&mem, &t, KEY(i));
            if (in[i]) { MUST(r == KEFIR_OK); expect[val[i]]++; MUST(removed[val[i]] == expect[val[i]]); in[i] = false; cnt--; } else { MUST(r == KEFIR_NOT_FOUND); kefir_clear_error(); }
        } else if (R(25) == 0) {
            MUST(kefir_hashtree_clean(&mem, &t) == KEFIR_OK); for (int j = 0; j < nk; j++) if (in[j]) { expect[val[j]]++; in[j] = false; } cnt = 0; MUST(kefir_hashtree_empty(&t));
        }
        if (nk < 30 || o % 8 == 0) { /* a complete traversal: every pair once, hashes never decreasing */
            static bool vis[1 << 16]; memset(vis, 0, next); struct kefir_hashtree_node_iterator it; int got = 0; uint64_t last = 0; uint64_t h = hmode;
            for (const struct kefir_hashtree_node *n = kefir_hashtree_iter(&t, &it); n; n = kefir_hashtree_next(&it)) {
                MUST(got <= cnt); MUST(n->value > 0 && n->value < next && !vis[n->value]); vis[n->value] = true; uint64_t hh = op->hash(n->key, op->data); MUST(hh >= last); last = hh; got++;
                int f = 0; for (int j = 0; j < nk; j++) if (in[j] && val[j] == n->value) { f = 1; MUST(n->key == KEYP(j)); } MUST(f); h = h * 31 + hh; }
            MUST(got == cnt); state(h);
            for (int j = 0; j < nk; j++) MUST(!!kefir_hashtree_has(&t, KEY(j)) == in[j]);
        }
    }
    for (int j = 0; j < nk; j++) if (in[j]) expect[val[j]]++;
    MUST(kefir_hashtree_free(&mem, &t) == KEFIR_OK); MUST(kefir_hashtree_empty(&t));
    for (uintptr_t j = 0; j < next; j++) MUST(removed[j] == expect[j]);
}

/* ------------------------------------------------------------------ tree */
static kefir_result_t t_rm(struct kefir_mem *m, void *v, void *d) { MUST(d == (void *) 79); removed[(uintptr_t) v]++; return KEFIR_OK; }
static void t_tree(int ops) {
    static struct { struct kefir_tree_node *n; int parent, kids[N], nk; } m[N]; int n = 1; struct kefir_tree_node root; memset(removed, 0, sizeof removed);
    MUST(kefir_tree_init(&root, (void *) 0) == KEFIR_OK); MUST(kefir_tree_on_removal(&root, t_rm, (void *) 79) == KEFIR_OK);
    m[0].n = &root; m[0].parent = -1; m[0].nk = 0; int shape = R(3);
    for (int o = 0; o < ops && n < N; o++) {
        opno = o; ops_done++; int p = shape == 0 ? R(n) : shape == 1 ? n - 1 - R(n < 3 ? n : 3) : R(n < 4 ? n : 4); struct kefir_tree_node *c = NULL;
        MUST(kefir_tree_insert_child(&mem, m[p].n, (void *) (uintptr_t) n, R(6) ? &c : NULL) == KEFIR_OK);
        if (!c) { c = kefir_tree_first_child(m[p].n); while (kefir_tree_next_sibling(c)) c = kefir_tree_next_sibling(c); }
        m[n].n = c; m[n].parent = p; m[n].nk = 0; m[p].kids[m[p].nk++] = n; n++;
        if (R(4) == 0) {
            int start = R(n), q[N], qh = 0, qt = 0; struct kefir_tree_node_iterator it; q[qt++] = start; uint64_t h = 3;
            MUST(kefir_tree_iter(m[start].n, &it) == KEFIR_OK); int stop = R(3) ? -1 : (int) R(10);
            while (qh < qt && stop != 0) { int x = q[qh++]; MUST(it.current == m[x].n); MUST((uintptr_t) it.current->value == (uintptr_t) x); for (int i = 0; i < m[x].nk; i++) q[qt++] = m[x].kids[i]; h = h * 31 + m[x].nk;
                kefir_result_t r = kefir_tree_iter_next(&mem, &it); if (qh < qt) MUST(r == KEFIR_OK); else { MUST(r == KEFIR_ITERATOR_END); MUST(it.current == NULL); } if (stop > 0) stop--; }
            MUST(kefir_tree_iter_free(&mem, &it) == KEFIR_OK); state(h);
        }
        if (R(4) == 0) { int x = R(n); struct kefir_tree_node *k = kefir_tree_first_child(m[x].n), *pr = NULL; for (int i = 0; i < m[x].nk; i++) { MUST(k == m[m[x].kids[i]].n); MUST(kefir_tree_prev_sibling(k) == pr); pr = k; k = kefir_tree_next_sibling(k); } MUST(k == NULL); if (x) MUST(m[x].n->parent == m[m[x].parent].n); }
    }
    MUST(kefir_tree_free(&mem, &root) == KEFIR_OK);
    for (int i = 0; i < n; i++) MUST(removed[i] == 1);
}

/* ------------------------------------------------------------------ trie */
static void t_trie(int ops) {
    struct kefir_trie t; static struct { struct kefir_trie *n; int64_t key[40]; int kid[40], nk; uintptr_t val; } m[N]; int n = 1;
    MUST(kefir_trie_init(&t, 11) == KEFIR_OK); m[0].n = &t; m[0].nk = 0; m[0].val = 11;
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; int x = R(n); int64_t key = R(3) ? (int64_t) R(12) : (int64_t) (rnd() << 32) >> R(33); int at = -1; struct kefir_trie_vertex *v = NULL;
        for (int i = 0; i < m[x].nk; i++) if (m[x].key[i] == key) at = i;
        if (R(2)) {
            if (n >= N - 1 || m[x].nk >= 39) continue;
            kefir_result_t r = kefir_trie_insert_vertex(&mem, m[x].n, key, 1000 + n, &v);
            if (at >= 0) { MUST(r == KEFIR_ALREADY_EXISTS); kefir_clear_error(); } else { MUST(r == KEFIR_OK); MUST(v && v->key == key); m[n].n = &v->node; m[n].nk = 0; m[n].val = 1000 + n; m[x].key[m[x].nk] = key; m[x].kid[m[x].nk++] = n++; }
        } else {
            kefir_result_t r = kefir_trie_at(m[x].n, key, &v);
            if (at >= 0) { MUST(r == KEFIR_OK); MUST(&v->node == m[m[x].kid[at]].n); MUST(v->node.value == m[m[x].kid[at]].val); MUST(v->key == key); } else { MUST(r == KEFIR_NOT_FOUND); kefir_clear_error(); }
        }
        state((uint64_t) n * 64 + m[x].nk);
    }
    MUST(t.value == 11); MUST(kefir_trie_free(&mem, &t) == KEFIR_OK);
}

/* ------------------------------------------------------------------ string buffer */
struct cp { uint32_t c; bool raw; };
static size_t enc(int mode, const struct cp *s, int n, unsigned char *o) {
    size_t k = 0;
    for (int i = 0; i < n; i++) { uint32_t c = s[i].c;
        if (mode <= KEFIR_STRING_BUFFER_UNICODE8) {
            if (s[i].raw) { o[k++] = c; continue; }
            if (c < 0x80) o[k++] = c; else if (c < 0x800) { o[k++] = 0xc0 | c >> 6; o[k++] = 0x80 | (c & 63); } else if (c < 0x10000) { o[k++] = 0xe0 | c >> 12; o[k++] = 0x80 | (c >> 6 & 63); o[k++] = 0x80 | (c & 63); }
            else { o[k++] = 0xf0 | c >> 18; o[k++] = 0x80 | (c >> 12 & 63); o[k++] = 0x80 | (c >> 6 & 63); o[k++] = 0x80 | (c & 63); }
        } else if (mode == KEFIR_STRING_BUFFER_UNICODE16) {
            uint16_t u[2] = {c}; int w = 1; if (c > 0xffff) { u[0] = 0xd800 + ((c - 0x10000) >> 10); u[1] = 0xdc00 + ((c - 0x10000) & 1023); w = 2; } memcpy(o + k, u, 2 * w); k += 2 * w;
        } else { memcpy(o + k, &c, 4); k += 4; } }
    return k;
}
static void s_check(struct kefir_string_buffer *b, int mode, struct cp *s, int n) {
    static unsigned char want[1 << 15]; size_t k = enc(mode, s, n, want); unsigned u = mode <= 1 ? 1 : mode == 2 ? 2 : 4; memset(want + k, 0, u);
    kefir_size_t len = 0; const void *v = kefir_string_buffer_value(b, &len);
    if (len != k / u + 1) BAD("string length %zu instead of %zu in mode %d", (size_t) len, k / u + 1, mode);
    if (memcmp(v, want, k + u)) BAD("string content in mode %d", mode);
    state(k * 8 + mode);
}
static uint32_t rcp(void) { switch (R(8)) { case 0: return 0x80 + R(0x780); case 1: return 0x800 + R(0xd000); case 2: return 0x10000 + R(0x100000); case 3: return (uint32_t[]){0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xe000, 0xd7ff}[R(10)]; default: return 1 + R(0x7e); } }
static void t_string(int ops) {
    static struct cp s[2][3000]; struct kefir_string_buffer b[2]; int mode[2], n[2] = {0, 0};
    for (int k = 0; k < 2; k++) { mode[k] = R(5); MUST(kefir_string_buffer_init(&mem, &b[k], mode[k]) == KEFIR_OK); s_check(&b[k], mode[k], s[k], 0); }
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; int k = R(2);
        switch (R(12)) {
            default: if (n[k] < 1200) { uint32_t c = rcp(); MUST(kefir_string_buffer_insert(&mem, &b[k], c) == KEFIR_OK); s[k][n[k]++] = (struct cp){c, false}; } break;
            case 0: if (n[k] < 1200) { uint64_t mx = mode[k] <= 1 ? 0xff : mode[k] == 2 ? 0xffff : mode[k] == 3 ? 0xffffffffull : 0x7fffffff; uint64_t c = R(3) ? R(0x80) : mode[k] >= 2 ? 0x20 + R(0xd000) : 1 + R(0x7f); if (R(12) == 0) c = mx + 1 + R(5);
                kefir_result_t r = kefir_string_buffer_insert_raw(&mem, &b[k], c); if (c > mx) { MUST(r == KEFIR_OUT_OF_BOUNDS); kefir_clear_error(); } else { MUST(r == KEFIR_OK); s[k][n[k]++] = (struct cp){c, false}; } } break;
            case 1: if (n[k] + n[!k] < 2500 && R(3) == 0) { MUST(kefir_string_buffer_merge(&mem, &b[k], &b[!k]) == KEFIR_OK); memcpy(s[k] + n[k], s[!k], n[!k] * sizeof **s); n[k] += n[!k]; } break;
            case 2: if (R(6) == 0 && mode[k] == KEFIR_STRING_BUFFER_MULTIBYTE) { int nm = R(5); MUST(kefir_string_buffer_convert(&mem, &b[k], nm) == KEFIR_OK); mode[k] = nm; }
                else if (mode[k] != KEFIR_STRING_BUFFER_MULTIBYTE && R(3) == 0) { MUST(kefir_string_buffer_convert(&mem, &b[k], R(5)) == KEFIR_INVALID_PARAMETER); kefir_clear_error(); } break;
            case 3: if (R(20) == 0) { MUST(kefir_string_buffer_free(&mem, &b[k]) == KEFIR_OK); mode[k] = R(5); n[k] = 0; MUST(kefir_string_buffer_init(&mem, &b[k], mode[k]) == KEFIR_OK); } break;
        }
        s_check(&b[k], mode[k], s[k], n[k]); if (o % 16 == 0) s_check(&b[!k], mode[!k], s[!k], n[!k]);
    }
    for (int k = 0; k < 2; k++) MUST(kefir_string_buffer_free(&mem, &b[k]) == KEFIR_OK);
}

/* ------------------------------------------------------------------ block tree */
static int binit[N], brem[N]; static size_t bsz; static size_t bids[N]; static int nb;
static int bidx(size_t id) { for (int i = 0; i < nb; i++) if (bids[i] == id) return i; BAD("callback for a block id that was never requested"); }
static kefir_result_t b_in(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *p, void *d) { MUST(d == (void *) 80); memset(p, (int) (id * 7 + 1), bsz); binit[bidx(id)]++; return KEFIR_OK; }
static kefir_result_t b_rm(struct kefir_mem *m, struct kefir_block_tree *t, kefir_size_t id, void *p, void *d) { MUST(d == (void *) 81); unsigned char *q = p; for (size_t i = 0; i < bsz; i++) MUST(q[i] == (unsigned char) (id * 7 + 1)); brem[bidx(id)]++; return KEFIR_OK; }
static void t_block(int ops) {
    struct kefir_block_tree t; bsz = (size_t[]){1, 2, 8, 16, 64, 1 << R(10)}[R(6)]; nb = 6 + R(60); void *ptr[N] = {0}; memset(binit, 0, sizeof binit); memset(brem, 0, sizeof brem);
    for (int i = 0; i < nb; i++) { bool dup; do { bids[i] = R(2) ? R(200) : R(3) ? i : R(1u << 30); dup = false; for (int j = 0; j < i; j++) if (bids[j] == bids[i]) dup = true; } while (dup); }
    MUST(kefir_block_tree_init(&t, bsz) == KEFIR_OK); MUST(kefir_block_tree_on_block_init(&t, b_in, (void *) 80) == KEFIR_OK); MUST(kefir_block_tree_on_block_removal(&t, b_rm, (void *) 81) == KEFIR_OK);
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; int i = R(nb); void *p = NULL;
        switch (R(5)) {
            case 0: { kefir_result_t r = kefir_block_tree_get_block(&t, bids[i], &p); if (ptr[i]) { MUST(r == KEFIR_OK && p == ptr[i]); } else { MUST(r == KEFIR_NOT_FOUND); kefir_clear_error(); } } break;
            case 1: MUST(kefir_block_tree_block(&mem, &t, bids[i], &p) == KEFIR_OK); MUST(p); if (ptr[i]) MUST(p == ptr[i]); else ptr[i] = p; MUST(binit[i] == 1); kefir_clear_error(); for (size_t j = 0; j < bsz; j++) MUST(((unsigned char *) p)[j] == (unsigned char) (bids[i] * 7 + 1)); break;
            case 2: { size_t pos = rnd() >> R(60), b = 0, of = 0; MUST(kefir_block_tree_get_block_offset(&t, pos, &b, &of) == KEFIR_OK); MUST(b == pos / bsz && of == pos % bsz); } break;
            default: { struct kefir_block_tree_iterator it; MUST(kefir_block_tree_iter(&t, &it) == KEFIR_OK); size_t lo = 0; uint64_t h = 1; int guard = 0;
                for (;;) { /* the next block in ascending order */ MUST(guard++ <= nb); int best = -1; for (int j = 0; j < nb; j++) if (ptr[j] && bids[j] >= lo && (best < 0 || bids[j] < bids[best])) best = j;
                    if (best < 0) { MUST(it.block == NULL); break; } MUST(it.block == ptr[best]); MUST(it.block_id == bids[best]); h = h * 31 + best;
                    if (R(4) == 0) { size_t pos = R(3) ? (bids[best] + R(40)) * bsz + R(bsz) : bids[R(nb)] * bsz + R(bsz); MUST(kefir_block_tree_iter_skip_to(&t, &it, pos) == KEFIR_OK); if (pos / bsz > bids[best]) lo = pos / bsz; else { lo = bids[best]; } }
                    else { MUST(kefir_block_tree_next(&it) == KEFIR_OK); lo = bids[best] + 1; } if (guard > nb - 1 && it.block) { guard = 0; MUST(kefir_block_tree_next(&it) == KEFIR_OK); int bb = -1; for (int j = 0; j < nb; j++) if (ptr[j] && bids[j] >= lo && (bb < 0 || bids[j] < bids[bb])) bb = j; MUST(bb >= 0); lo = bids[bb] + 1; } }
                state(h); } break;
        }
    }
    MUST(kefir_block_tree_free(&mem, &t) == KEFIR_OK);
    for (int i = 0; i < nb; i++) { MUST(binit[i] == (ptr[i] != NULL)); MUST(brem[i] == (ptr[i] != NULL)); }
}

/* ------------------------------------------------------------------ symbol table */
static void t_symbols(int ops) {
    struct kefir_symbol_table t; static char name[N][40]; static const char *canon[N]; long id[N]; int n = 5 + R(120); int known = 0; bool used[4096] = {0};
    for (int i = 0; i < n; i++) { int len = 1 + R(6); do { name[i][0] = 0; for (int j = 0; j < len; j++) strcat(name[i], (const char *[]){"Aa", "BB", "x", "_", "\xc3\xa9", "0"}[R(6)]); int d = 0; for (int j = 0; j < i; j++) if (!strcmp(name[i], name[j])) d = 1; if (!d) break; len = 1 + R(15); } while (1); canon[i] = NULL; }
    MUST(kefir_symbol_table_init(&t) == KEFIR_OK);
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; int i = R(n); kefir_id_t x = 12345678; char buf[40]; strcpy(buf, name[i]);
        if (R(2)) { const char *p = kefir_symbol_table_insert(&mem, &t, buf, R(5) ? &x : NULL); kefir_clear_error(); memset(buf, 'z', 39); MUST(p && p != buf && !strcmp(p, name[i])); if (canon[i]) { MUST(p == canon[i]); if (x != 12345678 && id[i] >= 0) MUST((long) x == id[i]); } else { canon[i] = p; known++; id[i] = -1; }
            if (x != 12345678) { if (id[i] < 0) { MUST(x < 4096 && !used[x]); used[x] = true; id[i] = x; } } }
        else if (canon[i] && id[i] >= 0) { MUST(kefir_symbol_table_get(&t, id[i]) == canon[i]); }
        else { MUST(kefir_symbol_table_get(&t, n + 5000 + R(100)) == NULL); kefir_clear_error(); }
        MUST(!canon[i] || !strcmp(canon[i], name[i])); state((uint64_t) known * 4096 + i);
    }
    MUST(kefir_symbol_table_free(&mem, &t) == KEFIR_OK);
}

/* ------------------------------------------------------------------ char32 helpers */
static void t_char32(int ops) {
    for (int o = 0; o < ops; o++) {
        opno = o; ops_done++; uint32_t c = R(2) ? R(0x180) : rcp(); bool dig = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13), hex = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), nd = c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
        MUST(!!kefir_isdigit32(c) == dig); MUST(!!kefir_isspace32(c) == sp); MUST(!!kefir_ishexdigit32(c) == hex); MUST(!!kefir_isoctdigit32(c) == (c >= '0' && c <= '7')); MUST(!!kefir_isnondigit32(c) == nd);
        if (hex) MUST(kefir_hex32todec(c) == (dig ? c - '0' : (c | 32) - 'a' + 10));
        kefir_char32_t a[12] = {0}, b[12] = {0}; unsigned la = R(10), lb = R(10); for (unsigned i = 0; i < la; i++) a[i] = 1 + R(3); for (unsigned i = 0; i < lb; i++) b[i] = 1 + R(3); if (R(3) == 0) { memcpy(b, a, sizeof a); lb = la; if (R(2) && la) b[R(la)] ^= 0x10400; }
        MUST(kefir_strlen32(a) == la); int want = 0; for (unsigned i = 0; i < 12; i++) if (a[i] != b[i]) { want = a[i] < b[i] ? -1 : 1; break; } int got = kefir_strcmp32(a, b); MUST((got > 0) - (got < 0) == want);
        state(c);
    }
}

int main(int argc, char **argv) {
    setlocale(LC_ALL, "C.UTF-8"); kind = argv[1]; seed0 = strtoull(argv[2], 0, 10); long h = atol(argv[3]); int ops = atoi(argv[4]);
    static const struct { const char *n; void (*f)(int); } T[] = {{"list", t_list}, {"vector", t_vector}, {"hashtree", t_hashtree}, {"tree", t_tree}, {"trie", t_trie}, {"string", t_string}, {"block", t_block}, {"symbols", t_symbols}, {"char32", t_char32}};
    for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(T[i].n, kind)) {
        for (hist = 0; hist < h; hist++) { S = seed0 * 1000003 + hist * 7919; live = 0; T[i].f(1 + R(ops)); opno = -1; if (live) BAD("%ld blocks still held after everything has been freed", live); }
        printf("ok %ld %ld %ld\n", h, ops_done, states); return 0; }
    return 2;
}
