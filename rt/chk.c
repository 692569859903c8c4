/* Event recorder linked into every monitored program.  Compiled by the system compiler;
   the program under observation reports (id, value) events through fixed-argument calls. */
#include <stddef.h>
#include <unistd.h>
#include <string.h>
static char buf[1 << 16];
static size_t n;
static unsigned long total;
void chk_flush(void) {
    size_t o = 0;
    while (o < n) {
        ssize_t r = write(1, buf + o, n - o);
        if (r <= 0) break;
        o += (size_t) r;
    }
    n = 0;
}
static void room(size_t k) {
    if (n + k > sizeof buf) chk_flush();
}
static void hex(unsigned long long v) {
    char t[16];
    int k = 0;
    do { t[k++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
    while (k) buf[n++] = t[--k];
}
static void head(char c, long id) {
    room(256);
    if (++total > 2000000) { chk_flush(); _exit(97); }
    buf[n++] = c;
    if (id < 0) { buf[n++] = '-'; id = -id; }
    hex((unsigned long long) id);
    buf[n++] = ' ';
}
static void tail(void) { buf[n++] = '\n'; }
void T(long id, unsigned long long v) { head('T', id); hex(v); tail(); }
/* stack-depth monitor: distance between the caller's stack pointer and a local of its frame is constant per site */
static long spm[4096];
void SPM(long id, const void *anchor) {
    long d = (const char *) anchor - (const char *) __builtin_frame_address(0);
    if (id < 0 || id >= 4096) return;
    if (!spm[id]) spm[id] = d;
    if (spm[id] != d) { T(id, 0xbad5bad5ul); spm[id] = d; }
}
void B(long id) { memset(spm, 0, sizeof spm); head('#', id); tail(); chk_flush(); }
void TF(long id, float v) {
    unsigned u; memcpy(&u, &v, 4);
    head('F', id);
    if (v != v) { memcpy(buf + n, "nan", 3); n += 3; } else hex(u);
    tail();
}
void TD(long id, double v) {
    unsigned long u; memcpy(&u, &v, 8);
    head('D', id);
    if (v != v) { memcpy(buf + n, "nan", 3); n += 3; } else hex(u);
    tail();
}
void TL(long id, long double v) {
    unsigned long u; unsigned short e; memcpy(&u, &v, 8); memcpy(&e, (char *) &v + 8, 2);
    head('L', id);
    if (v != v) { memcpy(buf + n, "nan", 3); n += 3; } else { hex(e); buf[n++] = ':'; hex(u); }
    tail();
}
void TB(long id, const void *p, unsigned long len) {
    const unsigned char *c = p;
    head('M', id);
    for (unsigned long i = 0; i < len; i++) {
        room(8);
        buf[n++] = "0123456789abcdef"[c[i] >> 4];
        buf[n++] = "0123456789abcdef"[c[i] & 15];
    }
    room(8);
    tail();
}
void TS(long id, const char *s) {
    head('S', id);
    for (; *s; s++) {
        room(16);
        unsigned char c = (unsigned char) *s;
        if (c >= 33 && c < 127 && c != '\\') buf[n++] = (char) c;
        else { buf[n++] = '\\'; buf[n++] = "0123456789abcdef"[c >> 4]; buf[n++] = "0123456789abcdef"[c & 15]; }
    }
    room(8);
    tail();
}
/* opaque identities: keep the reference compiler from folding */
volatile int chk_zero = 0;
long long I(long long v) { return v + chk_zero; }
unsigned long long U(unsigned long long v) { return v + (unsigned) chk_zero; }
double D(double v) { volatile double x = v; return x; }
float F(float v) { volatile float x = v; return x; }
long double L(long double v) { volatile long double x = v; return x; }
void *P(void *p) { return (char *) p + chk_zero; }
void END(void) { head('E', 0); tail(); chk_flush(); }
