/* Work done inside signal handlers; compiled by the compiler under test. */
struct small { int a; double b; };
struct big { long a[9]; char c; };
static struct small mk(int x, double y) { struct small s; s.a = x * 3; s.b = y / 2; return s; }
static struct big mb(struct small s, long k) { struct big b; int i; for (i = 0; i < 9; i++) b.a[i] = k * i - s.a; b.c = (char) s.b; return b; }
static long va(int n, ...) { __builtin_va_list ap; long s = 0; __builtin_va_start(ap, n); while (n--) s = s * 31 + __builtin_va_arg(ap, int); __builtin_va_end(ap); return s; }
static unsigned rec(unsigned n) { unsigned pad[8]; unsigned i; for (i = 0; i < 8; i++) pad[i] = n * 2654435761u + i; return n == 0 ? pad[3] : rec(n - 1) ^ pad[n & 7]; }
static _Thread_local unsigned tl = 1;
static unsigned long long fold(const void *p, unsigned long n) { const unsigned char *c = p; unsigned long long h = 5381; while (n--) h = h * 33 + *c++; return h; }
unsigned long long vf_handler(unsigned k) {
    switch (k) {
        case 0: { unsigned long long x = 0x123456789abcdefull, s = 0; int i; for (i = 0; i < 6; i++) { s += x % (unsigned) (i + 7) * (x >> i) - (x << i) / 3; x ^= s; } return s; }
        case 1: { double d = 1.5, e = -0.75; float f = 3.25f; int i; for (i = 1; i < 6; i++) { d = d * e + i; e = e / d - f; f = (float) (d - e) * 0.5f; } return (unsigned long long) (long long) (d * 1000 + f); }
        case 2: { long double l = 1.25L, m = 3; int i; for (i = 1; i < 5; i++) { l = l * m - i; m = m / l + (long double) i; } return (unsigned long long) (long long) (l * 100000 + m * 100); }
        case 3: { struct big b = mb(mk(7, 9.0), 12345); b.a[3] += b.c; return fold(b.a, sizeof b.a); }
        case 4: return (unsigned long long) va(5, 1, -2, 3, 44, 5) + (unsigned long long) va(8, 9, 8, 7, 6, 5, 4, 3, 2);
        case 5: return rec(9);
        case 6: { int n = 5, i; long v[n + 3]; unsigned long long s = 0; for (i = 0; i < n + 3; i++) v[i] = i * 1001l - 7; for (i = 0; i < n + 3; i++) s = s * 17 + (unsigned long long) v[i]; tl = tl ^ 0; return s + tl; }
        default: { struct { unsigned a : 3; int b : 11; unsigned long long c : 40; } f = { 5, -600, 0x1234567890ull }; char t[40]; int i; for (i = 0; i < 40; i++) t[i] = (char) (i * f.a); f.b += 77; f.c ^= 0x55; return fold(t, 40) + (unsigned long long) f.b + f.c; }
    }
}
