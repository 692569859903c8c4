static struct { int x; int a[3]; } s; static int m[3][4]; static int *p = s.a, *q = m[1];
int main(void) { B(0); T(1, (char *) p - (char *) &s); T(2, (char *) q - (char *) m); END(); return 0; }
