union u { _Alignas(16) int a; };
static int f(union u x) { return x.a; }
int main(void) { union u v = { 7 }; T(1, f(v)); END(); return 0; }
