static struct { short s; long b : 63; } x = { 1, 0x6d8ee0ae68f2affell };
int main(void) { T(1, x.s); T(2, x.b); END(); return 0; }
