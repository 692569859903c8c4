static int f(int n, int m, int b[][m]) { return b[n - 1][m - 1]; }
int main(void) { int a[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } }; B(0); T(1, f(2, 3, a)); END(); return 0; }
