int main(void) { int m = (int) I(3); short a[2][m]; short (*p)[m] = a; B(0); p[1][2] = 7; T(1, a[1][2]); END(); return 0; }
