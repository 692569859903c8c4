static int *h = (int[]) { 4, 5, 6 };
int main(void) { B(0); T(1, h[2]); END(); return 0; }
