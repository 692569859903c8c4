inline int sq(int a) { return a * a; }
extern int sq(int a);
int use(int);
int main(void) { B(0); T(1, sq(5)); T(2, use(3)); END(); return 0; }
