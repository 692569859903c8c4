inline int sq(int a) { return a * a; }
int use(int a) { return sq(a) + 1; }
