int main(void) { int n = (int) I(2), m = (int) I(3); short a[n][m]; short (*p)[m]; p = a; m = 60; B(0); T(1, sizeof a[0]); T(2, sizeof *p); T(3, (char *) (p + 1) - (char *) p); END(); return 0; }
