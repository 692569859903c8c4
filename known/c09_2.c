static struct { unsigned short m[2]; } x = { u"a", .m[1] = 3 };
static char y[][3] = { [1] = { 6 }, "Z", [2] = { 7 } };
int main(void) { T(1, x.m[0]); T(2, x.m[1]); T(3, y[2][0]); T(4, y[2][1]); END(); return 0; }
