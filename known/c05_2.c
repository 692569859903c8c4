/* members after a zero-width bit-field start at the boundary of its type */
struct a { char a : 3; int : 0; };
struct b { char a : 3; int : 0; char c; };
int main(void) { B(0); T(0, sizeof(struct a)); T(1, sizeof(struct b)); END(); return 0; }
