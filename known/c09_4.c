int main(void) {
    struct { int a; struct { char b; int c; }; } x = { 1, 2, 3, .a = 4, { 5 } };
    T(1, x.a); T(2, x.b); T(3, x.c);
    END();
    return 0;
}
