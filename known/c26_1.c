static int two(int x, int y) { return x * 100 + y; }
int main(void) {
    unsigned l = 2;
    T(1, two(28, ({ switch (l) { case 0: l++; break; default: l = 5; } 7; })));
    END();
    return 0;
}
