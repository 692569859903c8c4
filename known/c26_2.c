static int two(int x, int y) { return x * 100 + y; }
int main(void) {
    T(1, two(28, ({ int k = 0; for (int i = 0; i < 3; i++) { k += two(1, ({ if (i == 1) continue; 1; })); } k; })));
    END();
    return 0;
}
