static double pick(int c, int i, double d) { return c ? i : d; }
static double pickf(int c, float i, double d) { return c ? i : d; }
int main(void) {
    TD(1, pick(1, 3, 2.5));
    TD(2, pickf(1, 3.5f, 2.5));
    END();
    return 0;
}
