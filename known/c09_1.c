static int a[2][3] = { { 1, 2, 3 }, [0] = { 4 } };
static struct { short s; long t; } b[1] = { { 1, 2 }, [0] = { .t = 3 } };
int main(void) {
    T(1, a[0][0]); T(2, a[0][1]); T(3, a[0][2]);
    T(4, b[0].s); T(5, b[0].t);
    END();
    return 0;
}
