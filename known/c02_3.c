int main(void) {
    float a = 0.5f; double b = -0.25; long double c = 0.125L;
    _Bool x = a, y = b, z = c;
    T(1, x); T(2, y); T(3, z); T(4, (_Bool) 0.5);
    END();
    return 0;
}
