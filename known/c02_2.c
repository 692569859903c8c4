int main(void) {
    double z = -0.0;
    float f = -0.0f;
    T(1, !z); T(2, z && 1); T(3, z || 0); T(4, z ? 1 : 0);
    T(5, !f); T(6, f && 1); T(7, f || 0); T(8, f ? 1 : 0);
    END();
    return 0;
}
