/* sizeof and _Alignof have type int */
int main(void) {
    B(0); T(0, _Generic(sizeof(int), unsigned long: 1, int: 2, default: 3)); T(1, _Generic(_Alignof(int), unsigned long: 1, int: 2, default: 3));
    T(2, -1 < sizeof(int)); END();
    return 0;
}
