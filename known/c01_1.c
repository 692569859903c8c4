int main(void) {
    unsigned long long a = 0x8000000000000001ull;
    a %= 7;
    T(1, a);
    unsigned long b = 0x8000000000000000ul;
    b >>= 4;
    T(2, b);
    END();
    return 0;
}
