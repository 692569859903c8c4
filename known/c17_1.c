int _Alignas(16) f = 1.5 << 2;
