#define P(x, y) x ## y
P(., 5) P(1, .)
