/* _Alignas is validated against the type specifier instead of the declared type: rejected */
struct s { _Alignas(16) void *p; int q; };
int main(void) { B(0); T(0, sizeof(struct s)); END(); return 0; }
