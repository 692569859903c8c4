struct s { float f; unsigned long b : 64; };
int callee(struct s x);
//--caller
//--body
struct s x; x.f = 1.5f; x.b = 7; callee(x);
//--callee
int callee(struct s x) { TF(1, x.f); T(2, x.b); return 0; }
