#define S(x) #x
S(a   b)
