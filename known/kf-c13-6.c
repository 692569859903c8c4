#define X 1
#define S(a) #a
#define C(a, b) a##b
S(X) C(X, 2)
