#define S(x) #x
S(<: %>)
