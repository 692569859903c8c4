#define S(x) #x
S('\x41' "\101")
