#define W(x) L ## x
W("abc")
