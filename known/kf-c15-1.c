int caf\u00e9 = 1;
int main(void) { return caf\u00e9; }
