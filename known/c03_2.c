/* constant cast to float is not rounded: truth value of (float) 1e-50 */
int a = !(float) 1e-50;
int main(void) { B(0); T(0, a); END(); return 0; }
