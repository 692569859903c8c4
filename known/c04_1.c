/* a switch whose value matches no case label leaves its value on the stack: 8 bytes leak per execution */
int main(void) {
    volatile long i;
    long s = 0;
    for (i = 0; i < 3000000; i++) {
        switch (i) { case -1: s++; break; }
        switch (i) { case -1: s++; break; default: s += 2; }
    }
    B(0); T(0, s); END();
    return 0;
}
