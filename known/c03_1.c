/* constant conditional of floating type with an unsigned operand above 2^63 */
double d = 1 ? 0xffffffffffffffffull : 1.0;
int main(void) { B(0); TD(0, d); END(); return 0; }
