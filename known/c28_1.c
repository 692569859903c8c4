int main(void) { struct s_ { char c[3]; }; B(0); { struct s_; struct s_ *q = 0; struct s_ { char c[9]; }; T(1, sizeof *q); } END(); return 0; }
