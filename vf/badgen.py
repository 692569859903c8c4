"""Invalid fragments: each violates one syntax rule or constraint of C17 at the line carrying the marker /*!*/.
Upper-case words in {} are filled at random.  ("B": inside a function body, "F": at file scope)"""

CTX = """struct s20 { int m; char c; struct s20 *n; unsigned b:3; }; union u20 { int i; float f; }; enum e20 { EA, EB };
typedef struct s20 t20; struct inc20; extern int arr20[4]; int fn20(int a, char *b); void vf20(void); extern const int k20; extern struct s20 st20; extern union u20 un20;
extern void *vp20; extern int *ip20; extern double d20; extern float f20; extern int i20; extern unsigned u20v; extern char *cp20; int fnk20(); extern int (*fp20)(int); int vfn20(int, ...); struct s20 sfn20(void);
"""

T = [
 # --- expressions
 ("undeclared identifier", "B", "{IV} = {IE} + undeclared{N}; /*!*/"),
 ("undeclared callee", "B", "{IV} = undeclared{N}({IE}); /*!*/"),
 ("assignment to rvalue", "B", "({IE}) + 1 = 3; /*!*/"),
 ("assignment to constant", "B", "{C} = {IE}; /*!*/"),
 ("assignment to call", "B", "fn20(1, cp20) = 3; /*!*/"),
 ("assignment to array", "B", "arr20 = ip20; /*!*/"),
 ("assignment to function", "B", "fn20 = 0; /*!*/"),
 ("assignment to const", "B", "k20 = {IE}; /*!*/"),
 ("assignment to const local", "B", "const {ITY} kk{N} = 3; kk{N} = 4; /*!*/"),
 ("assignment through pointer to const", "B", "const int *pk{N} = ip20; *pk{N} = 4; /*!*/"),
 ("assignment to const member", "B", "const struct s20 ks{N} = st20; ks{N}.m = 4; /*!*/"),
 ("compound assignment to const", "B", "const int ck{N} = 1; ck{N} += 2; /*!*/"),
 ("increment of const", "B", "const int ik{N} = 1; ik{N}++; /*!*/"),
 ("increment of rvalue", "B", "({IE} + 1)++; /*!*/"),
 ("decrement of constant", "B", "--{C}; /*!*/"),
 ("increment of structure", "B", "st20++; /*!*/"),
 ("increment of function", "B", "++fn20; /*!*/"),
 ("address of rvalue", "B", "vp20 = &({IE} + 1); /*!*/"),
 ("address of constant", "B", "vp20 = &{C}; /*!*/"),
 ("address of bit-field", "B", "vp20 = &st20.b; /*!*/"),
 ("address of register", "B", "register int rg{N} = 1; vp20 = &rg{N}; /*!*/"),
 ("dereference of integer", "B", "{IV} = *i20; /*!*/"),
 ("dereference of structure", "B", "{IV} = *st20; /*!*/"),
 ("dereference of double", "B", "{IV} = *d20; /*!*/"),
 ("complement of double", "B", "{IV} = ~d20; /*!*/"),
 ("complement of pointer", "B", "{IV} = (int) ~ip20; /*!*/"),
 ("negation of pointer", "B", "ip20 = -ip20; /*!*/"),
 ("negation of structure", "B", "{IV} = -st20; /*!*/"),
 ("logical negation of structure", "B", "{IV} = !st20; /*!*/"),
 ("plus of pointer", "B", "ip20 = +ip20; /*!*/"),
 ("modulo of double", "B", "{IV} = {IE} % d20; /*!*/"),
 ("modulo of pointer", "B", "{IV} = ip20 % 2; /*!*/"),
 ("multiplication of pointer", "B", "{IV} = ip20 * 2; /*!*/"),
 ("division of structure", "B", "{IV} = st20 / 2; /*!*/"),
 ("shift of double", "B", "{IV} = d20 << 2; /*!*/"),
 ("shift by double", "B", "{IV} = {IE} >> f20; /*!*/"),
 ("bitwise and of double", "B", "{IV} = d20 & 2; /*!*/"),
 ("bitwise or of pointer", "B", "{IV} = ip20 | 2; /*!*/"),
 ("bitwise xor of structure", "B", "{IV} = st20 ^ 2; /*!*/"),
 ("addition of two pointers", "B", "ip20 = ip20 + ip20; /*!*/"),
 ("addition of structure", "B", "{IV} = st20 + 1; /*!*/"),
 ("addition of pointer and double", "B", "ip20 = ip20 + d20; /*!*/"),
 ("integer minus pointer", "B", "ip20 = {IE} - ip20; /*!*/"),
 ("difference of incompatible pointers", "B", "{IV} = ip20 - &d20; /*!*/"),
 ("arithmetic on pointer to incomplete", "B", "extern struct inc20 *ipp{N}; vp20 = ipp{N} + 1; /*!*/"),
 ("relational structure", "B", "{IV} = st20 < st20; /*!*/"),
 ("relational pointer and integer", "B", "{IV} = ip20 < {IE}; /*!*/"),
 ("equality of structures", "B", "{IV} = st20 == st20; /*!*/"),
 ("equality of incompatible pointers", "B", "{IV} = ip20 == &d20; /*!*/"),
 ("logical and of structure", "B", "{IV} = st20 && 1; /*!*/"),
 ("logical or of union", "B", "{IV} = 1 || un20; /*!*/"),
 ("logical and of void", "B", "{IV} = vf20() && 1; /*!*/"),
 ("conditional on structure", "B", "{IV} = st20 ? 1 : 2; /*!*/"),
 ("conditional of structure and integer", "B", "{IV} = i20 ? st20 : 2; /*!*/"),
 ("conditional of pointer and double", "B", "vp20 = i20 ? ip20 : d20; /*!*/"),
 ("conditional of incompatible pointers", "B", "vp20 = i20 ? ip20 : &d20; /*!*/"),
 ("assignment of structure to integer", "B", "{IV} = st20; /*!*/"),
 ("assignment of integer to structure", "B", "st20 = {IE}; /*!*/"),
 ("assignment of pointer to integer", "B", "{IV} = ip20; /*!*/"),
 ("assignment of pointer to double", "B", "d20 = ip20; /*!*/"),
 ("assignment of double to pointer", "B", "ip20 = d20; /*!*/"),
 ("assignment of incompatible pointer", "B", "ip20 = &d20; /*!*/"),
 ("assignment dropping const", "B", "ip20 = &k20; /*!*/"),
 ("assignment of other structure", "B", "st20 = un20; /*!*/"),
 ("assignment of void value", "B", "{IV} = vf20(); /*!*/"),
 ("initialization by void value", "B", "int iv{N} = vf20(); /*!*/"),
 ("initialization of integer by structure", "B", "int is{N} = st20; /*!*/"),
 ("initialization of pointer by incompatible pointer", "B", "int *pj{N} = &d20; /*!*/"),
 ("compound addition of structure", "B", "{IV} += st20; /*!*/"),
 ("compound shift of double", "B", "d20 <<= 2; /*!*/"),
 ("compound modulo of double", "B", "d20 %= 2; /*!*/"),
 ("compound multiplication of pointer", "B", "ip20 *= 2; /*!*/"),
 ("compound addition of pointers", "B", "ip20 += ip20; /*!*/"),
 ("missing member", "B", "{IV} = st20.nomember{N}; /*!*/"),
 ("missing member through pointer", "B", "{IV} = st20.n->nomember{N}; /*!*/"),
 ("member of integer", "B", "{IV} = i20.m; /*!*/"),
 ("member of pointer", "B", "{IV} = (&st20).m; /*!*/"),
 ("arrow on structure", "B", "{IV} = st20->m; /*!*/"),
 ("arrow on integer pointer", "B", "{IV} = ip20->m; /*!*/"),
 ("member of incomplete", "B", "extern struct inc20 *ipm{N}; {IV} = ipm{N}->m; /*!*/"),
 ("subscript of integer", "B", "{IV} = i20[1]; /*!*/"),
 ("subscript by double", "B", "{IV} = arr20[1.5]; /*!*/"),
 ("subscript by pointer", "B", "{IV} = arr20[ip20]; /*!*/"),
 ("call of integer", "B", "{IV} = i20(1); /*!*/"),
 ("call of structure", "B", "st20(); /*!*/"),
 ("call of object pointer", "B", "ip20(); /*!*/"),
 ("too few arguments", "B", "{IV} = fn20({IE}); /*!*/"),
 ("too many arguments", "B", "{IV} = fn20({IE}, cp20, 3); /*!*/"),
 ("arguments to no parameters", "B", "vf20({IE}); /*!*/"),
 ("too few arguments of variadic", "B", "{IV} = vfn20(); /*!*/"),
 ("structure argument", "B", "{IV} = fn20(st20, cp20); /*!*/"),
 ("incompatible pointer argument", "B", "{IV} = fn20(1, ip20); /*!*/"),
 ("pointer argument for integer", "B", "{IV} = fn20(cp20, cp20); /*!*/"),
 ("sizeof of function", "B", "{IV} = sizeof(fn20); /*!*/"),
 ("sizeof of incomplete", "B", "{IV} = sizeof(struct inc20); /*!*/"),
 ("sizeof of void", "B", "{IV} = sizeof(void); /*!*/"),
 ("sizeof of bit-field", "B", "{IV} = sizeof(st20.b); /*!*/"),
 ("_Alignof of incomplete", "B", "{IV} = _Alignof(struct inc20); /*!*/"),
 ("_Alignof of function", "B", "{IV} = _Alignof(int (void)); /*!*/"),
 ("cast to structure", "B", "st20 = (struct s20) {IE}; /*!*/"),
 ("cast to array", "B", "vp20 = (int [3]) ip20; /*!*/"),
 ("cast of structure", "B", "{IV} = (int) st20; /*!*/"),
 ("cast of double to pointer", "B", "ip20 = (int *) d20; /*!*/"),
 ("cast of pointer to double", "B", "d20 = (double) ip20; /*!*/"),
 ("cast of void to integer", "B", "{IV} = (int) vf20(); /*!*/"),
 ("generic without match", "B", "{IV} = _Generic(st20, int: 1, double: 2); /*!*/"),
 ("generic with two defaults", "B", "{IV} = _Generic(i20, default: 1, default: 2); /*!*/"),
 ("compound literal of function type", "B", "vp20 = &(int (void)) {{ 0 }}; /*!*/"),
 ("compound literal of incomplete type", "B", "vp20 = &(struct inc20) {{ 0 }}; /*!*/"),
 # --- statements
 ("break outside loop", "B", "break; /*!*/"),
 ("continue outside loop", "B", "continue; /*!*/"),
 ("continue in switch only", "B", "switch ({IE}) {{ case 1:\ncontinue; /*!*/\n}}"),
 ("case outside switch", "B", "case 1: {IV} = 2; /*!*/"),
 ("default outside switch", "B", "default: {IV} = 2; /*!*/"),
 ("duplicate case", "B", "switch ({IE}) {{ case 1: break; case 2: break;\ncase {C1}: break; /*!*/\n}}"),
 ("duplicate default", "B", "switch ({IE}) {{ default: break; case 2: break;\ndefault: break; /*!*/\n}}"),
 ("non-constant case", "B", "switch ({IE}) {{\ncase i20: break; /*!*/\n}}"),
 ("floating case", "B", "switch ({IE}) {{\ncase 1.5: break; /*!*/\n}}"),
 ("switch on double", "B", "switch (d20) {{ /*!*/\ncase 1: break; }}"),
 ("switch on pointer", "B", "switch (ip20) {{ /*!*/\ncase 1: break; }}"),
 ("switch on structure", "B", "switch (st20) {{ /*!*/\ncase 1: break; }}"),
 ("if on structure", "B", "if (st20) /*!*/\n{IV} = 1;"),
 ("if on void", "B", "if (vf20()) /*!*/\n{IV} = 1;"),
 ("while on structure", "B", "while (un20) /*!*/\n{IV} = 1;"),
 ("do while on structure", "B", "do {IV} = 1;\nwhile (st20); /*!*/"),
 ("for on structure", "B", "for (; st20;) /*!*/\n{IV} = 1;"),
 ("goto undefined label", "B", "if (i20)\ngoto nolabel{N}; /*!*/"),
 ("duplicate label", "B", "dl{N}: {IV} = 1;\ndl{N}: {IV} = 2; /*!*/"),
 ("label of other function", "F", "void lf{N}(void) {{ ll{N}: ; }} void lg{N}(void) {{\ngoto ll{N}; /*!*/\n}}"),
 ("return value from void function", "F", "void rv{N}(void) {{\nreturn 1; /*!*/\n}}"),
 ("return without value", "F", "int rw{N}(void) {{\nreturn; /*!*/\n}}"),
 ("return of structure as integer", "F", "int rs{N}(void) {{\nreturn st20; /*!*/\n}}"),
 ("return of incompatible pointer", "F", "int *rp{N}(void) {{\nreturn &d20; /*!*/\n}}"),
 ("jump into scope of variable length array", "B", "if (i20)\ngoto vl{N}; /*!*/\nint vla{N}[i20 + 1]; vl{N}: ;"),
 # --- declarations
 ("redeclaration in block", "B", "int rd{N} = 1;\nint rd{N} = 2; /*!*/"),
 ("redeclaration with other type", "F", "extern int rt{N};\nextern double rt{N}; /*!*/"),
 ("redeclaration of function with other type", "F", "int rf{N}(int);\nint rf{N}(double); /*!*/"),
 ("redeclaration of function with other result", "F", "int rr{N}(int);\nvoid rr{N}(int); /*!*/"),
 ("redeclaration as other kind", "F", "int rk{N}(int);\nextern int rk{N}; /*!*/"),
 ("redefinition of function", "F", "int df{N}(void) {{ return 1; }}\nint df{N}(void) {{ return 2; }} /*!*/"),
 ("redefinition of object", "F", "int dd{N} = 1;\nint dd{N} = 1; /*!*/"),
 ("redefinition of typedef", "F", "typedef int dt{N};\ntypedef double dt{N}; /*!*/"),
 ("typedef and object", "F", "typedef int do{N};\nint do{N}; /*!*/"),
 ("redefinition of structure", "F", "struct ds{N} {{ int a; }};\nstruct ds{N} {{ int a; }}; /*!*/"),
 ("redefinition of union", "F", "union du{N} {{ int a; }};\nunion du{N} {{ int a; }}; /*!*/"),
 ("redefinition of enumeration", "F", "enum de{N} {{ DEA{N} }};\nenum de{N} {{ DEB{N} }}; /*!*/"),
 ("redefinition of enumerator", "F", "enum {{ DC{N} = 1 }};\nenum {{ DC{N} = 2 }}; /*!*/"),
 ("enumerator twice", "F", "enum {{ DX{N}, DY{N},\nDX{N} }}; /*!*/"),
 ("tag of other kind", "F", "struct tk{N} {{ int a; }};\nunion tk{N} *tkp{N}; /*!*/"),
 ("duplicate member", "F", "struct dm{N} {{ int a;\nint a; /*!*/\n}};"),
 ("member of incomplete type", "F", "struct mi{N} {{\nstruct inc20 a; /*!*//*!!*/\n}};"),
 ("member of its own type", "F", "struct mo{N} {{\nstruct mo{N} a; /*!*//*!!*/\n}};"),
 ("member of function type", "F", "struct mf{N} {{\nint f(void); /*!*//*!!*/\n}};"),
 ("member of void type", "F", "struct mv{N} {{\nvoid f; /*!*//*!!*/\n}};"),
 ("bit-field too wide", "F", "struct bw{N} {{\nint a:33; /*!*/\n}};"),
 ("bit-field of negative width", "F", "struct bn{N} {{\nint a:-1; /*!*/\n}};"),
 ("named bit-field of width zero", "F", "struct bz{N} {{\nint a:0; /*!*//*!!*/\n}};"),
 ("bit-field of floating type", "F", "struct bf{N} {{\nfloat a:3; /*!*/\n}};"),
 ("bit-field of pointer type", "F", "struct bp{N} {{\nint *a:3; /*!*/\n}};"),
 ("bit-field of non-constant width", "F", "struct bc{N} {{\nint a:i20; /*!*/\n}};"),
 ("bit-field with alignment", "F", "struct ba{N} {{\n_Alignas(8) int a:3; /*!*//*!!*/\n}};"),
 ("object of incomplete type", "B", "struct inc20 oi{N}; /*!*/"),
 ("object of void type", "B", "void ov{N}; /*!*/"),
 ("array of functions", "B", "int af{N}[3](void); /*!*/"),
 ("array of void", "B", "void av{N}[3]; /*!*/"),
 ("array of incomplete", "B", "struct inc20 ai{N}[3]; /*!*/"),
 ("array of floating size", "B", "int aq{N}[2.5]; /*!*/"),
 ("array of pointer size", "B", "int ap{N}[ip20]; /*!*/"),
 ("array of unknown size", "B", "int au{N}[]; /*!*/"),
 ("array of incomplete arrays", "B", "int aa{N}[3][]; /*!*/"),
 ("variable length array at file scope", "F", "int vfa{N}[i20]; /*!*/"),
 ("static variable length array", "B", "static int vs{N}[i20]; /*!*/"),
 ("initialized variable length array", "B", "int vi{N}[i20] = {{ 1 }}; /*!*/"),
 ("function returning function", "F", "int ff{N}(void)(void); /*!*/"),
 ("function returning array", "F", "int fa{N}(void)[3]; /*!*/"),
 ("parameter of void type", "F", "int pv{N}(int a, void b) {{ return a; }} /*!*/"),
 ("parameter of incomplete type", "F", "int pi{N}(struct inc20 a) {{ return 1; }} /*!*/"),
 ("duplicate parameter", "F", "int pd{N}(int a, int a) {{ return a; }} /*!*/"),
 ("parameter redeclared in body", "F", "int pr{N}(int a) {{\nint a = 1; /*!*/\nreturn a; }}"),
 ("parameter with static storage", "F", "int ps{N}(static int a); /*!*/"),
 ("parameter with typedef storage", "F", "int pt{N}(typedef int a); /*!*/"),
 ("static assertion fails", "F", "_Static_assert(sizeof(int) == {C}00, \"m\"); /*!*/"),
 ("static assertion fails in block", "B", "_Static_assert(1 - 1, \"m\"); /*!*/"),
 ("static assertion not constant", "B", "_Static_assert(i20, \"m\"); /*!*/"),
 ("static assertion in structure", "F", "struct sa{N} {{ int a;\n_Static_assert(0, \"m\"); /*!*/\n}};"),
 ("extern with initializer in block", "B", "extern int ei{N} = 1; /*!*/"),
 ("static function in block", "B", "static int sf{N}(void); /*!*/"),
 ("register at file scope", "F", "register int rg{N}; /*!*/"),
 ("auto at file scope", "F", "auto int at{N}; /*!*/"),
 ("two storage classes", "B", "static extern int ts{N}; /*!*/"),
 ("typedef with static", "B", "typedef static int tt{N}; /*!*/"),
 ("inline on object", "F", "inline int io{N}; /*!*/"),
 ("noreturn on object", "F", "_Noreturn int no{N}; /*!*/"),
 ("thread local without static in block", "B", "_Thread_local int tl{N}; /*!*/"),
 ("thread local function", "F", "_Thread_local int tf{N}(void); /*!*/"),
 ("alignment on typedef", "F", "typedef _Alignas(8) int at{N}; /*!*/"),
 ("alignment on function", "F", "_Alignas(8) int al{N}(void); /*!*/"),
 ("alignment not a power of two", "F", "_Alignas(3) int ao{N}; /*!*/"),
 ("alignment weaker than natural", "F", "_Alignas(1) int aw{N}; /*!*/"),
 ("two type specifiers", "B", "int double td{N}; /*!*/"),
 ("signed double", "B", "signed double sd{N}; /*!*/"),
 ("unsigned float", "B", "unsigned float uf{N}; /*!*/"),
 ("long long long", "B", "long long long ll{N}; /*!*/"),
 ("short long", "B", "short long sl{N}; /*!*/"),
 ("signed unsigned", "B", "signed unsigned su{N}; /*!*/"),
 ("long char", "B", "long char lc{N}; /*!*/"),
 ("no type specifier at file scope", "F", "nt{N}; /*!*/"),
 ("typedef name with specifier", "B", "unsigned t20 tu{N}; /*!*/"),
 ("enumerator not constant", "F", "enum {{ EN{N} = i20 }}; /*!*/"),
 ("enumerator floating", "F", "enum {{ EF{N} = 1.5 }}; /*!*/"),
 ("flexible array not last", "F", "struct fl{N} {{ int a;\nint b[]; /*!*//*!!*/\nint c; }};"),
 ("flexible array alone", "F", "struct fm{N} {{ int b[]; }}; /*!*/"),
 ("static initializer not constant", "F", "int si{N} = i20; /*!*/"),
 ("static local initializer not constant", "B", "static int sl{N} = fn20(1, cp20); /*!*/"),
 ("static pointer initializer not constant", "F", "int *sp{N} = ip20; /*!*/"),
 ("designator of missing member", "B", "struct s20 dm{N} = {{ .nope{N} = 1 }}; /*!*/"),
 ("index designator in structure", "B", "struct s20 di{N} = {{ [0] = 1 }}; /*!*/"),
 ("member designator in array", "B", "int da{N}[3] = {{ .a = 1 }}; /*!*/"),
 ("index designator out of bounds", "B", "int db{N}[3] = {{ [3] = 1 }}; /*!*/"),
 ("negative index designator", "B", "int dc{N}[3] = {{ [-1] = 1 }}; /*!*/"),
 ("index designator not constant", "B", "int dd{N}[3] = {{ [i20] = 1 }}; /*!*/"),
 ("array initialized by scalar", "B", "int as{N}[3] = 1; /*!*/"),
 ("array initialized by array", "B", "int ar{N}[4] = arr20; /*!*/"),
 ("string for integer array", "B", "int sa{N}[4] = \"abc\"; /*!*/"),
 ("wide string for char array", "B", "char ws{N}[4] = L\"abc\"; /*!*/"),
 ("function with initializer", "F", "int fi{N}(void) = 1; /*!*/"),
 ("function defined in block", "B", "int fb{N}(void) {{ return 1; }} /*!*/"),
 ("redeclared without linkage", "B", "extern int rl{N};\nint rl{N}; /*!*/"),
 ("static after extern", "F", "extern int se{N};\nstatic int se{N}; /*!*/"),
 ("static function after extern", "F", "int sx{N}(void);\nstatic int sx{N}(void); /*!*/"),
 ("static function used but not defined incomplete array tentative", "F", "static int ta{N}[]; /*!*/"),
 # --- syntax
 ("missing semicolon", "B", "{IV} = {IE} /*!*//*!!*/\n{IV} = 2;"),
 ("missing closing parenthesis", "B", "{IV} = ({IE}; /*!*/"),
 ("missing operand", "B", "{IV} = {IE} + ; /*!*/"),
 ("two operands", "B", "{IV} = 1 2; /*!*/"),
 ("missing closing bracket", "B", "{IV} = arr20[1; /*!*/"),
 ("missing condition parenthesis", "B", "if {IE}) {IV} = 1; /*!*/"),
 ("missing while condition", "B", "while () {IV} = 1; /*!*/"),
 ("missing for semicolon", "B", "for ({IV} = 0; {IV} < 1) ; /*!*/"),
 ("do without while", "B", "do {IV} = 1; {IV} = 2; /*!*/"),
 ("else without if", "B", "else {IV} = 1; /*!*/"),
 ("goto without label", "B", "goto; /*!*/"),
 ("goto number", "B", "goto 5; /*!*/"),
 ("empty argument", "B", "fn20(1, , cp20); /*!*/"),
 ("missing colon", "B", "{IV} = i20 ? 1; /*!*/"),
 ("member without name", "B", "{IV} = st20.; /*!*/"),
 ("member number", "B", "{IV} = st20.5; /*!*/"),
 ("keyword as identifier", "B", "int while = 1; /*!*/"),
 ("declarator without name", "B", "int *; /*!*/" if False else "int * = 0; /*!*/"),
 ("declaration after if", "B", "if (i20) int q{N} = 1; /*!*/"),
 ("declaration after label", "B", "lb{N}: int q{N} = 1; /*!*/"),
 ("label at end of block", "B", "{{ {IV} = 1;\nle{N}: }} /*!*/"),
 ("stray closing parenthesis", "B", "{IV} = {IE}); /*!*/"),
 ("stray closing brace", "F", "}} /*!*/"),
 ("stray token at file scope", "F", "+ /*!*/\n;"),
 ("structure without semicolon", "F", "struct ns{N} {{ int a; }} /*!*/\nint nt{N}(void) {{ return 1; }} struct {{ int x; }} int;" if False else "struct ns{N} {{ int a }}; /*!*/"),
 ("missing comma in parameters", "F", "int mp{N}(int a int b); /*!*/"),
 ("trailing parameter comma", "F", "int tp{N}(int a, ); /*!*/"),
 ("ellipsis first", "F", "int el{N}(...); /*!*/"),
 ("ellipsis not last", "F", "int en{N}(int a, ..., int b); /*!*/"),
 ("array declarator unclosed", "B", "int au{N}[3; /*!*/"),
 ("unclosed initializer", "B", "int ui{N}[3] = {{ 1, 2; /*!*/"),
 ("enumeration empty", "F", "enum ee{N} {{ }}; /*!*/"),
 ("enumerator without comma", "F", "enum {{ EC{N} ED{N} }}; /*!*/"),
 ("sizeof without operand", "B", "{IV} = sizeof; /*!*/"),
 ("cast without operand", "B", "{IV} = (int); /*!*/"),
 ("assignment operator alone", "B", "= 5; /*!*/"),
 ("generic without association", "B", "{IV} = _Generic(i20); /*!*/"),
 ("static assertion without message separator", "F", "_Static_assert(1 \"m\"); /*!*/"),
 ("unknown type name", "B", "unknown{N} *uk{N}; int after{N}; uk{N} = 0; /*!*/"),
 ("unknown type in parameter", "F", "int ut{N}(unknown{N} a); /*!*/"),
 ("empty character constant", "B", "{IV} = ''; /*!*/"),
 ("unterminated string", "B", "cp20 = \"abc; /*!*/"),
 ("bad digit in octal", "B", "{IV} = 089; /*!*/"),
 ("bad integer suffix", "B", "{IV} = 12abc; /*!*/"),
 ("bad hexadecimal constant", "B", "{IV} = 0x; /*!*/"),
 ("bad exponent", "B", "d20 = 1e; /*!*/"),
 ("bad floating suffix", "B", "d20 = 1.5q7; /*!*/"),
 ("unknown escape", "B", "cp20 = \"\\q\"; /*!*/"),
 ("hexadecimal escape without digits", "B", "cp20 = \"\\xg\"; /*!*/"),
 ("stray backslash", "B", "{IV} = 1 \\ 2; /*!*/"),
 ("stray at sign", "B", "{IV} = 1 @ 2; /*!*/"),
 ("stray back quote", "B", "{IV} = ` ; /*!*/"),
 ("octal escape out of range", "B", "{IV} = '\\777'; /*!*/"),
 # --- preprocessor
 ("error directive", "F", "#error message{N} /*!*/"),
 ("missing header", "F", "#include \"nofile{N}.h\" /*!*/"),
 ("missing system header", "F", "#include <nofile{N}.h> /*!*/"),
 ("include without name", "F", "#include /*!*/"),
 ("else without if", "F", "#else /*!*/"),
 ("endif without if", "F", "#endif /*!*/"),
 ("elif without if", "F", "#elif 1 /*!*/"),
 ("if without expression", "F", "#if /*!*/\n#endif"),
 ("bad if expression", "F", "#if 1 + /*!*/\n#endif"),
 ("division by zero in if", "F", "#if 1 / 0 /*!*/\n#endif"),
 ("string in if expression", "F", "#if \"a\" /*!*/\n#endif"),
 ("assignment in if expression", "F", "#if a = 1 /*!*/\n#endif"),
 ("ifdef without name", "F", "#ifdef /*!*/\n#endif"),
 ("ifdef number", "F", "#ifdef 5 /*!*/\n#endif"),
 ("define without name", "F", "#define /*!*/"),
 ("define number", "F", "#define 5 6 /*!*/"),
 ("undef without name", "F", "#undef /*!*/"),
 ("macro parameter list unclosed", "F", "#define MU{N}(a, b /*!*/"),
 ("macro parameters with ellipsis in the middle", "F", "#define ME{N}(a, ..., b) a /*!*/"),
 ("too few macro arguments", "F", "#define MA{N}(a, b) a\nint ma{N} = MA{N}(1); /*!*/"),
 ("too many macro arguments", "F", "#define MB{N}(a, b) a\nint mb{N} = MB{N}(1, 2, 3); /*!*/"),
 ("paste forming no token", "F", "#define MC{N}(a, b) a ## b\nint mc{N} = MC{N}(+, 1); /*!*/"),
 ("line without number", "F", "#line /*!*/"),
 ("line with identifier", "F", "#line abc /*!*/"),
]

# constraint violations kefir accepts silently (documented in DESIGN.md); not part of the property
UNDIAGNOSED = ['pointer compared with integer', 'assignment of integer to pointer', 'initialization of pointer by integer', 'wrong argument type', 'generic with compatible types', 'generic with incomplete type', 'return of integer as pointer', 'duplicate member of anonymous', 'array of negative size', 'parameter without name in definition', 'alignment on register', 'restrict on integer', 'restrict on function pointer', 'no type specifier', 'too many initializers for array', 'too many initializers for scalar', 'too many initializers for structure', 'string too long', 'empty initializer', 'typedef with initializer', 'incomplete enumeration', 'trailing argument comma', 'structure empty', 'unterminated character constant', 'hexadecimal floating without exponent', 'unknown directive', 'else after else', 'elif after else', 'trailing tokens in if', 'floating if expression', 'define defined', 'incompatible redefinition of macro', 'macro parameter twice', 'stringizing of no parameter', 'paste at start', 'paste at end', 'variadic name in plain macro']
