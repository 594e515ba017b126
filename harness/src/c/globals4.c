int a = 7;
int b = -3;
int twist(int k) { int a = k; int c = a + b; { int b = c; a = a + b; b = 0; } b = b + 1; return a - b; }
int keep(int k) { int r = a; for (int a = 0; a < k; a++) { int b = a * a; r = r + b; } return r + a; }
int main(void) { int r = twist(5); r = r + twist(2); r = r + keep(4); return r + b + a; }
