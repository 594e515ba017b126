int g = 5;
int h = 3;
int rd(void) { return g; }
int f(int a) {
  int r = g + a;
  int g = a;
  { int g = 2; a = a + g; g = 7; }
  for (int h = 0; h < 3; h++) { r = r + h; }
  if (a > 2) { int g = 9; r = r + g; }
  h = h + 1;
  r = r + rd();
  while (a > 0) { int h = a; a = a - 1; if (h == 1) continue; r = r + h; }
  return g + r * 2 + h;
}
int main(void) { return f(3); }
