int total = 0;
int depth = 4;
void bump(int k) { total = total + k; }
int count(int n) {
  int i;
  for (i = 0; i < n; i = i + 1) {
    int total = i * 2;
    if (total == 4) { continue; }
    bump(total);
    switch (i) { case 1: { int depth = 9; bump(depth); break; } case 3: bump(100); break; default: bump(depth); break; }
  }
  return total;
}
int main(void) { int r = count(6); int depth = 2; depth = depth + 1; return (r + depth * 3 + total) % 251; }
