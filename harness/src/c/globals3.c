int state = 1;
int limit = 10;
int step(void) { state = state * 3 % 17; return state; }
int run(int a) {
  int sum = 0;
  while (step() != 1) {
    if (state > limit) { int state = 5; sum = sum + state; continue; }
    sum = sum + state;
    if (sum > 60) { break; }
  }
  if (a) { int limit = sum; limit = limit + 1; sum = sum + limit; } else { limit = limit + 1; }
  return sum + limit;
}
int main(void) { int x = run(0); int y = run(1); return (x + y * 2 + state) % 250; }
