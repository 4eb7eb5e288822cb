// Self-test of the explorer: complete trees, detection of each kind of failure.
#include "trap.hpp"
static const char* mode() { return getenv("SELFTEST") ? getenv("SELFTEST") : ""; }
MC_SCENARIO(tree, "irregular tree with a known number of leaves", 2) {
  int a = r.choose(3, "a"), b = r.choose(4, "b"), s = 0;
  for (int i = 0; i < a; i++) s += r.choose(2, "bit");
  r.step();
  r.state(mc::cat(a, ".", b, ".", s));
}
MC_SCENARIO(failing, "one bad leaf", 1) {
  int a = r.choose(3, "a"), b = r.choose(4, "b");
  r.step();
  r.state(mc::cat(a, b));
  const bool hit = a == 1 && b == 2;
  const std::string m = mode();
  if (m == "check") MC_CHECK(!hit, "bad leaf");
  if (m == "abort" && hit) abort();
  if (m == "throw" && hit) throw std::runtime_error("boom");
  if (m == "assert" && hit) __assert_fail("x", "f", 1, "g");
  if (m == "overflow" && hit) {
    int* p = new int[2];
    volatile int i = 2;
    p[i] = 1;
  }
  if (m == "hang" && hit) for (volatile int i = 0;; i++) {}
  if (m == "known" && hit) r.fail("known thing", "K1");
  MC_CHECK(trap::refused([]() { __assert_fail("x", "f", 1, "g"); }), "trap");
  MC_CHECK(trap::refused([]() { throw std::runtime_error("x"); }), "trap");
  MC_CHECK(!trap::refused([]() {}), "trap");
}
MC_SCENARIO_X(isolated, "process-wide state is fresh in every execution", 1, true, false) {
  static int n = 0;
  n++;
  int a = r.choose(3, "a"), b = r.choose(4, "b");
  MC_CHECK(n == 1, "state leaked between executions");
  r.step();
  r.state(mc::cat(a, b));
}
