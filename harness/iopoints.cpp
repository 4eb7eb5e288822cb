// Scheduling points inside stream output: the formatted-output functions of libstdc++ are not instrumented, so they are
// wrapped here (another thread may run before and after each).
#define MC_NO_MAIN
#include <dlfcn.h>
#include <ostream>

#include "sched.hpp"
typedef std::ostream& (*insert_t)(std::ostream&, const char*, std::streamsize);
std::ostream& wrapped_insert(std::ostream& o, const char* s, std::streamsize n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& wrapped_insert(std::ostream& o, const char* s, std::streamsize n) {
  static insert_t real = (insert_t)dlsym(RTLD_NEXT, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
  if (sched::in_fiber()) sched::yield("before stream output");
  std::ostream& r = real(o, s, n);
  if (sched::in_fiber()) sched::yield("after stream output");
  return r;
}
typedef std::ostream& (*endl_t)(std::ostream&);
std::ostream& wrapped_endl(std::ostream& o) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
std::ostream& wrapped_endl(std::ostream& o) {
  if (sched::in_fiber()) sched::yield("before end of line");
  o.put('\n');
  o.flush();
  return o;
}
