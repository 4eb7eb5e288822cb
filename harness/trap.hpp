// Runs a call that is expected to be refused: a failed assertion or an exception counts as refusal.
#ifndef VERIF_TRAP_HPP
#define VERIF_TRAP_HPP
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>

#include <exception>

#include "mc.hpp"

namespace trap {
static jmp_buf env;
static volatile bool armed = false;

enum Outcome { Returned, Asserted, Threw };

template <typename F>
inline Outcome run(F f) {
  volatile Outcome o = Returned;
  armed = true;
  if (setjmp(env) == 0) {
    try {
      f();
    } catch (const mc::Violation&) {
      armed = false;
      throw;
    } catch (const mc::Skip&) {
      armed = false;
      throw;
    } catch (const mc::Prune&) {
      armed = false;
      throw;
    } catch (const std::exception&) {
      o = Threw;
    }
  } else {
    o = Asserted;
  }
  armed = false;
  return o;
}
template <typename F>
inline bool refused(F f) {
  return run(f) != Returned;
}
}  // namespace trap

extern "C" __attribute__((noreturn)) void __assert_fail(const char* a, const char* f, unsigned l, const char* fn)
    __THROW {
  if (trap::armed) {
    trap::armed = false;
    longjmp(trap::env, 1);
  }
  fprintf(stderr, "%s:%u: %s: assertion failed: %s\n", f, l, fn, a);
  abort();
}
#endif
