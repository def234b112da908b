// Replaces <cassert>/<assert.h> for code built by the checks: a failed
// assertion becomes a C++ exception that the explorer reports as an outcome of
// the execution that reached it.  Deliberately no include guard (as assert.h).
#include "vp_assert.h"
#undef assert
#define assert(...) \
  ((__VA_ARGS__) ? (void)0 : ::vp::assert_failed(#__VA_ARGS__, __FILE__, __LINE__))
