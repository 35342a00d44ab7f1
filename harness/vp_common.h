// Included once per harness: exception and assertion sinks of the -fno-exceptions build.
#pragma once
#include "vp.h"
#include <boost/throw_exception.hpp>
namespace vp { Throw expect = {nullptr, false, nullptr}; }
static void vp_thrown(const void *e) {
  if (!vp::expect.ok) vp_fail("an exception was thrown");
  if (vp::expect.cls && !vp_exc_is(e, vp::expect.cls)) vp_fail("an exception of the wrong class was thrown");
  if (vp::expect.check) vp::expect.check();
  vp_end();
}
namespace boost {
BOOST_NORETURN void throw_exception(std::exception const &e) { vp_thrown(&e); vp_end(); }
BOOST_NORETURN void throw_exception(std::exception const &e, boost::source_location const &) { vp_thrown(&e); vp_end(); }
void assertion_failed(char const *, char const *, char const *, long) { vp_fail("BOOST_ASSERT failed"); }
void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { vp_fail("BOOST_ASSERT failed"); }
}
extern "C" void __assert_fail(const char *, const char *, unsigned, const char *) noexcept { vp_fail("assertion failed"); }
