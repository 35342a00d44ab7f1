// vp-bound: every sequence of at most six reads for each draw (short reads, errors, end of file) with every byte value; two draws; descriptors 0 to 2^31-1; tokens of up to three characters
// vp-flags: -I$REPO/src -D_GLIBCXX_ASSERTIONS
// vp-native: -I$REPO/src
// vp-opt: all --feas 2000 --nomerge
// vp-assume: open, read and close behave as POSIX states them: read delivers at most the number of bytes asked for, returns -1 with errno set on error and 0 at end of file
#include "vp.h"
#include <boost/config.hpp>
#include <cerrno>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <stdexcept>
#include <string.h>
#include <boost/random/random_device.hpp>
#include <boost/throw_exception.hpp>
#include <boost/assert.hpp>
#include <boost/system/system_error.hpp>
#include <boost/system/error_code.hpp>
#undef errno
static int vp_errno;
#define errno vp_errno
extern "C" char *strerror_r(int, char *b, size_t) noexcept { *b = 0; return b; }
extern "C" char *strerror(int) noexcept { static char t[2] = "e"; return t; }
// stand-ins for the system calls: only record what they were given
static char opened[32]; static int opens, closes, reads, the_fd, delivered, asked_wrong, limit = 6, last_errno; static bool open_ok = true; static unsigned char out[64]; static bool failed;
extern "C" int vp_open(const char *p, int flags) { for (int i = 0; i < 31; ++i) { opened[i] = p[i]; if (!p[i]) break; } ++opens; if (flags != O_RDONLY) vp_fail("opened for something other than reading"); if (!open_ok) { failed = true; last_errno = errno = vp::in<int>("open_errno", 1, 133); return -1; } return the_fd; }
extern "C" long vp_read(int fd, void *buf, unsigned long n) {
  if (fd != the_fd || opens != 1 || closes) vp_fail("read from a descriptor other than the one opened"); if (failed) vp_fail("read again after a failure"); if (n == 0) vp_fail("read of no bytes"); if (++reads > limit) vp_cut("more reads than stated");
  int64_t r = (int64_t)vp_split(vp::in<uint32_t>("result", 0u, uint32_t(n + 1)), n + 1) - 1; if (r == -1) { failed = true; last_errno = errno = vp::in<int>("errno", 1, 133); return -1; } if (r == 0) { failed = true; return 0; }
  if (vp_obj_size(buf) < (uint64_t)r) vp_fail("buffer too small"); for (int64_t i = 0; i < r; ++i) { unsigned char c = vp::in<uint8_t>("byte"); ((unsigned char *)buf)[i] = c; out[delivered++] = c; } return r; }
extern "C" int vp_close(int fd) { if (fd != the_fd || opens != 1) vp_fail("closed a descriptor other than the one opened"); ++closes; return 0; }
#define open vp_open
#define read vp_read
#define close vp_close
#include "random_device.cpp"
#undef open
#undef read
#undef close
namespace vp { Throw expect = {nullptr, false, nullptr}; }
static void thrown(const std::exception &e) {
  if (!failed) vp_fail("an exception although nothing failed"); if (!vp_exc_is(&e, "system_error")) vp_fail("not a system_error");
  if (static_cast<const boost::system::system_error &>(e).code().value() != last_errno) vp_fail("the error code is not the one the system reported (0 for end of file)"); vp_end(); }
namespace boost { BOOST_NORETURN void throw_exception(std::exception const &e) { thrown(e); vp_end(); } BOOST_NORETURN void throw_exception(std::exception const &e, boost::source_location const &) { thrown(e); vp_end(); } void assertion_failed(char const *, char const *, char const *, long) { vp_fail("BOOST_ASSERT failed"); } void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { vp_fail("BOOST_ASSERT failed"); } }
static void pick() { the_fd = vp::in<int>("fd", 0, INT32_MAX); }
static void check_value(unsigned v, int k) { if (failed) vp_fail("a value although a read failed"); if (delivered != 4 * k) vp_fail("a value although the source did not deliver exactly its four bytes"); unsigned w; memcpy(&w, out + 4 * (k - 1), 4); vp_assert(v == w, "the value is the bytes delivered for this call"); }
ENTRY(q_next) { pick(); boost::random::random_device d; if (opens != 1 || strcmp(opened, "/dev/urandom") != 0) vp_fail("the default source is /dev/urandom, opened once"); unsigned v = d(); check_value(v, 1); }
ENTRY(q_two) { pick(); limit = 5; boost::random::random_device d; unsigned v = d(); check_value(v, 1); unsigned w = d(); check_value(w, 2); }
ENTRY(q_close) { pick(); limit = 2; { boost::random::random_device d; unsigned v = d(); check_value(v, 1); if (closes) vp_fail("closed too early"); } vp_assert(closes == 1, "the descriptor is closed once"); vp_assert(reads <= 2, "no reads on destruction"); }
ENTRY(q_no_draw) { pick(); { boost::random::random_device d; vp_assert(d.entropy() > 0, "entropy is positive"); } vp_assert(closes == 1 && reads == 0, "opened and closed, nothing read"); }
ENTRY(q_token) { pick(); limit = 4; char t[4]; int n = (int)vp_split(vp::in<uint32_t>("n", 0u, 3u), 3); for (int i = 0; i < n; ++i) t[i] = (char)vp::in<uint8_t>("c", 1, 255); t[n] = 0; { boost::random::random_device d((std::string(t))); if (opens != 1) vp_fail("opened once"); for (int i = 0; i <= n; ++i) vp_assert(opened[i] == t[i], "the token names the source"); unsigned v = d(); check_value(v, 1); } vp_assert(closes == 1, "closed"); }
ENTRY(q_cannot_open) { pick(); if (vp::in<uint8_t>("go", 0, 1)) { open_ok = false; boost::random::random_device d; vp_fail("constructed although the source cannot be opened"); } }
ENTRY(q_generate) { pick(); limit = 3; boost::random::random_device d; unsigned v[2]; d.generate(v, v + 2); if (failed) vp_fail("values although a read failed"); vp_assert(delivered == 8, "eight bytes for two values"); unsigned w[2]; memcpy(w, out, 8); vp_assert(v[0] == w[0] && v[1] == w[1], "generate delivers the bytes of the source"); }
