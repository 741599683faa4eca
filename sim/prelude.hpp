// Force-included in every translation unit of the simulation build (library sources and scenarios).
// It routes the library's own checked-build assertions to the simulator; nothing in /repo is changed.
#ifndef SIM_PRELUDE_HPP
#define SIM_PRELUDE_HPP
#ifdef __cplusplus
#define BOOST_ENABLE_ASSERT_HANDLER 1
namespace simhook
{
[[noreturn]] void assertFailed(const char * expr, const char * file, long line);
}
#define eigen_assert(x) (static_cast<bool>(x) ? void(0) : ::simhook::assertFailed(#x, __FILE__, __LINE__))
#endif
#endif
