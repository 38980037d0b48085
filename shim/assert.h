// Shim used only while extracting the AST of the code under verification: it turns the
// assert() macro into a call the translator recognises, so every assertion of the code
// becomes a proof obligation.
#ifndef VF_ASSERT_SHIM
#define VF_ASSERT_SHIM
#include <cmath>
#include <cstdint>
#include <string>
#include <typeinfo>
constexpr bool vf_assert(bool b) { return b; }
#endif
#undef assert
#define assert(expr) static_cast<void>(::vf_assert(static_cast<bool>(expr)))
