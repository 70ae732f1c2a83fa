// Front-end shim (not part of the verified text): clang rejects the GNU extension that makes
// std::pow usable in a constant expression (bdd_node.h uses it for two static members); this exact
// overload computes the same value and lets clang build the AST of the unmodified sources.
#include <cstddef>
#include <cmath>
namespace std { constexpr double pow(int b, unsigned long e) { double r = 1; for(unsigned long i = 0; i < e; ++i) r *= b; return r; } }
