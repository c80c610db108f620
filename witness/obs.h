#pragma once
// Statements about a path, decided by rules/obs.py. Witness names: all__x every path gets to done() unless user code threw;
// rej__x no path gets to done(); rejD__x the same, with debug checks only; any__x only the MUSTs count.
#include <stddef.h>
#include <new>
#include <stdint.h>
namespace vp {
void must(bool, int line) noexcept;      // holds whenever reached
void never(int line) noexcept;           // is not reached
void done() noexcept;
void step(int) noexcept;
bool nd(int) noexcept;                   // arbitrary
uint64_t nv(int) noexcept;               // arbitrary
void thrower(int);                       // may throw
void touch(const void*) noexcept;        // uses an object
template <typename A, typename B> struct Same { static constexpr bool v = false; };
template <typename A> struct Same<A, A> { static constexpr bool v = true; };
}
#define MUST(...) ::vp::must(bool(__VA_ARGS__), __LINE__)
#define NEVER ::vp::never(__LINE__)
#define SAME(A, ...) (::vp::Same<A, __VA_ARGS__>::v)
