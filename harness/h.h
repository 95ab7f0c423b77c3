// Shared helpers of the harnesses.  Harnesses use the library's public API only.
#pragma once
#include "vk.h"
#include <atomic>
#include <cerrno>
#include <cstring>
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
#include <tuple>
#include <vector>
#define ENTRY extern "C" void __attribute__((noinline, used))
using vk::choose; using vk::range; using vk::param; using vk::u8; using vk::u32;

// a counter shared by threads that adds no ordering of its own (so it cannot hide a missing one)
struct Cnt { std::atomic<int> v{0}; operator int() const { return v.load(std::memory_order_relaxed); } int operator=(int x) { v.store(x, std::memory_order_relaxed); return x; } int operator++() { return v.fetch_add(1, std::memory_order_relaxed) + 1; } int operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); } int operator--() { return v.fetch_sub(1, std::memory_order_relaxed) - 1; } };
inline bool has(const char *n) { return vk_param(n, 0) != 0; }
// an arbitrary string of exactly n bytes over an arbitrary alphabet
inline std::string anystr(int n, const char *name) { std::string s(n, '\0'); for (int i = 0; i < n; ++i) s[i] = (char)u8(name); return s; }
// equality of two byte sequences as one formula (no branch per byte)
inline bool same(const char *a, const char *b, int n) { unsigned d = 0; for (int i = 0; i < n; ++i) d |= (unsigned char)a[i] ^ (unsigned char)b[i]; return d == 0; }
inline bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && same(a.data(), b.data(), (int)a.size()); }
// 1 the call threw T, 0 returned, 2 threw something else
template <typename T, typename F> inline int throws(F f) { try { f(); } catch (const T &) { return 1; } catch (...) { return 2; } return 0; }
inline int g_code;   // error number of the last system_error caught by throws_sys
template <typename F> inline int throws_sys(F f) { g_code = 0; try { f(); } catch (const std::system_error &e) { g_code = e.code().value(); return 1; } catch (const std::exception &) { return 2; } catch (...) { return 3; } return 0; }
