// Harness API.  Every harness is compiled twice from the same source: to LLVM IR for symx and natively (replay).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execution>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

extern "C" {
uint32_t sx_choice(const char* name, uint32_t n);          // any value in [0, n), n <= 64
uint64_t sx_any(const char* name, int kind, int width);     // kind 1: any bits, kind 2: any finite float/double
void sx_assume(int cond);
void sx_assert(int cond, const char* label);
void sx_possible(int cond, const char* label);             // some input makes cond true here
void sx_reach(const char* label);
void sx_emit(uint64_t v);
void sx_allow_throw(int on);
uint64_t sx_concretize(uint64_t v);
}
#define HARNESS(name) extern "C" __attribute__((noinline, used)) void name()

namespace sx {
inline uint32_t any_u32(const char* n) { return (uint32_t)sx_any(n, 1, 32); }
inline uint64_t any_u64(const char* n) { return sx_any(n, 1, 64); }
inline int32_t any_i32(const char* n) { return (int32_t)(uint32_t)sx_any(n, 1, 32); }
inline uint8_t any_u8(const char* n) { return (uint8_t)sx_any(n, 1, 8); }
inline float any_f32(const char* n) { uint32_t b = (uint32_t)sx_any(n, 2, 32); float f; std::memcpy(&f, &b, 4); return f; }
inline double any_f64(const char* n) { uint64_t b = sx_any(n, 2, 64); double f; std::memcpy(&f, &b, 8); return f; }
template <typename T, std::size_t N>
inline T pick(const char* n, const T (&table)[N]) { return table[sx_choice(n, (uint32_t)N)]; }
template <typename T>
inline T pick_n(const char* n, const T* table, uint32_t count) { return table[sx_choice(n, count)]; }
inline int irange(const char* n, int lo, int hi) { return lo + (int)sx_choice(n, (uint32_t)(hi - lo + 1)); }
inline void emit(float f) { uint32_t b; std::memcpy(&b, &f, 4); sx_emit(b); }
inline void emit(double f) { uint64_t b; std::memcpy(&b, &f, 8); sx_emit(b); }
template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
inline void emit(I v) { sx_emit((uint64_t)v); }
}  // namespace sx
