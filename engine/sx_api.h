// Interface between harnesses (and the symbolic crypto3 stand-in) and the engine runtime.
// The same harness source is built twice: instrumented and linked with sx.cpp (solver run), and
// uninstrumented and linked with sx_plain.cpp (native replay of one concrete input).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
uint32_t __sx_shadow64(uint64_t v) noexcept;                      // replaced by the pass
bool __sx_taint1(bool concrete, uint32_t node) noexcept;          // give a native value a symbolic shadow
uint32_t __sx_taint32(uint32_t concrete, uint32_t node) noexcept;
uint64_t __sx_taint64(uint64_t concrete, uint32_t node) noexcept;
uint64_t __sx_sel64(bool c, uint64_t a, uint64_t b) noexcept;     // c ? a : b without forking the path

// fresh symbolic input, lo <= v <= hi (unsigned); returns node, concrete value through *out
uint32_t __sx_input(const char *name, uint32_t bits, uint64_t lo, uint64_t hi, uint64_t *out) noexcept;
void __sx_assert(bool cond, uint32_t node, const char *msg) noexcept;
void __sx_assume(bool cond, uint32_t node) noexcept;
uint64_t __sx_pin(uint64_t v, uint32_t node) noexcept;   // continue with one value per path
void __sx_reach(const char *label) noexcept;
void __sx_note(const char *text) noexcept;
}

namespace sx {
    inline uint64_t u64(const char *name, uint64_t lo, uint64_t hi) {
        uint64_t c; uint32_t n = __sx_input(name, 64, lo, hi, &c); return __sx_taint64(c, n);
    }
    inline uint32_t u32(const char *name, uint32_t lo, uint32_t hi) {
        uint64_t c; uint32_t n = __sx_input(name, 32, lo, hi, &c); return __sx_taint32((uint32_t)c, n);
    }
    inline bool b(const char *name) {
        uint64_t c; uint32_t n = __sx_input(name, 1, 0, 1, &c); return __sx_taint1(c & 1, n);
    }
    inline uint64_t sel(bool c, uint64_t a, uint64_t b) { return __sx_sel64(c, a, b); }
    inline uint64_t max(uint64_t a, uint64_t b) { return sel(a < b, b, a); }
    inline uint64_t min(uint64_t a, uint64_t b) { return sel(a < b, a, b); }
    // split the path on the value of a small symbolic integer
    template<typename T> inline T fork(T x) { return (T)__sx_pin((uint64_t)x, __sx_shadow64((uint64_t)x)); }
    using case_fn = void (*)();
    struct reg { reg(const char *name, case_fn f, const char *tier); };
}

// the assertion must hold for every input that follows this path
#define SX_ASSERT(c, msg) do { bool sx_c_ = (c); __sx_assert(sx_c_, __sx_shadow64((uint64_t)sx_c_), msg); } while (0)
#define SX_ASSUME(c) do { bool sx_c_ = (c); __sx_assume(sx_c_, __sx_shadow64((uint64_t)sx_c_)); } while (0)
#define SX_REACH(l) __sx_reach(l)
#define SX_CASE(name) static void sx_case_##name(); static sx::reg sx_reg_##name(#name, sx_case_##name, "quick"); static void sx_case_##name()
#define SX_CASE_THOROUGH(name) static void sx_case_##name(); static sx::reg sx_reg_##name(#name, sx_case_##name, "thorough"); static void sx_case_##name()
