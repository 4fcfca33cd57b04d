// Fixed-width unsigned integers with the interface crypto3's multiprecision fork offers (number over
// cpp_int_modular_backend).  Every value carries its concrete limbs and, when it depends on a symbolic input,
// the engine's bit-vector node.
#pragma once
#include <limits>
#include <set>
#include <sstream>
#include "sx_api.h"
#include <array>
#include <cstddef>
#include <cstdint>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

extern "C" {
uint64_t __sx_plain64(uint64_t v) noexcept;
// operation on bit-vector nodes of width w (0 = take the limbs); 0 is returned for a constant result
uint32_t __sx_bv_op(uint32_t op, uint32_t w, uint32_t sa, uint32_t sb, const uint64_t *la, const uint64_t *lb) noexcept;
uint32_t __sx_bv_resize(uint32_t node, uint32_t w, bool sign) noexcept;
uint32_t __sx_bv_extract(uint32_t node, uint32_t hi, uint32_t lo) noexcept;
uint32_t __sx_big_input(const char *name, uint32_t bits, uint64_t *out, const uint64_t *hi) noexcept;
uint32_t __sx_ff_op(uint32_t op, uint32_t field, uint32_t sa, uint32_t sb, const uint64_t *la, const uint64_t *lb) noexcept;
uint32_t __sx_ff_of_bv(uint32_t field, uint32_t node) noexcept;
uint32_t __sx_bv_of_ff(uint32_t node, uint32_t w) noexcept;
uint32_t __sx_ff_cmp(uint32_t op, uint32_t field, uint32_t sa, uint32_t sb, const uint64_t *la, const uint64_t *lb) noexcept;
uint32_t __sx_field(const uint64_t *mod, uint32_t limbs) noexcept;
uint32_t __sx_ff_input(const char *name, uint32_t field, uint64_t *out, uint32_t limbs) noexcept;
uint32_t __sx_ite(bool c, uint32_t cs, uint32_t field, uint32_t sa, uint32_t sb, const uint64_t *la, const uint64_t *lb) noexcept;
}

namespace sxraw {    // plain limb arithmetic, not instrumented
    using u64 = std::uint64_t;
    using u128 = unsigned __int128;
    __attribute__((noinline)) constexpr void mask(u64 *a, unsigned n, unsigned bits) { if (bits % 64) a[n - 1] &= (~u64(0)) >> (64 - bits % 64); }
    __attribute__((noinline)) constexpr u64 add(u64 *r, const u64 *a, const u64 *b, unsigned n) { u64 c = 0; for (unsigned i = 0; i < n; i++) { u128 t = (u128)a[i] + b[i] + c; r[i] = (u64)t; c = (u64)(t >> 64); } return c; }
    __attribute__((noinline)) constexpr u64 sub(u64 *r, const u64 *a, const u64 *b, unsigned n) { u64 c = 0; for (unsigned i = 0; i < n; i++) { u128 t = (u128)a[i] - b[i] - c; r[i] = (u64)t; c = (u64)(t >> 64) & 1; } return c; }
    __attribute__((noinline)) constexpr int cmp(const u64 *a, const u64 *b, unsigned n) { for (unsigned i = n; i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
    __attribute__((noinline)) constexpr bool zero(const u64 *a, unsigned n) { for (unsigned i = 0; i < n; i++) if (a[i]) return false; return true; }
    __attribute__((noinline)) constexpr void mul(u64 *r, const u64 *a, unsigned na, const u64 *b, unsigned nb) {    // r has na + nb limbs
        for (unsigned i = 0; i < na + nb; i++) r[i] = 0;
        for (unsigned i = 0; i < na; i++) { u64 c = 0; for (unsigned j = 0; j < nb; j++) { u128 t = (u128)a[i] * b[j] + r[i + j] + c; r[i + j] = (u64)t; c = (u64)(t >> 64); } r[i + nb] = c; }
    }
    __attribute__((noinline)) constexpr void shl(u64 *r, const u64 *a, unsigned n, unsigned s) { unsigned w = s / 64, b = s % 64; for (unsigned i = n; i-- > 0;) { u64 v = 0; if (i >= w) { v = a[i - w] << b; if (b && i >= w + 1) v |= a[i - w - 1] >> (64 - b); } r[i] = v; } }
    __attribute__((noinline)) constexpr void shr(u64 *r, const u64 *a, unsigned n, unsigned s) { unsigned w = s / 64, b = s % 64; for (unsigned i = 0; i < n; i++) { u64 v = 0; if (i + w < n) { v = a[i + w] >> b; if (b && i + w + 1 < n) v |= a[i + w + 1] << (64 - b); } r[i] = v; } }
    __attribute__((noinline)) constexpr unsigned bits(const u64 *a, unsigned n) { for (unsigned i = n; i-- > 0;) if (a[i]) return i * 64 + 64 - __builtin_clzll(a[i]); return 0; }
    // schoolbook division (Knuth D); q has na limbs, r has nb limbs; b != 0; na, nb <= 32
    __attribute__((noinline)) constexpr void divrem(u64 *q, u64 *r, const u64 *a, unsigned na, const u64 *b, unsigned nb) {
        unsigned n = nb; while (n && !b[n - 1]) n--;
        for (unsigned i = 0; i < na; i++) q[i] = 0;
        for (unsigned i = 0; i < nb; i++) r[i] = 0;
        if (n == 1) { u64 rem = 0; for (unsigned i = na; i-- > 0;) { u128 t = ((u128)rem << 64) | a[i]; q[i] = (u64)(t / b[0]); rem = (u64)(t % b[0]); } r[0] = rem; return; }
        u64 u[34] = {}, v[33] = {};
        unsigned s = __builtin_clzll(b[n - 1]);
        for (unsigned i = n; i-- > 0;) v[i] = (b[i] << s) | (s && i ? b[i - 1] >> (64 - s) : 0);
        u[na] = s && na ? a[na - 1] >> (64 - s) : 0;
        for (unsigned i = na; i-- > 0;) u[i] = (a[i] << s) | (s && i ? a[i - 1] >> (64 - s) : 0);
        if (na >= n) for (unsigned j = na - n + 1; j-- > 0;) {
            u128 num = ((u128)u[j + n] << 64) | u[j + n - 1];
            u128 qh = num / v[n - 1], rh = num % v[n - 1];
            while ((qh >> 64) || (u128)(u64)qh * v[n - 2] > ((rh << 64) | u[j + n - 2])) { qh--; rh += v[n - 1]; if (rh >> 64) break; }
            u64 borrow = 0, carry = 0;
            for (unsigned i = 0; i < n; i++) {
                u128 p = (u128)(u64)qh * v[i] + carry; carry = (u64)(p >> 64);
                u128 t = (u128)u[i + j] - (u64)p - borrow; u[i + j] = (u64)t; borrow = (u64)(t >> 64) & 1;
            }
            u128 t = (u128)u[j + n] - carry - borrow; u[j + n] = (u64)t;
            if ((u64)(t >> 64) & 1) {
                qh--; u64 c = 0;
                for (unsigned i = 0; i < n; i++) { u128 x = (u128)u[i + j] + v[i] + c; u[i + j] = (u64)x; c = (u64)(x >> 64); }
                u[j + n] += c;
            }
            q[j] = (u64)qh;
        }
        for (unsigned i = 0; i < n; i++) r[i] = (u[i] >> s) | (s && i + 1 <= na ? u[i + 1] << (64 - s) : 0);
    }
    __attribute__((noinline)) constexpr void mulmod(u64 *r, const u64 *a, const u64 *b, const u64 *m, unsigned n) { u64 t[24] = {}, q[24] = {}; mul(t, a, n, b, n); divrem(q, r, t, 2 * n, m, n); }
    __attribute__((noinline)) constexpr void addmod(u64 *r, const u64 *a, const u64 *b, const u64 *m, unsigned n) { u64 c = add(r, a, b, n); if (c || cmp(r, m, n) >= 0) sub(r, r, m, n); }
    __attribute__((noinline)) constexpr void submod(u64 *r, const u64 *a, const u64 *b, const u64 *m, unsigned n) { if (sub(r, a, b, n)) add(r, r, m, n); }
    inline std::string str(const u64 *a, unsigned n, unsigned base) {
        u64 t[32] = {}, q[32] = {}, r[1], d[1] = {base}; for (unsigned i = 0; i < n; i++) t[i] = a[i];
        std::string s; do { divrem(q, r, t, n, d, 1); s.insert(s.begin(), "0123456789abcdef"[r[0]]); for (unsigned i = 0; i < n; i++) t[i] = q[i]; } while (!zero(t, n)); return s;
    }
}    // namespace sxraw

namespace sxn {
    // numbering shared with the runtime (sx.cpp)
    enum bvop : std::uint32_t { B_ADD, B_SUB, B_MUL, B_UDIV, B_UREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_EQ, B_ULT, B_ULE };
    enum ffop : std::uint32_t { F_ADD, F_SUB, F_MUL, F_NEG, F_INV, F_SQRT };
    enum ffcmp : std::uint32_t { C_EQ, C_LT, C_LE, C_ISSQ };
    template<typename T> struct is_data : std::false_type {};
}    // namespace sxn

namespace boost {
    namespace multiprecision {
        enum expression_template_option { et_off = 0, et_on = 1 };
        enum cpp_integer_type { signed_magnitude = 1, unsigned_magnitude = 0 };
        enum cpp_int_check_type { unchecked = 0, checked = 1 };
        using limb_type = unsigned long long;
        namespace backends {
            template<unsigned Bits> struct cpp_int_modular_backend { static constexpr unsigned bits = Bits; };
            template<unsigned Min = 0, unsigned Max = 0, cpp_integer_type S = signed_magnitude, cpp_int_check_type C = unchecked, class A = void> struct cpp_int_backend {};
            template<class B, class P = void> struct modular_adaptor {};
        }    // namespace backends
        using backends::cpp_int_modular_backend;
        using backends::cpp_int_backend;
        using backends::modular_adaptor;

        template<class Backend, expression_template_option ET = et_off> class number;

        template<unsigned Bits, expression_template_option ET>
        class number<backends::cpp_int_modular_backend<Bits>, ET> {
        public:
            static constexpr unsigned bits = Bits;
            static constexpr unsigned N = (Bits + 63) / 64;
            using backend_type = number; using value_type = number;
            std::uint64_t l[N] = {};
            std::uint32_t sym = 0;

            constexpr number() {}
            constexpr number(const number &o) = default;
            constexpr number &operator=(const number &o) = default;
            template<typename T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, bool> = true>
            constexpr number(T v) { set(v); }
            template<unsigned B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) {
                for (unsigned i = 0; i < N && i < o.N; i++) l[i] = o.l[i];
                sxraw::mask(l, N, Bits);
                if (o.sym) sym = __sx_bv_resize(o.sym, Bits, false);
            }
            template<typename T, std::enable_if_t<sxn::is_data<T>::value, bool> = true>
            constexpr number(const T &d) : number(d.as_number()) {}
            explicit number(const std::string &s) { parse(s.c_str()); }
            explicit number(const char *s) { parse(s); }
            constexpr void parse(const char *s) {
                unsigned base = 10;
                if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
                for (; *s; s++) {
                    if (*s == '\'') continue;
                    unsigned d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : 99;
                    if (d >= base) throw std::runtime_error("unexpected digit in a number");
                    std::uint64_t c = d;
                    for (unsigned i = 0; i < N; i++) { sxraw::u128 t = (sxraw::u128)l[i] * base + c; l[i] = (std::uint64_t)t; c = (std::uint64_t)(t >> 64); }
                }
                sxraw::mask(l, N, Bits);
            }
            template<typename T> constexpr void set(T v) {
                // the limbs never carry a shadow of their own
                std::uint64_t plain = __builtin_is_constant_evaluated() ? (std::uint64_t)v : __sx_plain64((std::uint64_t)v);
                bool neg = std::is_signed<T>::value && (std::int64_t)plain < 0;
                l[0] = plain;
                if (sizeof(T) > 8 && N > 1) l[1] = (std::uint64_t)((unsigned __int128)v >> 64);
                for (unsigned i = sizeof(T) > 8 ? 2 : 1; i < N; i++) l[i] = neg ? ~std::uint64_t(0) : 0;
                sxraw::mask(l, N, Bits);
                if (!__builtin_is_constant_evaluated()) {
                    std::uint32_t s = __sx_shadow64((std::uint64_t)v);
                    if (s) sym = __sx_bv_resize(s, Bits, std::is_signed<T>::value);
                }
            }
            static number raw(const std::uint64_t *p, std::uint32_t s) { number r; for (unsigned i = 0; i < N; i++) r.l[i] = p[i]; sxraw::mask(r.l, N, Bits); r.sym = s; return r; }
            static number input(const char *name) { number r; r.sym = __sx_big_input(name, Bits, r.l, nullptr); return r; }
            static number input(const char *name, const number &hi) { number r; r.sym = __sx_big_input(name, Bits, r.l, hi.l); return r; }

            template<typename T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, bool> = true>
            explicit constexpr operator T() const {
                if (!__builtin_is_constant_evaluated() && sym) return (T)__sx_taint64(l[0], __sx_bv_resize(sym, 64, false));
                return (T)l[0];
            }
            explicit constexpr operator bool() const { return !is_zero(); }
            constexpr bool is_zero() const { return *this == number(); }
            constexpr const number &backend() const { return *this; }
            constexpr number &backend() { return *this; }
            constexpr const number &base_data() const { return *this; }
            const std::uint64_t *limbs() const { return l; }
            constexpr std::size_t size() const { unsigned n = N; while (n > 1 && !l[n - 1]) n--; return n; }
            template<class T> constexpr T convert_to() const { return static_cast<T>(*this); }
            std::string str(std::streamsize = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const {
                std::string s = sxraw::str(l, N, (f & std::ios_base::hex) ? 16 : 10);
                if ((f & std::ios_base::hex) && (f & std::ios_base::showbase)) s = "0x" + s;
                return s;
            }
            constexpr int compare(const number &o) const { return *this == o ? 0 : *this < o ? -1 : 1; }
            constexpr int sign() const { return is_zero() ? 0 : 1; }

            static constexpr number bin(std::uint32_t op, const number &a, const number &b) {
                number r;
                std::uint64_t t[2 * N + 1] = {}, q[N + 1] = {};
                switch (op) {
                    case sxn::B_ADD: sxraw::add(r.l, a.l, b.l, N); break;
                    case sxn::B_SUB: sxraw::sub(r.l, a.l, b.l, N); break;
                    case sxn::B_MUL: sxraw::mul(t, a.l, N, b.l, N); for (unsigned i = 0; i < N; i++) r.l[i] = t[i]; break;
                    case sxn::B_UDIV: sxraw::divrem(q, t, a.l, N, b.l, N); for (unsigned i = 0; i < N; i++) r.l[i] = q[i]; break;
                    case sxn::B_UREM: sxraw::divrem(q, t, a.l, N, b.l, N); for (unsigned i = 0; i < N; i++) r.l[i] = t[i]; break;
                    case sxn::B_AND: for (unsigned i = 0; i < N; i++) r.l[i] = a.l[i] & b.l[i]; break;
                    case sxn::B_OR: for (unsigned i = 0; i < N; i++) r.l[i] = a.l[i] | b.l[i]; break;
                    case sxn::B_XOR: for (unsigned i = 0; i < N; i++) r.l[i] = a.l[i] ^ b.l[i]; break;
                }
                sxraw::mask(r.l, N, Bits);
                if (a.sym | b.sym) r.sym = __sx_bv_op(op, Bits, a.sym, b.sym, a.l, b.l);
                return r;
            }
            static constexpr bool cmp(std::uint32_t op, const number &a, const number &b) {
                int c = sxraw::cmp(a.l, b.l, N);
                bool v = op == sxn::B_EQ ? c == 0 : op == sxn::B_ULT ? c < 0 : c <= 0;
                if (!__builtin_is_constant_evaluated() && (a.sym | b.sym)) return __sx_taint1(v, __sx_bv_op(op, Bits, a.sym, b.sym, a.l, b.l));
                return v;
            }
            constexpr number shift(std::uint32_t op, unsigned s) const {
                number r;
                if (s < Bits) { if (op == sxn::B_SHL) sxraw::shl(r.l, l, N, s); else sxraw::shr(r.l, l, N, s); }
                sxraw::mask(r.l, N, Bits);
                if (sym) { std::uint64_t sl[N] = {s}; r.sym = __sx_bv_op(op, Bits, sym, 0, l, sl); }
                return r;
            }
            static constexpr void nonzero(const number &b) { if (b.is_zero()) throw std::overflow_error("Division by zero."); }

            friend constexpr number operator+(const number &a, const number &b) { return bin(sxn::B_ADD, a, b); }
            friend constexpr number operator-(const number &a, const number &b) { return bin(sxn::B_SUB, a, b); }
            friend constexpr number operator*(const number &a, const number &b) { return bin(sxn::B_MUL, a, b); }
            friend constexpr number operator/(const number &a, const number &b) { nonzero(b); return bin(sxn::B_UDIV, a, b); }
            friend constexpr number operator%(const number &a, const number &b) { nonzero(b); return bin(sxn::B_UREM, a, b); }
            friend constexpr number operator&(const number &a, const number &b) { return bin(sxn::B_AND, a, b); }
            friend constexpr number operator|(const number &a, const number &b) { return bin(sxn::B_OR, a, b); }
            friend constexpr number operator^(const number &a, const number &b) { return bin(sxn::B_XOR, a, b); }
            friend constexpr bool operator==(const number &a, const number &b) { return cmp(sxn::B_EQ, a, b); }
            friend constexpr bool operator!=(const number &a, const number &b) { return !cmp(sxn::B_EQ, a, b); }
            friend constexpr bool operator<(const number &a, const number &b) { return cmp(sxn::B_ULT, a, b); }
            friend constexpr bool operator>(const number &a, const number &b) { return cmp(sxn::B_ULT, b, a); }
            friend constexpr bool operator<=(const number &a, const number &b) { return cmp(sxn::B_ULE, a, b); }
            friend constexpr bool operator>=(const number &a, const number &b) { return cmp(sxn::B_ULE, b, a); }
#define SXN_INT(op, ret) \
            template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> friend constexpr ret operator op(const number &a, T b) { return a op number(b); } \
            template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> friend constexpr ret operator op(T a, const number &b) { return number(a) op b; }
            SXN_INT(+, number) SXN_INT(-, number) SXN_INT(*, number) SXN_INT(/, number) SXN_INT(%, number) SXN_INT(&, number) SXN_INT(|, number) SXN_INT(^, number)
            SXN_INT(==, bool) SXN_INT(!=, bool) SXN_INT(<, bool) SXN_INT(>, bool) SXN_INT(<=, bool) SXN_INT(>=, bool)
#undef SXN_INT
            template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true>
            friend constexpr number operator<<(const number &a, T s) { return a.shift(sxn::B_SHL, __builtin_is_constant_evaluated() ? (unsigned)s : (unsigned)sx::fork((std::uint64_t)s)); }
            template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true>
            friend constexpr number operator>>(const number &a, T s) { return a.shift(sxn::B_LSHR, __builtin_is_constant_evaluated() ? (unsigned)s : (unsigned)sx::fork((std::uint64_t)s)); }
            constexpr number operator-() const { return number() - *this; }
            constexpr number operator+() const { return *this; }
            constexpr number operator~() const { number m; for (unsigned i = 0; i < N; i++) m.l[i] = ~std::uint64_t(0); sxraw::mask(m.l, N, Bits); return *this ^ m; }
            constexpr bool operator!() const { return is_zero(); }
            template<typename T> constexpr number &operator+=(const T &b) { return *this = *this + number(b); }
            template<typename T> constexpr number &operator-=(const T &b) { return *this = *this - number(b); }
            template<typename T> constexpr number &operator*=(const T &b) { return *this = *this * number(b); }
            template<typename T> constexpr number &operator/=(const T &b) { return *this = *this / number(b); }
            template<typename T> constexpr number &operator%=(const T &b) { return *this = *this % number(b); }
            template<typename T> constexpr number &operator&=(const T &b) { return *this = *this & number(b); }
            template<typename T> constexpr number &operator|=(const T &b) { return *this = *this | number(b); }
            template<typename T> constexpr number &operator^=(const T &b) { return *this = *this ^ number(b); }
            template<typename T> constexpr number &operator<<=(T s) { return *this = *this << s; }
            template<typename T> constexpr number &operator>>=(T s) { return *this = *this >> s; }
            constexpr number &operator++() { return *this += 1; }
            constexpr number &operator--() { return *this -= 1; }
            constexpr number operator++(int) { number r = *this; *this += 1; return r; }
            constexpr number operator--(int) { number r = *this; *this -= 1; return r; }
            friend std::ostream &operator<<(std::ostream &os, const number &a) { return os << a.str(0, os.flags()); }
            friend std::istream &operator>>(std::istream &is, number &a) { std::string s; is >> s; a = number(s); return is; }
        };
        // different widths meet in the wider one
#define SXN_MIX(op) \
        template<unsigned A, unsigned B, expression_template_option E, std::enable_if_t<(A != B), bool> = true> \
        constexpr auto operator op(const number<backends::cpp_int_modular_backend<A>, E> &a, const number<backends::cpp_int_modular_backend<B>, E> &b) { \
            using W = number<backends::cpp_int_modular_backend<(A > B ? A : B)>, E>; return W(a) op W(b); }
        SXN_MIX(+) SXN_MIX(-) SXN_MIX(*) SXN_MIX(/) SXN_MIX(%) SXN_MIX(&) SXN_MIX(|) SXN_MIX(^) SXN_MIX(==) SXN_MIX(!=) SXN_MIX(<) SXN_MIX(>) SXN_MIX(<=) SXN_MIX(>=)
#undef SXN_MIX

        template<unsigned B, expression_template_option E>
        constexpr bool bit_test(const number<backends::cpp_int_modular_backend<B>, E> &a, unsigned i) {
            if (i >= B) return false;
            bool v = (a.l[i / 64] >> (i % 64)) & 1;
            if (!__builtin_is_constant_evaluated() && a.sym) return __sx_taint1(v, __sx_bv_extract(a.sym, i, i));
            return v;
        }
        template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> constexpr bool bit_test(T a, unsigned i) { return (a >> i) & 1; }
        template<unsigned B, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<B>, E> bit_set(number<backends::cpp_int_modular_backend<B>, E> &a, unsigned i) { a |= number<backends::cpp_int_modular_backend<B>, E>(1) << i; return a; }
        template<unsigned B, expression_template_option E>
        constexpr unsigned msb(const number<backends::cpp_int_modular_backend<B>, E> &a) {
            using T = number<backends::cpp_int_modular_backend<B>, E>;
            if (!__builtin_is_constant_evaluated() && a.sym) { for (unsigned i = B; i-- > 0;) if (bit_test(a, i)) return i; throw std::domain_error("No bits were set in the operand."); }
            unsigned n = sxraw::bits(a.l, T::N); if (!n) throw std::domain_error("No bits were set in the operand."); return n - 1;
        }
        template<unsigned B, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<B>, E> pow(number<backends::cpp_int_modular_backend<B>, E> b, unsigned e) {
            number<backends::cpp_int_modular_backend<B>, E> r = 1; while (e) { if (e & 1) r *= b; b *= b; e >>= 1; } return r;
        }
        template<unsigned B, expression_template_option E, typename It>
        It export_bits(const number<backends::cpp_int_modular_backend<B>, E> &a, It out, unsigned chunk, bool msv_first = true) {
            using T = number<backends::cpp_int_modular_backend<B>, E>;
            unsigned n = a.is_zero() ? 0 : msb(a) + 1; unsigned k = n ? (n + chunk - 1) / chunk : 1;
            for (unsigned i = 0; i < k; i++) { unsigned j = msv_first ? k - 1 - i : i; *out++ = static_cast<typename std::iterator_traits<It>::value_type>((std::uint64_t)((a >> (j * chunk)) & ((T(1) << chunk) - 1))); }
            return out;
        }
        template<unsigned B, expression_template_option E, typename It>
        void import_bits(number<backends::cpp_int_modular_backend<B>, E> &a, It b, It e, unsigned chunk = 8, bool msv_first = true) {
            using T = number<backends::cpp_int_modular_backend<B>, E>;
            a = 0; unsigned k = 0;
            for (; b != e; ++b, ++k) { if (msv_first) a = (a << chunk) | T((std::uint64_t)*b); else a |= T((std::uint64_t)*b) << (k * chunk); }
        }
        template<unsigned B, expression_template_option E>
        constexpr void divide_qr(const number<backends::cpp_int_modular_backend<B>, E> &a, const number<backends::cpp_int_modular_backend<B>, E> &b, number<backends::cpp_int_modular_backend<B>, E> &q, number<backends::cpp_int_modular_backend<B>, E> &r) {
            auto x = a / b, y = a % b; q = x; r = y;
        }
        using uint128_modular_t = number<backends::cpp_int_modular_backend<128>>;
        using uint256_modular_t = number<backends::cpp_int_modular_backend<256>>;
        using uint512_modular_t = number<backends::cpp_int_modular_backend<512>>;
        using uint1024_modular_t = number<backends::cpp_int_modular_backend<1024>>;
        template<class T> struct number_category;
        namespace literals {
// whole limbs: some literals are written with a suffix narrower than their value
#define SXN_LIT(n) constexpr number<backends::cpp_int_modular_backend<(n + 63) / 64 * 64>> operator""_cppui_modular##n(const char *s) { number<backends::cpp_int_modular_backend<(n + 63) / 64 * 64>> r; r.parse(s); return r; }
            SXN_LIT(4) SXN_LIT(7) SXN_LIT(8) SXN_LIT(16) SXN_LIT(32) SXN_LIT(64) SXN_LIT(66) SXN_LIT(128) SXN_LIT(130) SXN_LIT(150) SXN_LIT(163) SXN_LIT(190) SXN_LIT(253) SXN_LIT(254) SXN_LIT(256) SXN_LIT(255) SXN_LIT(257) SXN_LIT(315) SXN_LIT(381) SXN_LIT(512) SXN_LIT(514)
#undef SXN_LIT
        }    // namespace literals
    }    // namespace multiprecision
}    // namespace boost
namespace std {
    template<unsigned B, boost::multiprecision::expression_template_option E>
    class numeric_limits<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, E>> {
        using T = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, E>;
    public:
        static constexpr bool is_specialized = true, is_signed = false, is_integer = true, is_exact = true, is_bounded = true, is_modulo = true;
        static constexpr int radix = 2, digits = B, digits10 = B * 301 / 1000;
        static constexpr T min() { return T(0); }
        static constexpr T lowest() { return T(0); }
        static constexpr T max() { return T(0) - T(1); }
    };
}
namespace boost {
    namespace multiprecision {
        namespace backends {
            template<typename B> struct modular_params { number<B> m; constexpr modular_params(const number<B> &v) : m(v) {} };
            template<typename B, const modular_params<B> &P> struct modular_params_ct { using backend = B; static constexpr const number<B> &mod() { return P.m; } };
        }    // namespace backends
        // integers modulo a fixed number; '%' and shifts act on the representatives
        template<unsigned Bits, typename P, expression_template_option ET>
        class number<backends::modular_adaptor<backends::cpp_int_modular_backend<Bits>, P>, ET> {
        public:
            using base = number<backends::cpp_int_modular_backend<Bits>>; using wide = number<backends::cpp_int_modular_backend<2 * Bits>>;
            using backend_type = number;
            base v;
            static constexpr wide low() { wide m(P::mod()); return m - 1; }
            static constexpr bool two_power() { wide m(P::mod()); return (m & low()).is_zero(); }
            static constexpr base red(const wide &w) { return base(two_power() ? w & low() : w % wide(P::mod())); }
            constexpr number() {}
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> constexpr number(T x) : v(x) {}
            template<unsigned B2, expression_template_option E2> constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &x) : v(red(wide(x))) {}
            constexpr const number &backend() const { return *this; }
            constexpr const base &base_data() const { return v; }
            template<unsigned B2, expression_template_option E2> explicit constexpr operator number<backends::cpp_int_modular_backend<B2>, E2>() const { return number<backends::cpp_int_modular_backend<B2>, E2>(v); }
            friend constexpr number operator+(const number &a, const number &b) { number r; r.v = red(wide(a.v) + wide(b.v)); return r; }
            friend constexpr number operator-(const number &a, const number &b) { number r; r.v = red(wide(a.v) + wide(P::mod()) - wide(b.v)); return r; }
            friend constexpr number operator*(const number &a, const number &b) { number r; r.v = red(wide(a.v) * wide(b.v)); return r; }
            friend constexpr number operator%(const number &a, const number &b) { number r; r.v = a.v % b.v; return r; }
            friend constexpr number operator<<(const number &a, unsigned s) { number r; r.v = red(wide(a.v) << s); return r; }
            friend constexpr number operator>>(const number &a, unsigned s) { number r; r.v = a.v >> s; return r; }
            constexpr number operator-() const { return number(0) - *this; }
            constexpr number &operator+=(const number &b) { return *this = *this + b; }
            constexpr number &operator-=(const number &b) { return *this = *this - b; }
            constexpr number &operator*=(const number &b) { return *this = *this * b; }
            friend constexpr bool operator==(const number &a, const number &b) { return a.v == b.v; }
            friend constexpr bool operator!=(const number &a, const number &b) { return !(a.v == b.v); }
            friend constexpr bool operator<(const number &a, const number &b) { return a.v < b.v; }
            friend constexpr bool operator>(const number &a, const number &b) { return b.v < a.v; }
            friend std::ostream &operator<<(std::ostream &os, const number &a) { return os << a.v; }
        };
    }    // namespace multiprecision
}    // namespace boost
using namespace boost::multiprecision::literals;
