// Prime field elements: concrete limbs plus, when symbolic, the engine's finite-field node.
#pragma once
#include <sxn/num.hpp>

namespace sxn {
    template<typename T> constexpr T parsed(const char *s) { T r; r.parse(s); return r; }
    template<typename Field> struct fp_data {
        static constexpr unsigned N = (Field::modulus_bits + 63) / 64;
        using number_type = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Field::modulus_bits>>;
        std::uint64_t l[N] = {};
        std::uint32_t sym = 0;
        constexpr fp_data() {}
        constexpr number_type as_number() const {
            number_type r; for (unsigned i = 0; i < N; i++) r.l[i] = l[i];
            if (sym) r.sym = __sx_bv_of_ff(sym, Field::modulus_bits);
            return r;
        }
        // values below the modulus only, as the sources use it
        constexpr fp_data &operator=(const number_type &n) { for (unsigned i = 0; i < N; i++) l[i] = n.l[i]; sym = n.sym ? __sx_ff_of_bv(fid_of(), n.sym) : 0; return *this; }
        static std::uint32_t fid_of() { static const std::uint32_t id = __sx_field(Field::modulus.l, N); return id; }
        constexpr operator number_type() const { return as_number(); }
        constexpr const fp_data &backend() const { return *this; }
        constexpr number_type base_data() const { return as_number(); }
        template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> explicit constexpr operator T() const { return static_cast<T>(as_number()); }
        template<typename T> constexpr T convert_to() const { return static_cast<T>(as_number()); }
        bool is_zero() const { return as_number().is_zero(); }
        std::string str(std::streamsize s = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const { return as_number().str(s, f); }
        friend std::ostream &operator<<(std::ostream &os, const fp_data &d) { return os << d.as_number(); }
    };
    template<typename F> struct is_data<fp_data<F>> : std::true_type {};
#define SXN_OP(op) \
    template<typename F, typename T> constexpr auto operator op(const fp_data<F> &a, const T &b) -> decltype(a.as_number() op b) { return a.as_number() op b; } \
    template<typename F> constexpr auto operator op(const fp_data<F> &a, const fp_data<F> &b) { return a.as_number() op b.as_number(); }
    SXN_OP(>>) SXN_OP(<<) SXN_OP(&) SXN_OP(|) SXN_OP(==) SXN_OP(!=) SXN_OP(<) SXN_OP(>) SXN_OP(<=) SXN_OP(>=) SXN_OP(%) SXN_OP(/) SXN_OP(-)
#undef SXN_OP
}    // namespace sxn

namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace fields {
                namespace detail {
                    template<typename Field> struct element_fp {
                        using field_type = Field;
                        using data_type = sxn::fp_data<Field>;
                        using integral_type = typename data_type::number_type;
                        static constexpr unsigned N = data_type::N;
                        data_type data;
                        static constexpr integral_type modulus = Field::modulus;

                        static std::uint32_t fid() { static const std::uint32_t id = __sx_field(Field::modulus.l, N); return id; }
                        constexpr element_fp() {}
                        constexpr element_fp(const element_fp &) = default;
                        constexpr element_fp &operator=(const element_fp &) = default;
                        constexpr element_fp(const data_type &d) : data(d) {}
                        template<typename T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, bool> = true>
                        constexpr element_fp(T v) {
                            bool neg = std::is_signed<T>::value && v < T(0);
                            integral_type m(neg ? T(-v) : v);
                            *this = element_fp(m);
                            if (neg) *this = -*this;
                        }
                        template<unsigned B, boost::multiprecision::expression_template_option E>
                        constexpr element_fp(const boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, E> &v) {
                            constexpr unsigned M = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, E>::N;
                            std::uint64_t q[M + 1] = {};
                            sxraw::divrem(q, data.l, v.l, M, Field::modulus.l, N);
                            if (v.sym) data.sym = __sx_ff_of_bv(fid(), v.sym);
                        }
                        template<typename F2, std::enable_if_t<!std::is_same<F2, Field>::value, bool> = true>
                        constexpr element_fp(const sxn::fp_data<F2> &d) : element_fp(d.as_number()) {}

                        static element_fp ite(bool c, const element_fp &a, const element_fp &b) {    // choice without a branch
                            std::uint64_t cc = c, m = 0 - __sx_plain64(cc); element_fp r;
                            for (unsigned i = 0; i < N; i++) r.data.l[i] = (a.data.l[i] & m) | (b.data.l[i] & ~m);
                            std::uint32_t cs = __sx_shadow64(cc);
                            if (cs) r.data.sym = __sx_ite(m != 0, cs, fid(), a.data.sym, b.data.sym, a.data.l, b.data.l); else r.data.sym = m ? a.data.sym : b.data.sym;
                            return r;
                        }
                        static element_fp input(const char *name) { element_fp r; r.data.sym = __sx_ff_input(name, fid(), r.data.l, N); return r; }
                        static constexpr element_fp zero() { return element_fp(); }
                        static constexpr element_fp one() { element_fp r; r.data.l[0] = 1; return r; }
                        constexpr bool is_zero() const { return *this == zero(); }
                        constexpr bool is_one() const { return *this == one(); }
                        static constexpr element_fp bin(std::uint32_t op, const element_fp &a, const element_fp &b) {
                            element_fp r;
                            switch (op) {
                                case sxn::F_ADD: sxraw::addmod(r.data.l, a.data.l, b.data.l, Field::modulus.l, N); break;
                                case sxn::F_SUB: sxraw::submod(r.data.l, a.data.l, b.data.l, Field::modulus.l, N); break;
                                default: sxraw::mulmod(r.data.l, a.data.l, b.data.l, Field::modulus.l, N); break;
                            }
                            if (a.data.sym | b.data.sym) r.data.sym = __sx_ff_op(op, fid(), a.data.sym, b.data.sym, a.data.l, b.data.l);
                            return r;
                        }
                        constexpr element_fp powraw(const std::uint64_t *e, unsigned n) const {    // concrete exponent
                            element_fp r = one(); bool any = false;
                            for (unsigned i = n * 64; i-- > 0;) { if (any) r = r * r; if ((e[i / 64] >> (i % 64)) & 1) { r = any ? r * *this : *this; any = true; } }
                            return r;
                        }
                        constexpr element_fp inversed() const {
                            element_fp c = *this; c.data.sym = 0;
                            integral_type e = Field::modulus - 2;
                            element_fp r = c.powraw(e.l, N);
                            if (data.sym) r.data.sym = __sx_ff_op(sxn::F_INV, fid(), data.sym, 0, data.l, nullptr);
                            return r;
                        }
                        template<typename T> constexpr element_fp pow(const T &e0) const {
                            integral_type e(e0);
                            if (!__builtin_is_constant_evaluated() && e.sym) { element_fp r = one(), b = *this; while (!e.is_zero()) { if (bit_test(e, 0)) r = r * b; b = b * b; e >>= 1; } return r; }
                            return powraw(e.l, N);
                        }
                        constexpr element_fp squared() const { return *this * *this; }
                        constexpr element_fp doubled() const { return *this + *this; }
                        bool is_square() const {
                            element_fp c = *this; c.data.sym = 0;
                            integral_type e = (Field::modulus - 1) >> 1; element_fp t = c.powraw(e.l, N);
                            bool v = t == zero() || t == one();
                            if (data.sym) return __sx_taint1(v, __sx_ff_cmp(sxn::C_ISSQ, fid(), data.sym, 0, data.l, nullptr));
                            return v;
                        }
                        element_fp sqrt() const {    // a root of a square; for other values the result is unspecified
                            element_fp c = *this; c.data.sym = 0;
                            element_fp r = c.root();
                            if (data.sym) r.data.sym = __sx_ff_op(sxn::F_SQRT, fid(), data.sym, 0, data.l, nullptr);
                            return r;
                        }
                        element_fp root() const {    // Tonelli-Shanks on the concrete value
                            if (is_zero() || !is_square()) return zero();
                            integral_type q = Field::modulus - 1; unsigned s = 0; while (!(q.l[0] & 1)) { q = q >> 1; s++; }
                            element_fp z = 2; while (z.is_square()) z = z + one();
                            element_fp cc = z.powraw(q.l, N), t = powraw(q.l, N); integral_type h = (q + 1) >> 1; element_fp r = powraw(h.l, N); unsigned m = s;
                            while (!(t == one())) {
                                unsigned i = 0; element_fp u = t; while (!(u == one())) { u = u * u; i++; }
                                element_fp b = cc; for (unsigned j = 0; j + i + 1 < m; j++) b = b * b;
                                m = i; cc = b * b; t = t * cc; r = r * b;
                            }
                            return r;
                        }
                        friend constexpr element_fp operator+(const element_fp &a, const element_fp &b) { return bin(sxn::F_ADD, a, b); }
                        friend constexpr element_fp operator-(const element_fp &a, const element_fp &b) { return bin(sxn::F_SUB, a, b); }
                        friend constexpr element_fp operator*(const element_fp &a, const element_fp &b) { return bin(sxn::F_MUL, a, b); }
                        friend constexpr element_fp operator/(const element_fp &a, const element_fp &b) { return a * b.inversed(); }
                        constexpr element_fp operator-() const { return zero() - *this; }
                        constexpr element_fp &operator+=(const element_fp &b) { return *this = *this + b; }
                        constexpr element_fp &operator-=(const element_fp &b) { return *this = *this - b; }
                        constexpr element_fp operator++(int) { element_fp r = *this; ++*this; return r; }
                        constexpr element_fp operator--(int) { element_fp r = *this; --*this; return r; }
                        constexpr element_fp &operator*=(const element_fp &b) { return *this = *this * b; }
                        constexpr element_fp &operator/=(const element_fp &b) { return *this = *this / b; }
                        constexpr element_fp &operator++() { return *this += one(); }
                        constexpr element_fp &operator--() { return *this -= one(); }
                        static constexpr bool cmp(std::uint32_t op, const element_fp &a, const element_fp &b) {
                            int c = sxraw::cmp(a.data.l, b.data.l, N);
                            bool v = op == sxn::C_EQ ? c == 0 : op == sxn::C_LT ? c < 0 : c <= 0;
                            if (!__builtin_is_constant_evaluated() && (a.data.sym | b.data.sym)) return __sx_taint1(v, __sx_ff_cmp(op, fid(), a.data.sym, b.data.sym, a.data.l, b.data.l));
                            return v;
                        }
                        friend constexpr bool operator==(const element_fp &a, const element_fp &b) { return cmp(sxn::C_EQ, a, b); }
                        friend constexpr bool operator!=(const element_fp &a, const element_fp &b) { return !cmp(sxn::C_EQ, a, b); }
                        friend constexpr bool operator<(const element_fp &a, const element_fp &b) { return cmp(sxn::C_LT, a, b); }
                        friend constexpr bool operator>(const element_fp &a, const element_fp &b) { return cmp(sxn::C_LT, b, a); }
                        friend constexpr bool operator<=(const element_fp &a, const element_fp &b) { return cmp(sxn::C_LE, a, b); }
                        friend constexpr bool operator>=(const element_fp &a, const element_fp &b) { return cmp(sxn::C_LE, b, a); }
                        friend std::ostream &operator<<(std::ostream &os, const element_fp &a) { return os << a.data; }
                    };
                    template<typename Field, typename T> constexpr element_fp<Field> power(const element_fp<Field> &a, const T &e) { return a.pow(e); }
                }    // namespace detail

#define SXN_FIELD(name, mbits, hex) \
                struct name { \
                    static constexpr std::size_t modulus_bits = mbits, value_bits = mbits, number_bits = mbits, arity = 1; \
                    using integral_type = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<mbits>>; \
                    using extended_integral_type = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<2 * mbits>>; \
                    static constexpr integral_type modulus = sxn::parsed<integral_type>(hex); \
                    using value_type = detail::element_fp<name>; \
                    using base_field_type = name; using underlying_field_type = name; \
                    static constexpr std::size_t capacity() { return mbits - 1; } \
                };
                SXN_FIELD(pallas_base_field, 255, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
                SXN_FIELD(vesta_base_field, 255, "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
                SXN_FIELD(curve25519_base_field, 255, "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
                SXN_FIELD(curve25519_scalar_field, 253, "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
                SXN_FIELD(goldilocks64_base_field, 64, "0xffffffff00000001")
                template<std::size_t V> struct bls12_base_field;
                template<std::size_t V> struct bls12_scalar_field;
                SXN_FIELD(bls12_base_field_381, 381, "0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
                SXN_FIELD(bls12_scalar_field_381, 255, "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
                template<> struct bls12_base_field<381> : bls12_base_field_381 {};
                template<> struct bls12_scalar_field<381> : bls12_scalar_field_381 {};
                using pallas_scalar_field = vesta_base_field;
                using vesta_scalar_field = pallas_base_field;
                using pallas_fq = pallas_base_field;
                using vesta_fq = vesta_base_field;
                using ed25519_fq = curve25519_base_field;
                using goldilocks64 = goldilocks64_base_field;
            }    // namespace fields
        }    // namespace algebra
    }    // namespace crypto3
}    // namespace nil
