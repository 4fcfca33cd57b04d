// The part of nil-marshalling the library uses: bits of an integer, most significant first.
#pragma once
#include <sxn/field.hpp>
#include <algorithm>
#include <vector>
namespace nil {
    namespace marshalling {
        enum class status_type { success = 0, not_enough_data, protocol_error, buffer_overflow, invalid_msg_data, not_supported, error_status_amount };
        namespace option { struct big_endian { }; struct little_endian { }; }
        namespace endian { using option::big_endian; using option::little_endian; }
        template<typename... O> struct field_type { };
        namespace detail {
            template<typename N> struct packed {
                N v; unsigned bits; bool big;
                template<typename C> operator C() const {
                    C c = make(static_cast<C *>(nullptr));
                    for (unsigned i = 0; i < bits; i++) c[big ? bits - 1 - i : i] = bit_test(v, i);
                    return c;
                }
                template<typename T> std::vector<T> make(std::vector<T> *) const { return std::vector<T>(bits); }
                template<typename T, std::size_t K> std::array<T, K> make(std::array<T, K> *) const { if (K != bits) throw std::length_error("pack: size"); return std::array<T, K> {}; }
            };
        }
        template<typename E, unsigned B, boost::multiprecision::expression_template_option X>
        detail::packed<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, X>>
            pack(const boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, X> &v, status_type &s) {
            s = status_type::success; return {v, B, std::is_same<E, option::big_endian>::value};
        }
        // a field element packs as its least non-negative representative, in as many bits as the modulus has
        template<typename E, typename F>
        auto pack(const nil::crypto3::algebra::fields::detail::element_fp<F> &v, status_type &s) {
            using I = typename F::integral_type; s = status_type::success;
            return detail::packed<I> {I(v.data), F::modulus_bits, std::is_same<E, option::big_endian>::value};
        }
    }    // namespace marshalling
}    // namespace nil
