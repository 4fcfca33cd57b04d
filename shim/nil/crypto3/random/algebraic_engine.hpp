#pragma once
#include <sxn/field.hpp>
namespace nil {
    namespace crypto3 {
        namespace random {
            // a fixed pseudo-random sequence, so that a run of a check can be repeated
            template<typename Field> struct algebraic_engine {
                std::uint64_t s = 0x9E3779B97F4A7C15ull;
                algebraic_engine() {}
                template<typename T> algebraic_engine(T &&) {}
                std::uint64_t next() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
                void seed(std::uint64_t v) { s = v; }
                typename Field::value_type operator()() { boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<512>> n; for (unsigned i = 0; i < 8; i++) n.l[i] = next(); return typename Field::value_type(n); }
            };
        }    // namespace random
    }    // namespace crypto3
}    // namespace nil
