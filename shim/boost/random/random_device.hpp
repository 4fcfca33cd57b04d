// Reproducible stand-in: two runs of a check see the same sequence.
#pragma once
#include <cstdint>
namespace boost { namespace random {
    class random_device {
        std::uint64_t s = 0x9e3779b97f4a7c15ull;
    public:
        using result_type = unsigned int;
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return ~result_type(0); }
        result_type operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (result_type)(s >> 16); }
        double entropy() const { return 32; }
        template<class I> void generate(I b, I e) { for (; b != e; ++b) *b = (*this)(); }
    };
}}
