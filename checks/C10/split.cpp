// Splitting a word into chunks, its sparse form, and the way back (parity, majority, choice).
#include <sx_api.h>
#include <sxn/field.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>
#include <string>
using F = nil::crypto3::algebra::fields::pallas_base_field;
using I = F::integral_type;
namespace D = nil::blueprint::components::detail;
using sizes_t = std::vector<std::size_t>;
static std::size_t total(const sizes_t &s) { std::size_t n = 0; for (auto x : s) n += x; return n; }

static void split(const sizes_t &sizes, std::size_t base) {
    std::size_t n = total(sizes);
    std::vector<bool> bits(n);
    std::vector<std::uint64_t> b(n);    // b[0] is the most significant bit
    for (std::size_t i = 0; i < n; i++) { b[i] = sx::u64(("b" + std::to_string(i)).c_str(), 0, 1); bits.begin()._M_p[i / 64] |= b[i] << (i % 64); }    // (assigning through bits[i] would branch on the bit)
    auto r = D::split_and_sparse<F>(bits, sizes, base);
    SX_ASSERT(r[0].size() == sizes.size() && r[1].size() == sizes.size(), "one chunk per requested size");
    std::size_t low = 0;    // position of the chunk's lowest bit, counted from the end of the word
    for (std::size_t i = 0; i < sizes.size(); i++) {
        I normal = 0, sparse = 0, p2 = 1, pb = 1;
        for (std::size_t j = 0; j < sizes[i]; j++) { I bit = b[n - 1 - low - j]; normal += bit * p2; sparse += bit * pb; p2 *= 2; pb *= base; }
        SX_ASSERT(r[0][i] == normal, "a chunk is the slice of the word it names");
        SX_ASSERT(r[1][i] == sparse, "the sparse chunk has the chunk's bits as its digits");
        low += sizes[i];
    }
    SX_REACH("split");
}
// kind: 0 parity of a digit, 1 majority of three bits added up, 2 choice encoded as e + 2f + 3g
static void reversed(const sizes_t &sizes, std::size_t base, int kind) {
    std::size_t n = total(sizes);
    std::vector<std::uint64_t> digit(n), bit(n);    // [0] is the least significant
    I value = 0, pb = 1;
    for (std::size_t i = 0; i < n; i++) {
        std::string k = std::to_string(i);
        if (kind == 0) { digit[i] = sx::u64(("d" + k).c_str(), 0, base - 1); bit[i] = digit[i] & 1; }
        else {
            std::uint64_t x = sx::u64(("x" + k).c_str(), 0, 1), y = sx::u64(("y" + k).c_str(), 0, 1), z = sx::u64(("z" + k).c_str(), 0, 1);
            digit[i] = kind == 1 ? x + y + z : x + 2 * y + 3 * z;
            bit[i] = kind == 1 ? (x & y) ^ (x & z) ^ (y & z) : (x & y) ^ ((x ^ 1) & z);
        }
        value += I(digit[i]) * pb; pb *= base;
    }
    auto r = kind == 0 ? D::reversed_sparse_and_split<F>(value, sizes, base) : kind == 1 ? D::reversed_sparse_and_split_maj<F>(value, sizes, base) : D::reversed_sparse_and_split_ch<F>(value, sizes, base);
    SX_ASSERT(r[0].size() == sizes.size() && r[1].size() == sizes.size(), "one chunk per requested size");
    std::size_t low = 0;
    for (std::size_t i = 0; i < sizes.size(); i++) {
        I normal = 0, sparse = 0, p2 = 1, pw = 1;
        for (std::size_t j = 0; j < sizes[i]; j++) { normal += I(bit[low + j]) * p2; sparse += I(digit[low + j]) * pw; p2 *= 2; pw *= base; }
        SX_ASSERT(r[0][i] == normal, "the chunk's bits are the function of the three operands' bits");
        SX_ASSERT(r[1][i] == sparse, "the sparse chunk keeps the digits");
        low += sizes[i];
    }
    SX_REACH("reversed");
}
SX_CASE(split_256_a_base4) { split({3, 4, 11, 14}, 4); }
SX_CASE(split_256_w_base4) { split({10, 7, 2, 13}, 4); }
SX_CASE(split_256_a_big_base4) { split({2, 11, 9, 10}, 4); }
SX_CASE(split_256_e_base7) { split({6, 5, 14, 7}, 7); }
SX_CASE(split_256_whole_base7) { split({32}, 7); }
SX_CASE(split_512_base4) { split({1, 6, 1, 56}, 4); }
SX_CASE(split_512_big_base4) { split({28, 6, 5, 25}, 4); }
SX_CASE(split_512_base7) { split({14, 4, 23, 23}, 7); }
SX_CASE(split_bytes_base4) { split({8, 8, 8, 8}, 4); }
SX_CASE(reversed_256_base4) { reversed({14, 14, 2, 2}, 4, 0); }
SX_CASE(reversed_256_bytes_base7) { reversed({8, 8, 8, 8}, 7, 0); }
SX_CASE(reversed_512_base4) { reversed({14, 14, 14, 14, 8}, 4, 0); }
SX_CASE(maj_256_base4) { reversed({8, 8, 8, 8}, 4, 1); }
SX_CASE(maj_512_base4) { reversed({8, 8, 8, 8, 8, 8, 8, 8}, 4, 1); }
SX_CASE(ch_256_base7) { reversed({8, 8, 8, 8}, 7, 2); }
SX_CASE(ch_512_base7) { reversed({8, 8, 8, 8, 8, 8, 8, 8}, 7, 2); }
// any three chunk sizes, any base up to 16
static sizes_t any(std::size_t &base) {
    base = sx::fork(sx::u64("base", 2, 16));
    sizes_t s(sx::fork(sx::u64("chunks", 1, 3)));
    for (std::size_t i = 0; i < s.size(); i++) s[i] = sx::fork(sx::u64(("size" + std::to_string(i)).c_str(), 1, 4));
    return s;
}
SX_CASE(split_any) { std::size_t base; auto s = any(base); split(s, base); }
SX_CASE(reversed_any) { std::size_t base; auto s = any(base); reversed(s, base, 0); }
SX_CASE_THOROUGH(maj_any) { std::size_t base; auto s = any(base); SX_ASSUME(base >= 4); reversed(s, base, 1); }
SX_CASE_THOROUGH(ch_any) { std::size_t base; auto s = any(base); SX_ASSUME(base >= 7); reversed(s, base, 2); }
