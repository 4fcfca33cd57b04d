// EVM words: arithmetic modulo 2^256, split into sixteen 16-bit chunks, lowest first.
#include <sx_component.h>
#include <nil/blueprint/zkevm/zkevm_word.hpp>
#include <nil/blueprint/zkevm/stack.hpp>
using namespace sxc;
using W = bp::zkevm_word_type; using N = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>>;
static const N top = (N(1u) << 256) - N(1u);
static N word(const char *n) { return N::input(n, top); }
template<typename F> static void split(const N &n) {
    using V = typename F::value_type;
    auto c = bp::zkevm_word_to_field_element<F>(W(n)); SX_ASSERT(c.size() == 16, "sixteen chunks");
    for (unsigned i = 0; i < 16 && i < c.size(); i++) SX_ASSERT(c[i] == V(typename F::integral_type((n >> (16 * i)) & N(0xffffu))), "a chunk holds its sixteen bits");
}
SX_CASE(split_pallas) { split<fields::pallas_base_field>(word("n")); SX_REACH("split"); }
SX_CASE(split_vesta) { split<fields::vesta_base_field>(word("n")); SX_REACH("split"); }
SX_CASE(chunks) {
    using F = fields::pallas_base_field; using V = F::value_type; using I = F::integral_type;
    I x = I::input("x", (I(1u) << 64) - I(1u)); auto c = bp::chunk_64_to_16<F>(V(x)); SX_ASSERT(c.size() == 4, "four chunks");
    for (unsigned i = 0; i < 4 && i < c.size(); i++) SX_ASSERT(c[i] == V((x >> (16 * i)) & I(0xffffu)), "a chunk holds its sixteen bits");
    SX_REACH("chunks");
}
// numbers of 257 bits are reduced when they become words
SX_CASE(reduced) { N n = N::input("n", top + top + N(1u)); W w = bp::zwordc(n); SX_ASSERT(N(w) == (n & top), "a word is the number modulo 2^256"); SX_REACH("reduced"); }
// words on a stack: last in, first out
static void history(unsigned steps) {
    bp::zkevm_stack s; std::vector<N> model;
    for (unsigned i = 0; i < 3; i++) { N n = word(nm("n", i).c_str()); s.push(W(n)); model.push_back(n); }
    for (unsigned i = 0; i < steps; i++) {
        unsigned what = sx::fork(sx::u32(nm("op", i).c_str(), 0, 4)); std::size_t k = model.size();
        switch (what) {
            case 0: { N n = word(nm("p", i).c_str()); s.push(W(n)); model.push_back(n); break; }
            case 1: if (k) { N got = N(s.pop()); SX_ASSERT(got == model.back(), "the word taken is the last one put"); model.pop_back(); } break;
            case 2: if (k > 1) { s.swap(); std::swap(model[k - 1], model[k - 2]); } break;
            case 3: if (k) { s.dup(); N n = model.back(); model.push_back(n); } break;
            default: if (k) SX_ASSERT(N(s.top()) == model.back(), "the word on top");
        }
    }
    while (!model.empty()) { N got = N(s.pop()); SX_ASSERT(got == model.back(), "what is left on the stack"); model.pop_back(); }
    SX_REACH("stack");
}
SX_CASE(stack_3) { history(3); }
SX_CASE_THOROUGH(stack_4) { history(4); }
