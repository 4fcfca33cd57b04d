#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
using namespace sxc;

template<typename F, template<typename> class Comp, typename Spec>
void binary(std::size_t w, std::size_t start, bool nonzero, bool batched, Spec spec) {
    using R = Rig<F>; using V = typename R::value; using C = Comp<F>;
    R r(w, 1, 0, 2, start);
    V x = R::input("x"), y = R::input("y");
    if (nonzero) SX_ASSUME(y != V::zero());
    std::vector<std::uint32_t> cols; for (std::size_t i = 0; i < w; i++) cols.push_back(i);
    C comp(cols, std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
    typename C::input_type in; in.x = r.place(x); in.y = r.place(y);
    auto res = r.run(comp, in);
    r.satisfied(); if (!batched) r.sizes(comp);
    V out = r.at(res.output);
    spec(x, y, out);
    SX_ASSERT(C::calculate(x, y) == out, "calculate agrees with the circuit");
    r.dry_run_agrees(comp, in, res);
    SX_REACH("done");
}
template<typename F> using add_c = cmp::addition<typename Rig<F>::A, F, bp::basic_non_native_policy<F>>;
template<typename F> using sub_c = cmp::subtraction<typename Rig<F>::A, F, bp::basic_non_native_policy<F>>;
template<typename F> using mul_c = cmp::multiplication<typename Rig<F>::A, F, bp::basic_non_native_policy<F>>;
template<typename F> using div_c = cmp::division<typename Rig<F>::A, F, bp::basic_non_native_policy<F>>;
template<typename F> using doz_c = cmp::division_or_zero<typename Rig<F>::A, F>;
template<typename F> using mbc_c = cmp::mul_by_constant<typename Rig<F>::A, F>;

#define ALL(name, F) \
    SX_CASE(add_##name) { for (std::size_t s : {0, 3}) binary<F, add_c>(3, s, false, false, [](auto x, auto y, auto o) { SX_ASSERT(o == x + y, "sum"); }); } \
    SX_CASE(sub_##name) { for (std::size_t s : {0, 3}) binary<F, sub_c>(3, s, false, false, [](auto x, auto y, auto o) { SX_ASSERT(o == x - y, "difference"); }); } \
    SX_CASE(mul_##name) { for (std::size_t s : {0, 3}) binary<F, mul_c>(3, s, false, false, [](auto x, auto y, auto o) { SX_ASSERT(o == x * y, "product"); }); } \
    SX_CASE(div_##name) { for (std::size_t s : {0, 3}) binary<F, div_c>(4, s, true, false, [](auto x, auto y, auto o) { SX_ASSERT(o * y == x, "quotient"); }); } \
    SX_CASE(div_or_zero_##name) { for (std::size_t s : {0, 3}) binary<F, doz_c>(5, s, false, false, [](auto x, auto y, auto o) { \
        using V = decltype(x); bool z = y == V::zero(); SX_ASSERT(sel(z, o, V::zero()) == V::zero(), "division by zero gives zero"); SX_ASSERT(sel(z, V::zero(), o * y - x) == V::zero(), "quotient"); }); } \
    SX_CASE(mul_const_##name) { \
        using R = Rig<F>; using V = R::value; using C = mbc_c<F>; R r(2, 1, 1, 2, 1); \
        V x = R::input("x"), k = R::input("k"); \
        C comp({0, 1}, {0}, {}, k); C::input_type in; in.x = r.place(x); \
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp); \
        SX_ASSERT(r.at(res.output) == x * k, "product with the constant"); \
        SX_ASSERT(C::calculate(x, k) == x * k, "calculate agrees with the circuit"); \
        r.dry_run_agrees(comp, in, res); SX_REACH("done"); }

ALL(pallas, fields::pallas_base_field)
ALL(vesta, fields::vesta_base_field)
