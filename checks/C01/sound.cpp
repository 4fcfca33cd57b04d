#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A;

template<typename C> void binary(std::size_t w, std::vector<std::pair<int, int>> at, const char *msg) {
    for (auto xy : at) for (std::size_t start : {0, 2}) {
        R r(w, 1, 0, 2, start);
        std::vector<std::uint32_t> cols; for (std::size_t i = 0; i < w; i++) cols.push_back(i);
        C comp(cols, std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        typename C::input_type in; in.x = r.place(V(xy.first)); in.y = r.place(V(xy.second));
        auto res = r.run(comp, in);
        R::Goal g; g.outputs = {res.output}; r.sound(g, msg);
    }
    SX_REACH("done");
}
SX_CASE(add) { binary<cmp::addition<A, F, bp::basic_non_native_policy<F>>>(3, {{5, 7}, {0, 0}}, "the sum is the only satisfying output"); }
SX_CASE(sub) { binary<cmp::subtraction<A, F, bp::basic_non_native_policy<F>>>(3, {{5, 7}, {0, 0}}, "the difference is the only satisfying output"); }
SX_CASE(mul) { binary<cmp::multiplication<A, F, bp::basic_non_native_policy<F>>>(3, {{5, 7}, {0, 0}}, "the product is the only satisfying output"); }
SX_CASE(div) { binary<cmp::division<A, F, bp::basic_non_native_policy<F>>>(4, {{5, 7}, {0, 3}}, "the quotient is the only satisfying output"); }
SX_CASE(div_by_zero) {
    R r(4, 1, 0, 2, 0); cmp::division<A, F, bp::basic_non_native_policy<F>> comp({0, 1, 2, 3}, {}, {});
    cmp::division<A, F, bp::basic_non_native_policy<F>>::input_type in; in.x = r.place(V(5)); in.y = r.place(V(7));
    r.run(comp, in);
    R::Goal g; g.infeasible = {{in.y, V::zero()}}; g.inputs_free = true; r.sound(g, "no assignment divides by zero"); SX_REACH("done");
}
SX_CASE(div_or_zero) { binary<cmp::division_or_zero<A, F>>(5, {{5, 7}, {0, 0}, {5, 0}, {0, 5}}, "the quotient, or zero, is the only satisfying output"); }
SX_CASE(mul_const) {
    for (int k : {0, 9}) {
        R r(2, 1, 1, 2, 1); using C = cmp::mul_by_constant<A, F>; C comp({0, 1}, {0}, {}, V(k)); C::input_type in; in.x = r.place(V(4));
        auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output}; r.sound(g, "the product is the only satisfying output");
    }
    SX_REACH("done");
}
