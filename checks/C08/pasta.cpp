#include <sx_component.h>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/unified_addition.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp>
using namespace sxc;
namespace cv = nil::crypto3::algebra::curves;
using F = cv::pallas::base_field_type; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
static std::vector<std::uint32_t> none, zero = {0};
using Add = cmp::unified_addition<A, cv::pallas>;

struct P { V x, y; };
static void add(P p, P q, V x, V y, std::size_t start) {
    R r(11, 1, 0, 2, start); Add comp(seq(11), none, none); Add::input_type in; in.P.x = r.place(p.x); in.P.y = r.place(p.y); in.Q.x = r.place(q.x); in.Q.y = r.place(q.y);
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.X) == x, "abscissa of the sum"); SX_ASSERT(r.at(res.Y) == y, "ordinate of the sum"); r.satisfied(); r.sizes(comp);
}
static P point(const char *x, const char *y) { P p{R::input(x), R::input(y)}; SX_ASSUME(p.y * p.y == p.x * p.x * p.x + V(5)); return p; }
static P chord(P p, P q, V l) { V x = l * l - p.x - q.x; return {x, l * (p.x - x) - p.y}; }
SX_CASE(add_distinct) { P p = point("px", "py"), q = point("qx", "qy"); SX_ASSUME(p.x != q.x); P s = chord(p, q, (q.y - p.y) * (q.x - p.x).inversed()); add(p, q, s.x, s.y, 1); SX_REACH("done"); }
SX_CASE(add_same) { P p = point("px", "py"); SX_ASSUME(p.y != V(0)); SX_ASSUME(p.x != V(0)); P s = chord(p, p, V(3) * p.x * p.x * (V(2) * p.y).inversed()); add(p, p, s.x, s.y, 0); SX_REACH("done"); }
SX_CASE(add_opposite) { P p = point("px", "py"); SX_ASSUME(p.x != V(0)); add(p, P{p.x, -p.y}, V(0), V(0), 0); SX_REACH("done"); }
SX_CASE(add_zero_left) { P p = point("px", "py"); SX_ASSUME(p.x != V(0)); add(P{V(0), V(0)}, p, p.x, p.y, 0); SX_REACH("done"); }
SX_CASE(add_zero_right) { P p = point("px", "py"); SX_ASSUME(p.x != V(0)); add(p, P{V(0), V(0)}, p.x, p.y, 2); SX_REACH("done"); }
SX_CASE(add_zeros) { add(P{V(0), V(0)}, P{V(0), V(0)}, V(0), V(0), 0); SX_REACH("done"); }
// whatever else is assigned, the sum of two points is the one above
static P twice(P p) { return chord(p, p, V(3) * p.x * p.x * (V(2) * p.y).inversed()); }
// 0: on the curve, 1: zero;  how: 0 distinct abscissae, 1 same point, 2 opposite
static void add_sound(P p, P q, int pz, int qz, int how) {
    R r(11, 1, 0, 2, 1); Add comp(seq(11), none, none); Add::input_type in; in.P.x = r.place(p.x); in.P.y = r.place(p.y); in.Q.x = r.place(q.x); in.Q.y = r.place(q.y);
    auto res = r.run(comp, in); R::Goal g; g.outputs = {res.X, res.Y};
    auto on = [&](R::var x, R::var y, int z) {
        if (z) { g.linear.push_back({V(0), {{V(1), x}}}); g.linear.push_back({V(0), {{V(1), y}}}); return; }
        g.relations.push_back({{x, y}, [](const std::vector<V> &v) { return v[1] * v[1] - v[0] * v[0] * v[0] - V(5); }}); g.nonzero.push_back(x); g.nonzero.push_back(y);
    };
    on(in.P.x, in.P.y, pz); on(in.Q.x, in.Q.y, qz);
    if (how) { g.linear.push_back({V(0), {{V(1), in.P.x}, {-V(1), in.Q.x}}}); g.linear.push_back({V(0), {{V(1), in.P.y}, {how == 1 ? -V(1) : V(1), in.Q.y}}}); }
    else if (!pz && !qz) g.nonzeros.push_back({{in.P.x, in.Q.x}, [](const std::vector<V> &v) { return v[0] - v[1]; }});
    r.sound(g, "the sum follows from the summands");
}
// no point has a zero coordinate: 5 is not a square and -5 not a cube
SX_CASE(no_zero_coordinate) {
    SX_ASSERT(!V(5).is_square(), "5 is not a square"); V t = V(1), b = -V(5); I e = (I(V::modulus) - I(1)) / I(3);
    for (int i = 254; i >= 0; i--) { t = t * t; if (((e >> i) & I(1)) != I(0)) t = t * b; }
    SX_ASSERT(t != V(1), "-5 is not a cube"); SX_REACH("done");
}
static const P o{V(0), V(0)};
SX_CASE(add_sound_distinct) { P g{-V(1), V(2)}; add_sound(g, twice(g), 0, 0, 0); SX_REACH("done"); }
SX_CASE(add_sound_same) { P g{-V(1), V(2)}; add_sound(g, g, 0, 0, 1); SX_REACH("done"); }
SX_CASE(add_sound_opposite) { P g{-V(1), V(2)}; add_sound(g, P{g.x, -g.y}, 0, 0, 2); SX_REACH("done"); }
SX_CASE(add_sound_left) { P g{-V(1), V(2)}; add_sound(o, g, 1, 0, 0); SX_REACH("done"); }
SX_CASE(add_sound_right) { P g{-V(1), V(2)}; add_sound(g, o, 0, 1, 0); SX_REACH("done"); }
SX_CASE(add_sound_zeros) { add_sound(o, o, 1, 1, 0); SX_REACH("done"); }

// (a, b) from the crumbs of a 128 bit scalar, a * endo_r + b
template<typename Curve> static void endo(const char *name, unsigned at, std::size_t start, unsigned long long hi, unsigned long long lo) {
    using S = typename Curve::scalar_field_type; using RS = Rig<S>; using VS = typename RS::value; using IS = typename RS::integral; using Endo = cmp::endo_scalar<typename RS::A, Curve>;
    unsigned w = sx::fork(sx::u32(name, 0, 15));
    IS s = ((IS(hi) << 64) + IS(lo)) ^ (IS(w) << at);
    RS r(15, 1, 0, 4, start); Endo comp(seq(15), none, none, 128); typename Endo::input_type in; in.scalar = r.place(VS(s)); auto res = r.run(comp, in);
    VS a(2), b(2); for (int i = 0; i < 64; i++) { a = a + a; b = b + b; }
    VS p(1); for (int i = 0; i < 64; i++) { VS one = ((s >> (2 * i)) & IS(1)) != IS(0) ? p : -p; if (((s >> (2 * i + 1)) & IS(1)) != IS(0)) a = a + one; else b = b + one; p = p + p; }
    VS e = Endo::endo_r; SX_ASSERT(e * e * e == VS(1), "endo_r is a cube root of one"); SX_ASSERT(e != VS(1), "and not one itself");
    SX_ASSERT(r.at(res.output) == a * e + b, "scalar"); r.satisfied(); r.sizes(comp);
}
SX_CASE(endo_pallas_0) { endo<cv::pallas>("w", 0, 0, 0x8a3f00ff12345678ull, 0xfedcba9876543210ull); SX_REACH("done"); }
SX_CASE(endo_pallas_14) { endo<cv::pallas>("w", 14, 1, 0x8a3f00ff12345678ull, 0xfedcba9876543210ull); SX_REACH("done"); }
SX_CASE(endo_pallas_62) { endo<cv::pallas>("w", 62, 0, 0, 0); SX_REACH("done"); }
SX_CASE(endo_pallas_124) { endo<cv::pallas>("w", 124, 2, 0x8a3f00ff12345678ull, 0); SX_REACH("done"); }
SX_CASE(endo_vesta_2) { endo<cv::vesta>("w", 2, 1, 0, 0xffffffffffffffffull); SX_REACH("done"); }
SX_CASE(endo_vesta_112) { endo<cv::vesta>("w", 112, 0, 0x123456789abcdef0ull, 0xffffffffffffffffull); SX_REACH("done"); }
template<typename Curve> static void endo_sound() {
    using S = typename Curve::scalar_field_type; using RS = Rig<S>; using VS = typename RS::value; using Endo = cmp::endo_scalar<typename RS::A, Curve>;
    RS r(15, 1, 0, 4, 1); Endo comp(seq(15), none, none, 128); typename Endo::input_type in; in.scalar = r.place(VS(0xfedcba9876543210ull)); auto res = r.run(comp, in);
    typename RS::Goal g; g.outputs = {res.output}; r.sound(g, "the scalar follows from the challenge");
    typename RS::Goal h; h.inputs_free = true; h.bounded = {{in.scalar, (typename RS::integral(1) << 128) - typename RS::integral(1)}}; r.sound(h, "longer challenges are refused");
}
SX_CASE(endo_sound_pallas) { endo_sound<cv::pallas>(); SX_REACH("done"); }
SX_CASE(endo_sound_vesta) { endo_sound<cv::vesta>(); SX_REACH("done"); }
