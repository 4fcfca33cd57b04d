// Affine groups of the curves the library names, with the interface of crypto3-algebra.
#pragma once
#include <sxn/field.hpp>
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace coordinates { struct affine; struct projective; struct jacobian; struct jacobian_with_a4_0; struct extended_with_a_minus_1; struct inverted; }
                namespace forms { struct short_weierstrass; struct edwards; struct twisted_edwards; struct montgomery; }
                namespace detail {
                    template<typename F> struct point_base {
                        using field_type = F; using V = typename F::value_type;
                        V X, Y;
                        point_base() {}
                        point_base(const V &x, const V &y) : X(x), Y(y) {}
                    };
                    // y^2 = x^3 + b; the point at infinity is (0, 1)
                    template<typename Curve, typename Form> struct point : point_base<typename Curve::base_field_type> {
                        using V = typename Curve::base_field_type::value_type; using base = point_base<typename Curve::base_field_type>;
                        point() : base(V::zero(), V::one()) {}
                        point(const V &x, const V &y) : base(x, y) {}
                        static point zero() { return point(); }
                        static point one() { return point(Curve::gx(), Curve::gy()); }
                        bool is_zero() const { return this->X == V::zero() && this->Y == V::one(); }
                        bool operator==(const point &o) const { return this->X == o.X && this->Y == o.Y; }
                        bool operator!=(const point &o) const { return !(*this == o); }
                        bool is_well_formed() const { return is_zero() || this->Y * this->Y == this->X * this->X * this->X + V(Curve::b); }
                        point operator-() const { return is_zero() ? *this : point(this->X, -this->Y); }
                        point operator+(const point &o) const {
                            if (is_zero()) return o;
                            if (o.is_zero()) return *this;
                            V l;
                            if (this->X == o.X) { if (!(this->Y == o.Y) || this->Y.is_zero()) return zero(); l = V(3) * this->X * this->X * (V(2) * this->Y).inversed(); }
                            else l = (o.Y - this->Y) * (o.X - this->X).inversed();
                            V x = l * l - this->X - o.X; return point(x, l * (this->X - x) - this->Y);
                        }
                        point operator-(const point &o) const { return *this + (-o); }
                        point doubled() const { return *this + *this; }
                        point to_affine() const { return *this; }
                        template<typename T> point times(T k) const { point r, p = *this; while (k != 0) { if ((k & 1) != 0) r = r + p; p = p + p; k = k >> 1; } return r; }
                    };
                    template<typename P> auto mul(const P &p, const typename P::scalar_type &s) { return p; }
                    // -x^2 + y^2 = 1 + d x^2 y^2; the neutral element is (0, 1)
                    template<typename Curve> struct point<Curve, forms::twisted_edwards> : point_base<typename Curve::base_field_type> {
                        using V = typename Curve::base_field_type::value_type; using base = point_base<typename Curve::base_field_type>;
                        point() : base(V::zero(), V::one()) {}
                        point(const V &x, const V &y) : base(x, y) {}
                        static point zero() { return point(); }
                        static point one() { return point(Curve::gx(), Curve::gy()); }
                        bool is_zero() const { return this->X == V::zero() && this->Y == V::one(); }
                        bool operator==(const point &o) const { return this->X == o.X && this->Y == o.Y; }
                        bool operator!=(const point &o) const { return !(*this == o); }
                        bool is_well_formed() const { V x = this->X * this->X, y = this->Y * this->Y; return y - x == V::one() + V(Curve::d()) * x * y; }
                        point operator-() const { return point(-this->X, this->Y); }
                        point operator+(const point &o) const {
                            V k = V(Curve::d()) * this->X * o.X * this->Y * o.Y;
                            return point((this->X * o.Y + this->Y * o.X) * (V::one() + k).inversed(), (this->Y * o.Y + this->X * o.X) * (V::one() - k).inversed());
                        }
                        point operator-(const point &o) const { return *this + (-o); }
                        point doubled() const { return *this + *this; }
                        point to_affine() const { return *this; }
                        template<typename T> point times(T k) const { point r, p = *this; while (k != 0) { if ((k & 1) != 0) r = r + p; p = p + p; k = k >> 1; } return r; }
                    };
                    template<typename C, typename Fm, typename S> auto operator*(const point<C, Fm> &p, const S &s) -> std::enable_if_t<std::is_same<S, typename C::scalar_field_type::value_type>::value, point<C, Fm>> { return p.times(s.data.as_number()); }
                    template<typename C, typename Fm, typename S> auto operator*(const S &s, const point<C, Fm> &p) -> std::enable_if_t<std::is_same<S, typename C::scalar_field_type::value_type>::value, point<C, Fm>> { return p.times(s.data.as_number()); }
                    template<typename C, typename Fm> point<C, Fm> operator*(std::size_t k, const point<C, Fm> &p) { return p.times(k); }
                }    // namespace detail
                struct pallas {
                    using base_field_type = fields::pallas_base_field; using scalar_field_type = fields::vesta_base_field;
                    static constexpr unsigned a = 0, b = 5;
                    static base_field_type::value_type gx() { return -base_field_type::value_type::one(); }
                    static base_field_type::value_type gy() { return 2; }
                    template<typename C = coordinates::affine, typename Fm = forms::short_weierstrass> struct g1_type { using field_type = base_field_type; using value_type = detail::point<pallas, forms::short_weierstrass>; using curve_type = pallas; };
                };
                struct vesta {
                    using base_field_type = fields::vesta_base_field; using scalar_field_type = fields::pallas_base_field;
                    static constexpr unsigned a = 0, b = 5;
                    static base_field_type::value_type gx() { return -base_field_type::value_type::one(); }
                    static base_field_type::value_type gy() { return 2; }
                    template<typename C = coordinates::affine, typename Fm = forms::short_weierstrass> struct g1_type { using field_type = base_field_type; using value_type = detail::point<vesta, forms::short_weierstrass>; using curve_type = vesta; };
                };
                struct ed25519 {
                    using base_field_type = fields::curve25519_base_field; using scalar_field_type = fields::curve25519_scalar_field;
                    using I = base_field_type::integral_type; using V = base_field_type::value_type;
                    static V d() { return V(sxn::parsed<I>("0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")); }
                    static V gx() { return V(sxn::parsed<I>("0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a")); }
                    static V gy() { return V(sxn::parsed<I>("0x6666666666666666666666666666666666666666666666666666666666666658")); }
                    template<typename C = coordinates::affine, typename Fm = forms::twisted_edwards> struct g1_type { using field_type = base_field_type; using value_type = detail::point<ed25519, forms::twisted_edwards>; using curve_type = ed25519; };
                };
                using curve25519 = ed25519;
            }    // namespace curves
        }    // namespace algebra
    }    // namespace crypto3
}    // namespace nil
