// Rank-1 constraint system types with the interface of crypto3-zk.
#pragma once
#include <sxn/field.hpp>
#include <algorithm>
#include <iostream>
#include <map>
#include <string>
#include <vector>
namespace nil {
    namespace crypto3 {
        // index 0 is the constant one, the first variable is 1
            namespace math {
                template<typename F> struct linear_combination; template<typename F> struct linear_term;
                template<typename F> struct linear_variable {
                    using field_type = F; using index_type = std::size_t; index_type index;
                    linear_variable(index_type i = 0) : index(i) {}
                    linear_term<F> operator-() const;
                    bool operator==(const linear_variable &o) const { return index == o.index; }
                };
                template<typename F> struct linear_term {
                    using field_type = F; using field_value_type = typename F::value_type; std::size_t index; field_value_type coeff;
                    linear_term() : index(0) {}
                    linear_term(const linear_variable<F> &v) : index(v.index), coeff(field_value_type::one()) {}
                    linear_term(const linear_variable<F> &v, const field_value_type &c) : index(v.index), coeff(c) {}
                    linear_term operator*(const field_value_type &c) const { linear_term r(*this); r.coeff = r.coeff * c; return r; }
                    linear_term operator-() const { linear_term r(*this); r.coeff = -r.coeff; return r; }
                };
                template<typename F> linear_term<F> linear_variable<F>::operator-() const { return linear_term<F>(*this, -F::value_type::one()); }
                template<typename F> struct linear_combination {
                    using field_type = F; using field_value_type = typename F::value_type; std::vector<linear_term<F>> terms;
                    linear_combination() {}
                    linear_combination(const linear_variable<F> &v) { add_term(v); }
                    linear_combination(const linear_term<F> &t) { terms.push_back(t); }
                    linear_combination(const field_value_type &c) { add_term(linear_variable<F>(0), c); }
                    template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> linear_combination(T c) { add_term(linear_variable<F>(0), field_value_type(c)); }
                    linear_combination(const std::vector<linear_term<F>> &t) : terms(t) {}
                    void add_term(const linear_variable<F> &v) { terms.emplace_back(v); }
                    void add_term(const linear_variable<F> &v, const field_value_type &c) { terms.emplace_back(v, c); }
                    void add_term(const linear_term<F> &t) { terms.push_back(t); }
                    auto begin() const { return terms.begin(); }
                    auto end() const { return terms.end(); }
                    // values[i] is the value of variable i + 1
                    field_value_type evaluate(const std::vector<field_value_type> &values) const { field_value_type r = field_value_type::zero(); for (auto &t : terms) r = r + (t.index == 0 ? field_value_type::one() : values.at(t.index - 1)) * t.coeff; return r; }
                    linear_combination operator*(const field_value_type &c) const { linear_combination r; for (auto &t : terms) r.terms.push_back(t * c); return r; }
                    linear_combination operator+(const linear_combination &o) const { linear_combination r(*this); r.terms.insert(r.terms.end(), o.terms.begin(), o.terms.end()); return r; }
                    linear_combination operator-() const { return *this * (-field_value_type::one()); }
                    linear_combination operator-(const linear_combination &o) const { return *this + (-o); }
                    bool is_valid(std::size_t n) const { for (auto &t : terms) if (t.index > n) return false; return true; }
                };
                template<typename F> linear_combination<F> operator+(const linear_term<F> &a, const linear_combination<F> &b) { return linear_combination<F>(a) + b; }
                template<typename F> linear_combination<F> operator-(const linear_term<F> &a, const linear_combination<F> &b) { return linear_combination<F>(a) - b; }
                template<typename F> linear_combination<F> operator+(const linear_variable<F> &a, const linear_combination<F> &b) { return linear_combination<F>(a) + b; }
                template<typename F> linear_combination<F> operator-(const linear_variable<F> &a, const linear_combination<F> &b) { return linear_combination<F>(a) - b; }
                template<typename F> linear_term<F> operator*(const linear_variable<F> &v, const typename F::value_type &c) { return linear_term<F>(v, c); }
                template<typename F> linear_term<F> operator*(const typename F::value_type &c, const linear_variable<F> &v) { return linear_term<F>(v, c); }
                template<typename F> linear_term<F> operator*(const typename F::value_type &c, const linear_term<F> &v) { return v * c; }
                template<typename F> linear_combination<F> operator*(const typename F::value_type &c, const linear_combination<F> &v) { return v * c; }
                template<typename F> linear_combination<F> operator-(int c, const linear_combination<F> &v) { return linear_combination<F>(c) - v; }
            }    // namespace math
        namespace zk {
            namespace snark {
                template<typename F> struct r1cs_constraint {
                    math::linear_combination<F> a, b, c;
                    r1cs_constraint() {}
                    r1cs_constraint(const math::linear_combination<F> &x, const math::linear_combination<F> &y, const math::linear_combination<F> &z) : a(x), b(y), c(z) {}
                };
                template<typename F> using r1cs_primary_input = std::vector<typename F::value_type>;
                template<typename F> using r1cs_auxiliary_input = std::vector<typename F::value_type>;
                template<typename F> using r1cs_variable_assignment_type = std::vector<typename F::value_type>;
                template<typename F> struct r1cs_constraint_system {
                    using field_type = F;
                    std::size_t primary_input_size = 0, auxiliary_input_size = 0; std::vector<r1cs_constraint<F>> constraints;
                    std::size_t num_inputs() const { return primary_input_size; }
                    std::size_t num_variables() const { return primary_input_size + auxiliary_input_size; }
                    std::size_t num_constraints() const { return constraints.size(); }
                    void add_constraint(const r1cs_constraint<F> &c) { constraints.push_back(c); }
                    bool is_satisfied(const std::vector<typename F::value_type> &p, const std::vector<typename F::value_type> &x) const {
                        auto v = p; v.insert(v.end(), x.begin(), x.end());
                        for (auto &c : constraints) if (!(c.a.evaluate(v) * c.b.evaluate(v) == c.c.evaluate(v))) return false;
                        return true;
                    }
                };
            }    // namespace snark
        }    // namespace zk
    }    // namespace crypto3
}    // namespace nil
