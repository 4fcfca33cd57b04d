// PLONK arithmetization types with the interface of crypto3-zk: variables, expressions, gates, tables.
#pragma once
#include <sxn/curve.hpp>
#include <boost/assert.hpp>
#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <algorithm>
#include <array>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename V> class term;
            template<typename V> class expression;
            template<typename V> class pow_operation;
            template<typename V> class binary_arithmetic_operation;
            enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };

            template<typename VariableType> class term {
            public:
                using variable_type = VariableType;
                using assignment_type = typename VariableType::assignment_type;
                std::vector<VariableType> vars;
                assignment_type coeff;
                term() : coeff(assignment_type::zero()) {}
                term(const VariableType &v) : coeff(assignment_type::one()) { vars.push_back(v); }
                term(const assignment_type &c) : coeff(c) {}
                term(const VariableType &v, const assignment_type &c) : coeff(c) { vars.push_back(v); }
                term(const std::vector<VariableType> &v, const assignment_type &c) : vars(v), coeff(c) {}
                term operator*(const term &o) const { term r(vars, coeff * o.coeff); r.vars.insert(r.vars.end(), o.vars.begin(), o.vars.end()); return r; }
                term operator-() const { return term(vars, -coeff); }
                term pow(std::size_t p) const { term r(assignment_type::one()); for (std::size_t i = 0; i < p; i++) r = r * *this; return r; }
                bool is_zero() const { return coeff == assignment_type::zero(); }
                const std::vector<VariableType> &get_vars() const { return vars; }
                const assignment_type &get_coeff() const { return coeff; }
                bool operator==(const term &o) const { return coeff == o.coeff && vars == o.vars; }
            };
            template<typename V> class expression {
            public:
                using variable_type = V;
                using assignment_type = typename V::assignment_type;
                using expr_type = boost::variant<boost::recursive_wrapper<term<V>>, boost::recursive_wrapper<pow_operation<V>>, boost::recursive_wrapper<binary_arithmetic_operation<V>>>;
                expr_type expr;
                expression() : expr(term<V>()) {}
                expression(const term<V> &t) : expr(t) {}
                expression(const V &v) : expr(term<V>(v)) {}
                expression(const assignment_type &c) : expr(term<V>(c)) {}
                template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> expression(T c) : expr(term<V>(assignment_type(c))) {}
                template<unsigned B, boost::multiprecision::expression_template_option E>
                expression(const boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>, E> &c) : expr(term<V>(assignment_type(c))) {}
                expression(const pow_operation<V> &p) : expr(p) {}
                expression(const binary_arithmetic_operation<V> &b) : expr(b) {}
                const expr_type &get_expr() const { return expr; }
                expression pow(std::size_t p) const { return expression(pow_operation<V>(*this, (int)p)); }
                expression operator-() const { return expression(binary_arithmetic_operation<V>(expression(term<V>()), *this, ArithmeticOperator::SUB)); }
                template<typename T> expression &operator+=(const T &o) { return *this = *this + o; }
                template<typename T> expression &operator-=(const T &o) { return *this = *this - o; }
                template<typename T> expression &operator*=(const T &o) { return *this = *this * o; }
                bool is_empty() const { auto *t = boost::get<term<V>>(&expr); return t && t->vars.empty() && t->is_zero(); }
                bool operator==(const expression &o) const;
                bool operator!=(const expression &o) const { return !(*this == o); }
            };
            template<typename V> class pow_operation {
            public:
                expression<V> expr; int power;
                pow_operation(const expression<V> &e, int p) : expr(e), power(p) {}
                const expression<V> &get_expr() const { return expr; }
                int get_power() const { return power; }
                bool operator==(const pow_operation &o) const { return power == o.power && expr == o.expr; }
            };
            template<typename V> class binary_arithmetic_operation {
            public:
                using ArithmeticOperatorType = ArithmeticOperator;
                expression<V> left, right; ArithmeticOperator op;
                binary_arithmetic_operation(const expression<V> &l, const expression<V> &r, ArithmeticOperator o) : left(l), right(r), op(o) {}
                const expression<V> &get_expr_left() const { return left; }
                const expression<V> &get_expr_right() const { return right; }
                ArithmeticOperator get_op() const { return op; }
                bool operator==(const binary_arithmetic_operation &o) const { return op == o.op && left == o.left && right == o.right; }
            };
            template<typename V> bool expression<V>::operator==(const expression &o) const { return expr == o.expr; }
        }    // namespace math
        namespace zk { namespace snark {
            template<typename A> class plonk_variable;
            template<typename F, typename V> class plonk_constraint;
        } }
    }    // namespace crypto3
}    // namespace nil
namespace sxn {
    // the variable type behind anything that takes part in an expression
    template<typename T, typename = void> struct expr_var { using type = void; };
    template<typename A> struct expr_var<nil::crypto3::zk::snark::plonk_variable<A>> { using type = nil::crypto3::zk::snark::plonk_variable<A>; };
    template<typename V> struct expr_var<nil::crypto3::math::term<V>> { using type = V; };
    template<typename V> struct expr_var<nil::crypto3::math::expression<V>> { using type = V; };
    template<typename F, typename V> struct expr_var<nil::crypto3::zk::snark::plonk_constraint<F, V>> { using type = V; };
    template<typename T> struct is_term_like : std::false_type {};
    template<typename A> struct is_term_like<nil::crypto3::zk::snark::plonk_variable<A>> : std::true_type {};
    template<typename V> struct is_term_like<nil::crypto3::math::term<V>> : std::true_type {};
    template<typename L, typename R> struct pair_var { using l = typename expr_var<L>::type; using r = typename expr_var<R>::type; using type = std::conditional_t<std::is_void<l>::value, r, l>; };
    template<typename V, typename T> nil::crypto3::math::expression<V> to_expr(const T &t) {
        using E = nil::crypto3::math::expression<V>;
        if constexpr (std::is_convertible<const T &, E>::value || std::is_base_of<E, T>::value) return static_cast<const E &>(E(t)); else return E(typename V::assignment_type(t));
    }
    template<typename V, typename T> nil::crypto3::math::term<V> to_term(const T &t) {
        if constexpr (is_term_like<T>::value) return nil::crypto3::math::term<V>(t); else return nil::crypto3::math::term<V>(typename V::assignment_type(t));
    }
}
namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename L, typename R, typename V = typename sxn::pair_var<L, R>::type, std::enable_if_t<!std::is_void<V>::value, bool> = true>
            expression<V> operator+(const L &l, const R &r) { return expression<V>(binary_arithmetic_operation<V>(sxn::to_expr<V>(l), sxn::to_expr<V>(r), ArithmeticOperator::ADD)); }
            template<typename L, typename R, typename V = typename sxn::pair_var<L, R>::type, std::enable_if_t<!std::is_void<V>::value, bool> = true>
            expression<V> operator-(const L &l, const R &r) { return expression<V>(binary_arithmetic_operation<V>(sxn::to_expr<V>(l), sxn::to_expr<V>(r), ArithmeticOperator::SUB)); }
            template<typename L, typename R, typename V = typename sxn::pair_var<L, R>::type, std::enable_if_t<!std::is_void<V>::value, bool> = true>
            auto operator*(const L &l, const R &r) {
                constexpr bool lt = sxn::is_term_like<L>::value, rt = sxn::is_term_like<R>::value, lc = std::is_void<typename sxn::expr_var<L>::type>::value, rc = std::is_void<typename sxn::expr_var<R>::type>::value;
                if constexpr ((lt || lc) && (rt || rc)) return sxn::to_term<V>(l).term<V>::operator*(sxn::to_term<V>(r));
                else return expression<V>(binary_arithmetic_operation<V>(sxn::to_expr<V>(l), sxn::to_expr<V>(r), ArithmeticOperator::MULT));
            }
            template<typename V> class expression_evaluator : public boost::static_visitor<typename V::assignment_type> {
                using A = typename V::assignment_type;
                const expression<V> &expr; std::function<A(const V &)> get;
            public:
                template<typename F> expression_evaluator(const expression<V> &e, F f) : expr(e), get([f](const V &v) -> A { return f(v); }) {}
                A evaluate() { return boost::apply_visitor(*this, expr.get_expr()); }
                A operator()(const term<V> &t) { A r = t.get_coeff(); for (auto &v : t.get_vars()) r = r * get(v); return r; }
                A operator()(const pow_operation<V> &p) { A b = boost::apply_visitor(*this, p.get_expr().get_expr()); return b.pow((std::size_t)p.get_power()); }
                A operator()(const binary_arithmetic_operation<V> &o) {
                    A l = boost::apply_visitor(*this, o.get_expr_left().get_expr()), r = boost::apply_visitor(*this, o.get_expr_right().get_expr());
                    switch (o.get_op()) { case ArithmeticOperator::ADD: return l + r; case ArithmeticOperator::SUB: return l - r; default: return l * r; }
                }
            };
            template<typename V> class expression_for_each_variable_visitor : public boost::static_visitor<void> {
                std::function<void(const V &)> cb;
            public:
                template<typename F> expression_for_each_variable_visitor(F f) : cb(f) {}
                void visit(const expression<V> &e) { boost::apply_visitor(*this, e.get_expr()); }
                void operator()(const term<V> &t) { for (auto &v : t.get_vars()) cb(v); }
                void operator()(const pow_operation<V> &p) { boost::apply_visitor(*this, p.get_expr().get_expr()); }
                void operator()(const binary_arithmetic_operation<V> &o) { boost::apply_visitor(*this, o.get_expr_left().get_expr()); boost::apply_visitor(*this, o.get_expr_right().get_expr()); }
            };
            template<typename V> class expression_max_degree_visitor : public boost::static_visitor<std::uint32_t> {
            public:
                std::uint32_t compute_max_degree(const expression<V> &e) { return boost::apply_visitor(*this, e.get_expr()); }
                std::uint32_t operator()(const term<V> &t) { return t.get_vars().size(); }
                std::uint32_t operator()(const pow_operation<V> &p) { return boost::apply_visitor(*this, p.get_expr().get_expr()) * p.get_power(); }
                std::uint32_t operator()(const binary_arithmetic_operation<V> &o) {
                    std::uint32_t l = boost::apply_visitor(*this, o.get_expr_left().get_expr()), r = boost::apply_visitor(*this, o.get_expr_right().get_expr());
                    return o.get_op() == ArithmeticOperator::MULT ? l + r : std::max(l, r);
                }
            };
            // rebuilds the expression with every variable replaced
            template<typename V, typename W> class expression_variable_type_converter : public boost::static_visitor<expression<W>> {
                std::function<W(const V &)> f;
            public:
                template<typename F> expression_variable_type_converter(F g) : f(g) {}
                expression<W> convert(const expression<V> &e) { return boost::apply_visitor(*this, e.get_expr()); }
                expression<W> operator()(const term<V> &t) { std::vector<W> v; for (auto &x : t.get_vars()) v.push_back(f(x)); return expression<W>(term<W>(v, t.get_coeff())); }
                expression<W> operator()(const pow_operation<V> &p) { return expression<W>(pow_operation<W>(convert(p.get_expr()), p.get_power())); }
                expression<W> operator()(const binary_arithmetic_operation<V> &o) { return expression<W>(binary_arithmetic_operation<W>(convert(o.get_expr_left()), convert(o.get_expr_right()), o.get_op())); }
            };
            template<typename V> std::ostream &operator<<(std::ostream &os, const term<V> &t) { os << t.get_coeff(); for (auto &v : t.get_vars()) os << " * " << v; return os; }
            template<typename V> std::ostream &operator<<(std::ostream &os, const expression<V> &e);
            template<typename V> std::ostream &operator<<(std::ostream &os, const pow_operation<V> &p) { return os << "((" << p.get_expr() << ") ^ " << p.get_power() << ")"; }
            template<typename V> std::ostream &operator<<(std::ostream &os, const binary_arithmetic_operation<V> &o) { return os << "(" << o.get_expr_left() << (o.get_op() == ArithmeticOperator::ADD ? " + " : o.get_op() == ArithmeticOperator::SUB ? " - " : " * ") << o.get_expr_right() << ")"; }
            template<typename V> std::ostream &operator<<(std::ostream &os, const expression<V> &e) {
                if (auto *t = boost::get<term<V>>(&e.get_expr())) return os << *t;
                if (auto *p = boost::get<pow_operation<V>>(&e.get_expr())) return os << *p;
                return os << boost::get<binary_arithmetic_operation<V>>(e.get_expr());
            }
            template<typename Range> std::size_t max_degree(const Range &);
        }    // namespace math

        namespace zk {
            namespace snark {
                template<typename AssignmentType> class plonk_variable {
                public:
                    using assignment_type = AssignmentType;
                    enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized };
                    std::size_t index; std::int32_t rotation; bool relative; column_type type;
                    constexpr plonk_variable() : index(0), rotation(0), relative(false), type(column_type::uninitialized) {}
                    constexpr plonk_variable(std::size_t i, std::int32_t rot, bool rel = true, column_type t = column_type::witness) : index(i), rotation(rot), relative(rel), type(t) {}
                    constexpr plonk_variable(const plonk_variable &) = default;
                    constexpr plonk_variable &operator=(const plonk_variable &) = default;
                    math::term<plonk_variable> operator-() const { return math::term<plonk_variable>(*this, -AssignmentType::one()); }
                    math::term<plonk_variable> pow(std::size_t p) const { return math::term<plonk_variable>(*this).pow(p); }
                    bool operator==(const plonk_variable &o) const { return index == o.index && rotation == o.rotation && relative == o.relative && type == o.type; }
                    bool operator!=(const plonk_variable &o) const { return !(*this == o); }
                    bool operator<(const plonk_variable &o) const {
                        if (type != o.type) return type < o.type;
                        if (index != o.index) return index < o.index;
                        if (rotation != o.rotation) return rotation < o.rotation;
                        return relative < o.relative;
                    }
                };
                using math::operator+; using math::operator-; using math::operator*;
                template<typename A> std::ostream &operator<<(std::ostream &os, const plonk_variable<A> &v) {
                    return os << (v.type == plonk_variable<A>::witness ? "w_" : v.type == plonk_variable<A>::public_input ? "pub_" : v.type == plonk_variable<A>::constant ? "c_" : v.type == plonk_variable<A>::selector ? "sel_" : "un_")
                              << v.index << "_" << v.rotation << (v.relative ? "_rel" : "_abs");
                }

                template<typename F> using plonk_column = std::vector<typename F::value_type>;
                template<typename F> class plonk_assignment_table;

                template<typename F, typename V = plonk_variable<typename F::value_type>>
                class plonk_constraint : public math::expression<V> {
                public:
                    using variable_type = V; using base_type = math::expression<V>;
                    plonk_constraint() {}
                    plonk_constraint(const math::expression<V> &e) : math::expression<V>(e) {}
                    plonk_constraint(const math::term<V> &e) : math::expression<V>(e) {}
                    plonk_constraint(const V &e) : math::expression<V>(e) {}
                    plonk_constraint(const typename F::value_type &e) : math::expression<V>(e) {}
                    template<typename T, std::enable_if_t<std::is_integral<T>::value, bool> = true> plonk_constraint(T c) : math::expression<V>(c) {}
                    template<typename T> plonk_constraint &operator+=(const T &o) { static_cast<base_type &>(*this) = *this + o; return *this; }
                    template<typename T> plonk_constraint &operator-=(const T &o) { static_cast<base_type &>(*this) = *this - o; return *this; }
                    template<typename T> plonk_constraint &operator*=(const T &o) { static_cast<base_type &>(*this) = *this * o; return *this; }
                    typename F::value_type evaluate(std::size_t row, const plonk_assignment_table<F> &a) const {
                        math::expression_evaluator<V> ev(*this, [&](const V &v) -> typename F::value_type { return a.get_variable_value(v, row); });
                        return ev.evaluate();
                    }
                };

                template<typename F, typename C = plonk_constraint<F>> struct plonk_gate {
                    using constraint_type = C;
                    std::size_t selector_index; std::vector<C> constraints;
                    plonk_gate() : selector_index(0) {}
                    plonk_gate(std::size_t s, const C &c) : selector_index(s), constraints({c}) {}
                    plonk_gate(std::size_t s, const std::initializer_list<C> &c) : selector_index(s), constraints(c) {}
                    plonk_gate(std::size_t s, const std::vector<C> &c) : selector_index(s), constraints(c) {}
                };
                template<typename F, typename V = plonk_variable<typename F::value_type>> struct plonk_lookup_constraint {
                    using constraint_type = plonk_constraint<F, V>;
                    std::size_t table_id = 0; std::vector<constraint_type> lookup_input;
                    plonk_lookup_constraint() {}
                    template<typename T> plonk_lookup_constraint(T id, const std::vector<constraint_type> &in) : table_id(id), lookup_input(in) {}
                    template<typename T> plonk_lookup_constraint(T id, std::initializer_list<constraint_type> in) : table_id(id), lookup_input(in) {}
                };
                template<typename F, typename C = plonk_lookup_constraint<F>> struct plonk_lookup_gate {
                    using constraint_type = C;
                    std::size_t tag_index; std::vector<C> constraints;
                    plonk_lookup_gate(std::size_t s, const C &c) : tag_index(s), constraints({c}) {}
                    plonk_lookup_gate(std::size_t s, const std::initializer_list<C> &c) : tag_index(s), constraints(c) {}
                    plonk_lookup_gate(std::size_t s, const std::vector<C> &c) : tag_index(s), constraints(c) {}
                };
                template<typename F> struct plonk_copy_constraint {
                    using variable_type = plonk_variable<typename F::value_type>;
                    variable_type first, second;
                    plonk_copy_constraint() {}
                    plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) {}
                    bool operator==(const plonk_copy_constraint &o) const { return first == o.first && second == o.second; }
                };
                template<typename F> struct plonk_lookup_table {
                    using variable_type = plonk_variable<typename F::value_type>;
                    using constraint_type = plonk_constraint<F>;
                    std::size_t columns_number = 0, tag_index = 0; std::vector<std::vector<constraint_type>> lookup_options;
                    plonk_lookup_table() {}
                    plonk_lookup_table(std::size_t columns, std::size_t tag) : columns_number(columns), tag_index(tag) {}
                    void append_option(const std::vector<constraint_type> &o) { lookup_options.push_back(o); }
                };
                struct lookup_subtable_definition { std::vector<std::size_t> column_indices; std::size_t begin, end; };
                template<typename F> class lookup_table_definition {
                protected:
                    std::vector<std::vector<typename F::value_type>> _table;
                public:
                    std::string table_name;
                    std::map<std::string, lookup_subtable_definition> subtables;
                    lookup_table_definition(std::string n) : table_name(n) {}
                    virtual ~lookup_table_definition() {}
                    virtual void generate() = 0;
                    virtual std::size_t get_columns_number() = 0;
                    virtual std::size_t get_rows_number() = 0;
                    virtual const std::vector<std::vector<typename F::value_type>> &get_table() { if (_table.empty()) generate(); return _table; }
                };
                template<typename F> class filled_lookup_table_definition : public lookup_table_definition<F> {
                public:
                    filled_lookup_table_definition(lookup_table_definition<F> &o) : lookup_table_definition<F>(o.table_name) { this->_table = o.get_table(); }
                    virtual void generate() {}
                    virtual std::size_t get_columns_number() { return this->_table.size(); }
                    virtual std::size_t get_rows_number() { return this->_table[0].size(); }
                };
                template<typename F> class dynamic_table_definition {
                public:
                    std::string table_name; plonk_lookup_table<F> lookup_table; bool defined = false;
                    dynamic_table_definition(std::string n) : table_name(n) {}
                    bool is_defined() const { return defined; }
                    void define(const plonk_lookup_table<F> &t) { lookup_table = t; defined = true; }
                };

                template<typename F> struct plonk_table_description {
                    std::size_t witness_columns = 0, public_input_columns = 0, constant_columns = 0, selector_columns = 0, usable_rows_amount = 0, rows_amount = 0;
                    plonk_table_description() {}
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s) : witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s) {}
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s, std::size_t u, std::size_t r) : witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s), usable_rows_amount(u), rows_amount(r) {}
                    std::size_t table_width() const { return witness_columns + public_input_columns + constant_columns + selector_columns; }
                    std::size_t global_index(const plonk_variable<typename F::value_type> &v) const {
                        using T = plonk_variable<typename F::value_type>;
                        switch (v.type) { case T::witness: return v.index; case T::public_input: return witness_columns + v.index; case T::constant: return witness_columns + public_input_columns + v.index; default: return witness_columns + public_input_columns + constant_columns + v.index; }
                    }
                };

                template<typename F, typename Column = plonk_column<F>> class plonk_private_table {
                public:
                    std::vector<Column> _witnesses;
                    plonk_private_table(std::size_t w = 0) : _witnesses(w) {}
                    std::uint32_t witnesses_amount() const { return _witnesses.size(); }
                    std::uint32_t witness_column_size(std::size_t i) const { return _witnesses[i].size(); }
                    const Column &witness(std::size_t i) const { return _witnesses.at(i); }
                    const std::vector<Column> &witnesses() const { return _witnesses; }
                    std::size_t size() const { return _witnesses.size(); }
                };
                template<typename F, typename Column = plonk_column<F>> class plonk_public_table {
                public:
                    std::vector<Column> _public_inputs, _constants, _selectors;
                    plonk_public_table(std::size_t p = 0, std::size_t c = 0, std::size_t s = 0) : _public_inputs(p), _constants(c), _selectors(s) {}
                    std::uint32_t public_inputs_amount() const { return _public_inputs.size(); }
                    std::uint32_t public_input_column_size(std::size_t i) const { return _public_inputs[i].size(); }
                    const Column &public_input(std::size_t i) const { return _public_inputs.at(i); }
                    const std::vector<Column> &public_inputs() const { return _public_inputs; }
                    std::uint32_t constants_amount() const { return _constants.size(); }
                    std::uint32_t constant_column_size(std::size_t i) const { return _constants[i].size(); }
                    const Column &constant(std::size_t i) const { return _constants.at(i); }
                    const std::vector<Column> &constants() const { return _constants; }
                    std::uint32_t selectors_amount() const { return _selectors.size(); }
                    std::uint32_t selector_column_size(std::size_t i) const { return _selectors[i].size(); }
                    const Column &selector(std::size_t i) const { return _selectors.at(i); }
                    const std::vector<Column> &selectors() const { return _selectors; }
                    void fill_constant(std::size_t i, const Column &c) { _constants.at(i) = c; }
                    void fill_selector(std::size_t i, const Column &c) { _selectors.at(i) = c; }
                    std::size_t size() const { return _public_inputs.size() + _constants.size() + _selectors.size(); }
                };
                template<typename F> class plonk_assignment_table {
                public:
                    using field_type = F; using column_type = plonk_column<F>;
                    using private_table_type = plonk_private_table<F>; using public_table_type = plonk_public_table<F>;
                protected:
                    private_table_type _private_table; public_table_type _public_table;
                public:
                    plonk_assignment_table(std::size_t w = 0, std::size_t p = 0, std::size_t c = 0, std::size_t s = 0) : _private_table(w), _public_table(p, c, s) {}
                    virtual ~plonk_assignment_table() {}
                    virtual const column_type &witness(std::uint32_t i) const { return _private_table.witness(i); }
                    virtual const column_type &public_input(std::uint32_t i) const { return _public_table.public_input(i); }
                    virtual const column_type &constant(std::uint32_t i) const { return _public_table.constant(i); }
                    virtual const column_type &selector(std::uint32_t i) const { return _public_table.selector(i); }
                    const std::vector<column_type> &witnesses() const { return _private_table.witnesses(); }
                    const std::vector<column_type> &public_inputs() const { return _public_table.public_inputs(); }
                    const std::vector<column_type> &constants() const { return _public_table.constants(); }
                    const std::vector<column_type> &selectors() const { return _public_table.selectors(); }
                    virtual void fill_constant(std::uint32_t i, const column_type &c) { _public_table.fill_constant(i, c); }
                    virtual void fill_selector(std::uint32_t i, const column_type &c) { _public_table.fill_selector(i, c); }
                    virtual void resize_witnesses(std::uint32_t n) { _private_table._witnesses.resize(n); }
                    virtual void resize_public_inputs(std::uint32_t n) { _public_table._public_inputs.resize(n); }
                    virtual void resize_constants(std::uint32_t n) { _public_table._constants.resize(n); }
                    virtual void resize_selectors(std::uint32_t n) { _public_table._selectors.resize(n); }
                    virtual std::uint32_t witnesses_amount() const { return _private_table.witnesses_amount(); }
                    virtual std::uint32_t witness_column_size(std::uint32_t i) const { return _private_table.witness_column_size(i); }
                    virtual std::uint32_t public_inputs_amount() const { return _public_table.public_inputs_amount(); }
                    virtual std::uint32_t public_input_column_size(std::uint32_t i) const { return _public_table.public_input_column_size(i); }
                    virtual std::uint32_t constants_amount() const { return _public_table.constants_amount(); }
                    virtual std::uint32_t constant_column_size(std::uint32_t i) const { return _public_table.constant_column_size(i); }
                    virtual std::uint32_t selectors_amount() const { return _public_table.selectors_amount(); }
                    virtual std::uint32_t selector_column_size(std::uint32_t i) const { return _public_table.selector_column_size(i); }
                    std::size_t size() const { return _private_table.size() + _public_table.size(); }
                    virtual std::uint32_t rows_amount() const {
                        std::size_t r = 0;
                        for (auto *t : {&_private_table._witnesses, &_public_table._public_inputs, &_public_table._constants, &_public_table._selectors}) for (auto &c : *t) r = std::max(r, c.size());
                        return r;
                    }
                    const private_table_type &private_table() const { return _private_table; }
                    const public_table_type &public_table() const { return _public_table; }
                    private_table_type &private_table_mutable() { return _private_table; }
                    public_table_type &public_table_mutable() { return _public_table; }
                    // cells that were never assigned read as zero, as they do after padding
                    typename F::value_type get_variable_value(const plonk_variable<typename F::value_type> &v, std::size_t row) const {
                        using T = plonk_variable<typename F::value_type>;
                        std::int64_t r = v.relative ? (std::int64_t)row + v.rotation : v.rotation;
                        const column_type &c = v.type == T::witness ? witness(v.index) : v.type == T::public_input ? public_input(v.index) : v.type == T::constant ? constant(v.index) : selector(v.index);
                        if (r < 0) throw std::out_of_range("a gate reads a row before the first one");
                        return (std::size_t)r < c.size() ? c[r] : F::value_type::zero();
                    }
                };
                template<typename F> using plonk_table = plonk_assignment_table<F>;

                template<typename F> struct plonk_constraint_system {
                    using field_type = F;
                    using variable_type = plonk_variable<typename F::value_type>;
                    using gate_type = plonk_gate<F, plonk_constraint<F>>;
                    using gates_container_type = std::vector<gate_type>;
                    using lookup_gate_type = plonk_lookup_gate<F, plonk_lookup_constraint<F>>;
                    using lookup_gates_container_type = std::vector<lookup_gate_type>;
                    using lookup_table_type = plonk_lookup_table<F>;
                    using lookup_tables_type = std::vector<lookup_table_type>;
                    using copy_constraint_type = plonk_copy_constraint<F>;
                    using copy_constraints_container_type = std::vector<copy_constraint_type>;
                protected:
                    gates_container_type _gates; copy_constraints_container_type _copy_constraints; lookup_gates_container_type _lookup_gates; lookup_tables_type _lookup_tables;
                public:
                    plonk_constraint_system() {}
                    plonk_constraint_system(const gates_container_type &g, const copy_constraints_container_type &c, const lookup_gates_container_type &l = {}, const lookup_tables_type &t = {}) : _gates(g), _copy_constraints(c), _lookup_gates(l), _lookup_tables(t) {}
                    virtual ~plonk_constraint_system() {}
                    virtual std::size_t num_gates() const { return _gates.size(); }
                    virtual std::size_t num_lookup_gates() const { return _lookup_gates.size(); }
                    virtual std::size_t num_constraints() const { std::size_t r = 0; for (auto &g : _gates) r += g.constraints.size(); return r; }
                    virtual const gates_container_type &gates() const { return _gates; }
                    virtual const copy_constraints_container_type &copy_constraints() const { return _copy_constraints; }
                    virtual copy_constraints_container_type &mutable_copy_constraints() { return _copy_constraints; }
                    virtual const lookup_gates_container_type &lookup_gates() const { return _lookup_gates; }
                    virtual const lookup_tables_type &lookup_tables() const { return _lookup_tables; }
                    virtual const lookup_table_type &lookup_table(std::size_t i) const { return _lookup_tables[i]; }
                    virtual void add_lookup_table(const lookup_table_type &t) { _lookup_tables.push_back(t); }
                };
            }    // namespace snark
        }    // namespace zk
    }    // namespace crypto3
}    // namespace nil
namespace std {
    template<typename A> struct hash<nil::crypto3::zk::snark::plonk_variable<A>> {
        std::size_t operator()(const nil::crypto3::zk::snark::plonk_variable<A> &v) const {
            std::size_t h = v.index; for (std::size_t x : {(std::size_t)(std::uint32_t)v.rotation, (std::size_t)v.relative, (std::size_t)v.type}) h = h * 1000003 + x; return h;
        }
    };
}
