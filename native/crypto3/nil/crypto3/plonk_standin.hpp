// Stand-ins for the parts of crypto3 the circuit components use: variables, expressions, constraints, gates, tables.
// Only what those types mean is kept: an expression is a polynomial in cells, a table is columns of cells.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/assert.hpp>
#include <boost/mpl/identity.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/functional/hash.hpp>

namespace nil { namespace crypto3 {
namespace math {
    enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };
    template<typename V> class expression;
    template<typename V> class term;
    template<typename V> class pow_operation;
    template<typename V> class binary_arithmetic_operation;

    // operators of variables, terms and expressions, found through this base
    template<typename V> struct expression_operators {
        friend expression<V> operator+(const expression<V> &a, const expression<V> &b) { return binary_arithmetic_operation<V>(a, b, ArithmeticOperator::ADD); }
        friend expression<V> operator-(const expression<V> &a, const expression<V> &b) { return binary_arithmetic_operation<V>(a, b, ArithmeticOperator::SUB); }
        friend expression<V> operator*(const expression<V> &a, const expression<V> &b) { return binary_arithmetic_operation<V>(a, b, ArithmeticOperator::MULT); }
        friend expression<V> operator-(const expression<V> &a) { return expression<V>(0) - a; }
    };

    template<typename V> class term : public expression_operators<V> {
    public:
        typedef V variable_type;
        typedef typename V::assignment_type assignment_type;
        term() : coeff(assignment_type::zero()) { }
        term(const V &v) : vars({v}), coeff(assignment_type::one()) { }
        term(const assignment_type &c) : coeff(c) { }
        term(const std::vector<V> &vars, const assignment_type &c) : vars(vars), coeff(c) { }
        template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> term(T c) : coeff(c) { }
        const std::vector<V> &get_vars() const { return vars; }
        const assignment_type &get_coeff() const { return coeff; }
        bool is_zero() const { return coeff == assignment_type::zero(); }
        expression<V> pow(std::size_t n) const { return pow_operation<V>(expression<V>(*this), n); }
    private:
        std::vector<V> vars;
        assignment_type coeff;
    };

    template<typename V> class expression : public expression_operators<V> {
    public:
        typedef V variable_type;
        typedef typename V::assignment_type assignment_type;
        typedef boost::variant<term<V>, boost::recursive_wrapper<pow_operation<V>>, boost::recursive_wrapper<binary_arithmetic_operation<V>>> expr_type;
        expression() : expr(term<V>()) { }
        expression(const V &v) : expr(term<V>(v)) { }
        expression(const term<V> &t) : expr(t) { }
        expression(const assignment_type &c) : expr(term<V>(c)) { }
        expression(const pow_operation<V> &p) : expr(p) { }
        expression(const binary_arithmetic_operation<V> &b) : expr(b) { }
        template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> expression(T c) : expr(term<V>(assignment_type(c))) { }
        template<typename B, boost::multiprecision::expression_template_option O>
        expression(const boost::multiprecision::number<B, O> &c) : expr(term<V>(assignment_type(c))) { }
        const expr_type &get_expr() const { return expr; }
        expr_type &get_expr() { return expr; }
        expression &operator+=(const expression &o) { return *this = *this + o; }
        expression &operator-=(const expression &o) { return *this = *this - o; }
        expression &operator*=(const expression &o) { return *this = *this * o; }
        expression pow(std::size_t n) const { return pow_operation<V>(*this, n); }
        bool is_zero() const { const term<V> *t = boost::get<term<V>>(&expr); return t && t->is_zero(); }
    private:
        expr_type expr;
    };
    template<typename V> std::ostream &operator<<(std::ostream &o, const expression<V> &e) { return o << "expression"; }

    template<typename V> class pow_operation : public expression_operators<V> {
    public:
        pow_operation(const expression<V> &e, int n) : e(e), n(n) { }
        const expression<V> &get_expr() const { return e; }
        int get_power() const { return n; }
    private:
        expression<V> e;
        int n;
    };
    template<typename V> class binary_arithmetic_operation : public expression_operators<V> {
    public:
        binary_arithmetic_operation(const expression<V> &a, const expression<V> &b, ArithmeticOperator op) : a(a), b(b), op(op) { }
        const expression<V> &get_expr_left() const { return a; }
        const expression<V> &get_expr_right() const { return b; }
        ArithmeticOperator get_op() const { return op; }
    private:
        expression<V> a, b;
        ArithmeticOperator op;
    };

    template<typename V> class expression_for_each_variable_visitor : public boost::static_visitor<void> {
        std::function<void(const V &)> f;
    public:
        expression_for_each_variable_visitor(std::function<void(const V &)> f) : f(f) { }
        void visit(const expression<V> &e) { boost::apply_visitor(*this, e.get_expr()); }
        void operator()(const term<V> &t) { for (const auto &v : t.get_vars()) f(v); }
        void operator()(const pow_operation<V> &p) { visit(p.get_expr()); }
        void operator()(const binary_arithmetic_operation<V> &b) { visit(b.get_expr_left()); visit(b.get_expr_right()); }
    };
    template<typename V> class expression_evaluator : public boost::static_visitor<typename V::assignment_type> {
        typedef typename V::assignment_type T;
        const expression<V> e;
        std::function<const T &(const V &)> f;
    public:
        expression_evaluator(const expression<V> &e, std::function<const T &(const V &)> f) : e(e), f(f) { }
        T evaluate() { return boost::apply_visitor(*this, e.get_expr()); }
        T operator()(const term<V> &t) { T r = t.get_coeff(); for (const auto &v : t.get_vars()) r = r * f(v); return r; }
        T operator()(const pow_operation<V> &p) { T b = boost::apply_visitor(*this, p.get_expr().get_expr()), r = T::one(); for (int i = 0; i < p.get_power(); i++) r = r * b; return r; }
        T operator()(const binary_arithmetic_operation<V> &o) {
            T a = boost::apply_visitor(*this, o.get_expr_left().get_expr()), b = boost::apply_visitor(*this, o.get_expr_right().get_expr());
            return o.get_op() == ArithmeticOperator::ADD ? a + b : o.get_op() == ArithmeticOperator::SUB ? a - b : a * b;
        }
    };
    template<typename V> class expression_max_degree_visitor : public boost::static_visitor<std::uint32_t> {
    public:
        std::uint32_t compute_max_degree(const expression<V> &e) { return boost::apply_visitor(*this, e.get_expr()); }
        std::uint32_t operator()(const term<V> &t) { return t.get_vars().size(); }
        std::uint32_t operator()(const pow_operation<V> &p) { return boost::apply_visitor(*this, p.get_expr().get_expr()) * p.get_power(); }
        std::uint32_t operator()(const binary_arithmetic_operation<V> &o) {
            std::uint32_t a = boost::apply_visitor(*this, o.get_expr_left().get_expr()), b = boost::apply_visitor(*this, o.get_expr_right().get_expr());
            return o.get_op() == ArithmeticOperator::MULT ? a + b : std::max(a, b);
        }
    };
}
namespace zk { namespace snark {
    template<typename T> class plonk_variable : public math::expression_operators<plonk_variable<T>> {
    public:
        typedef T assignment_type;
        enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized = 255 };
        std::size_t index;
        std::int32_t rotation;
        bool relative;
        column_type type;
        constexpr plonk_variable() : index(0), rotation(0), relative(false), type(column_type::uninitialized) { }
        constexpr plonk_variable(std::size_t index, std::int32_t rotation, bool relative = true, column_type type = column_type::witness) : index(index), rotation(rotation), relative(relative), type(type) { }
        math::expression<plonk_variable> pow(std::size_t n) const { return math::pow_operation<plonk_variable>(math::expression<plonk_variable>(*this), n); }
        bool operator==(const plonk_variable &o) const { return index == o.index && rotation == o.rotation && relative == o.relative && type == o.type; }
        bool operator!=(const plonk_variable &o) const { return !(*this == o); }
        bool operator<(const plonk_variable &o) const { return std::make_tuple(type, index, rotation, relative) < std::make_tuple(o.type, o.index, o.rotation, o.relative); }
    };
    template<typename T> std::ostream &operator<<(std::ostream &o, const plonk_variable<T> &v) { return o << "var_" << v.index << "_" << v.rotation << "_" << int(v.type); }

    template<typename Field> class plonk_constraint : public math::expression<plonk_variable<typename Field::value_type>> {
    public:
        typedef plonk_variable<typename Field::value_type> variable_type;
        typedef math::expression<variable_type> base_type;
        plonk_constraint() { }
        plonk_constraint(const base_type &e) : base_type(e) { }
        plonk_constraint(const variable_type &v) : base_type(v) { }
        plonk_constraint(const math::term<variable_type> &t) : base_type(t) { }
        plonk_constraint(const typename Field::value_type &c) : base_type(c) { }
        template<typename Table> typename Field::value_type evaluate(std::size_t row, const Table &table) const {
            typename Field::value_type hold;
            std::list<typename Field::value_type> kept;
            math::expression_evaluator<variable_type> ev(*this, [&](const variable_type &v) -> const typename Field::value_type & {
                long r = v.relative ? (long)row + v.rotation : v.rotation;
                long n = table.rows_amount();
                if (v.relative && n > 0) r = (r % n + n) % n;
                kept.push_back(table.cell(v.type, v.index, r));
                return kept.back();
            });
            return ev.evaluate();
        }
    };
    template<typename Field, typename Constraint = plonk_constraint<Field>> struct plonk_gate {
        std::size_t selector_index;
        std::vector<Constraint> constraints;
        plonk_gate(std::size_t s, const Constraint &c) : selector_index(s), constraints({c}) { }
        plonk_gate(std::size_t s, const std::initializer_list<Constraint> &c) : selector_index(s), constraints(c) { }
        plonk_gate(std::size_t s, const std::vector<Constraint> &c) : selector_index(s), constraints(c) { }
    };
    template<typename Field> struct plonk_copy_constraint {
        typedef plonk_variable<typename Field::value_type> variable_type;
        variable_type first, second;
        plonk_copy_constraint() { }
        plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) { }
        bool operator==(const plonk_copy_constraint &o) const { return first == o.first && second == o.second; }
    };
    template<typename Field> struct plonk_lookup_constraint {
        typedef plonk_variable<typename Field::value_type> variable_type;
        std::size_t table_id;
        std::vector<plonk_constraint<Field>> lookup_input;
    };
    template<typename Field, typename Constraint = plonk_lookup_constraint<Field>> struct plonk_lookup_gate {
        std::size_t tag_index;
        std::vector<Constraint> constraints;
        plonk_lookup_gate(std::size_t s, const Constraint &c) : tag_index(s), constraints({c}) { }
        plonk_lookup_gate(std::size_t s, const std::initializer_list<Constraint> &c) : tag_index(s), constraints(c) { }
        plonk_lookup_gate(std::size_t s, const std::vector<Constraint> &c) : tag_index(s), constraints(c) { }
    };
    template<typename Field> struct plonk_lookup_table {
        std::size_t columns_number = 0, tag_index = 0;
        std::vector<std::vector<plonk_constraint<Field>>> lookup_options;
        plonk_lookup_table() { }
        plonk_lookup_table(std::size_t c, std::size_t t) : columns_number(c), tag_index(t) { }
        void append_option(const std::vector<plonk_constraint<Field>> &o) { lookup_options.push_back(o); }
    };
    template<typename Field> struct lookup_subtable_definition { std::vector<std::size_t> column_indices; std::size_t begin = 0, end = 0; };
    template<typename Field> class lookup_table_definition {
    public:
        struct lookup_subtable { std::vector<std::size_t> column_indices; std::size_t begin = 0, end = 0; };
        std::vector<std::vector<typename Field::value_type>> _table;
        std::string table_name;
        std::map<std::string, lookup_subtable> subtables;
        lookup_table_definition(const std::string &name) : table_name(name) { }
        virtual void generate() = 0;
        virtual std::size_t get_columns_number() = 0;
        virtual std::size_t get_rows_number() = 0;
        const std::vector<std::vector<typename Field::value_type>> &get_table() { if (_table.empty()) generate(); return _table; }
        virtual ~lookup_table_definition() { }
    };
    template<typename Field> class filled_lookup_table_definition : public lookup_table_definition<Field> {
    public:
        filled_lookup_table_definition(lookup_table_definition<Field> &o) : lookup_table_definition<Field>(o.table_name) { this->_table = o.get_table(); }
        void generate() override { }
        std::size_t get_columns_number() override { return this->_table.size(); }
        std::size_t get_rows_number() override { return this->_table[0].size(); }
    };
    template<typename Field> class dynamic_table_definition {
        bool defined = false;
    public:
        std::string table_name;
        plonk_lookup_table<Field> lookup_table;
        dynamic_table_definition(const std::string &n) : table_name(n) { }
        void define(const plonk_lookup_table<Field> &t) { lookup_table = t; defined = true; }
        bool is_defined() const { return defined; }
    };
    template<typename Field> struct plonk_constraint_system {
        typedef plonk_constraint<Field> constraint_type;
        typedef std::vector<plonk_gate<Field, constraint_type>> gates_container_type;
        typedef std::vector<plonk_copy_constraint<Field>> copy_constraints_container_type;
        typedef std::vector<plonk_lookup_gate<Field, plonk_lookup_constraint<Field>>> lookup_gates_container_type;
        typedef plonk_lookup_table<Field> lookup_table_type;
        typedef std::vector<lookup_table_type> lookup_tables_type;
        typedef plonk_variable<typename Field::value_type> variable_type;
        const gates_container_type &gates() const { return _gates; }
        const copy_constraints_container_type &copy_constraints() const { return _copy_constraints; }
        copy_constraints_container_type &mutable_copy_constraints() { return _copy_constraints; }
        const lookup_gates_container_type &lookup_gates() const { return _lookup_gates; }
        const lookup_tables_type &lookup_tables() const { return _lookup_tables; }
        const lookup_table_type &lookup_table(std::size_t i) const { return _lookup_tables[i]; }
        void add_lookup_table(const lookup_table_type &t) { _lookup_tables.push_back(t); }
        std::size_t num_gates() const { return _gates.size(); }
        std::size_t num_lookup_gates() const { return _lookup_gates.size(); }
    protected:
        gates_container_type _gates;
        copy_constraints_container_type _copy_constraints;
        lookup_gates_container_type _lookup_gates;
        lookup_tables_type _lookup_tables;
    };
    template<typename Field> struct r1cs_constraint_system { };
    template<typename Field> using plonk_column = std::vector<typename Field::value_type>;
    template<typename Field> struct plonk_table_description { std::size_t witness_columns, public_input_columns, constant_columns, selector_columns, usable_rows_amount = 0, rows_amount = 0;
        plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s) : witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s) { } };
    template<typename Field> struct private_table_standin {
        std::vector<plonk_column<Field>> _witnesses;
        std::uint32_t witnesses_amount() const { return _witnesses.size(); }
        std::uint32_t witness_column_size(std::uint32_t i) const { return _witnesses[i].size(); }
        const plonk_column<Field> &witness(std::uint32_t i) const { return _witnesses[i]; }
    };
    template<typename Field> struct public_table_standin {
        std::vector<plonk_column<Field>> _public_inputs, _constants, _selectors;
        std::uint32_t public_inputs_amount() const { return _public_inputs.size(); }
        std::uint32_t constants_amount() const { return _constants.size(); }
        std::uint32_t selectors_amount() const { return _selectors.size(); }
        std::uint32_t public_input_column_size(std::uint32_t i) const { return _public_inputs[i].size(); }
        std::uint32_t constant_column_size(std::uint32_t i) const { return _constants[i].size(); }
        std::uint32_t selector_column_size(std::uint32_t i) const { return _selectors[i].size(); }
        const plonk_column<Field> &public_input(std::uint32_t i) const { return _public_inputs[i]; }
        const plonk_column<Field> &constant(std::uint32_t i) const { return _constants[i]; }
        const plonk_column<Field> &selector(std::uint32_t i) const { return _selectors[i]; }
    };
    template<typename Field> class plonk_assignment_table {
    public:
        typedef Field field_type;
        typedef plonk_column<Field> column_type;
        private_table_standin<Field> _private_table;
        public_table_standin<Field> _public_table;
        plonk_assignment_table(std::size_t w, std::size_t p, std::size_t c, std::size_t s) {
            _private_table._witnesses.resize(w); _public_table._public_inputs.resize(p); _public_table._constants.resize(c); _public_table._selectors.resize(s);
        }
        virtual ~plonk_assignment_table() { }
        void resize_witnesses(std::size_t n) { _private_table._witnesses.resize(n); }
        void resize_constants(std::size_t n) { _public_table._constants.resize(n); }
        void resize_selectors(std::size_t n) { _public_table._selectors.resize(n); }
        const column_type &witness(std::uint32_t i) const { return _private_table._witnesses[i]; }
        const column_type &public_input(std::uint32_t i) const { return _public_table._public_inputs[i]; }
        const column_type &constant(std::uint32_t i) const { return _public_table._constants[i]; }
        const column_type &selector(std::uint32_t i) const { return _public_table._selectors[i]; }
        std::uint32_t witnesses_amount() const { return _private_table._witnesses.size(); }
        std::uint32_t public_inputs_amount() const { return _public_table._public_inputs.size(); }
        std::uint32_t constants_amount() const { return _public_table._constants.size(); }
        std::uint32_t selectors_amount() const { return _public_table._selectors.size(); }
        std::uint32_t witness_column_size(std::uint32_t i) const { return witness(i).size(); }
        std::uint32_t public_input_column_size(std::uint32_t i) const { return public_input(i).size(); }
        std::uint32_t constant_column_size(std::uint32_t i) const { return constant(i).size(); }
        std::uint32_t selector_column_size(std::uint32_t i) const { return selector(i).size(); }
        virtual void fill_constant(std::uint32_t i, const column_type &c) { _public_table._constants[i] = c; }
        virtual void fill_selector(std::uint32_t i, const column_type &c) { _public_table._selectors[i] = c; }
        std::uint32_t rows_amount() const {
            std::size_t n = 0;
            for (const auto *t : {&_private_table._witnesses, &_public_table._public_inputs, &_public_table._constants, &_public_table._selectors})
                for (const auto &c : *t) n = std::max(n, c.size());
            return n;
        }
        typename Field::value_type cell(int type, std::size_t i, std::size_t row) const {
            typedef plonk_variable<typename Field::value_type> V;
            const std::vector<column_type> &t = type == V::witness ? _private_table._witnesses : type == V::public_input ? _public_table._public_inputs : type == V::constant ? _public_table._constants : _public_table._selectors;
            return i < t.size() && row < t[i].size() ? t[i][row] : Field::value_type::zero();
        }
    };
} }
namespace random {
    template<typename Field> struct algebraic_engine {
        typename std::conditional<true, std::uint64_t, void>::type s = 0x9e3779b97f4a7c15ull;
        template<typename S> algebraic_engine(S &) { }
        typename Field::value_type operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return Field::value_type::drawn(s >> 3); }
    };
}
} }
namespace std {
    template<typename T> struct hash<nil::crypto3::zk::snark::plonk_variable<T>> {
        std::size_t operator()(const nil::crypto3::zk::snark::plonk_variable<T> &v) const { std::size_t r = v.index; boost::hash_combine(r, v.rotation); boost::hash_combine(r, v.relative); boost::hash_combine(r, int(v.type)); return r; }
    };
}
