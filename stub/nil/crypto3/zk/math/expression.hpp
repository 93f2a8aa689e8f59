// Stand-in for crypto3 math::expression: polynomials over plonk variables kept as a tree.
#pragma once

#include <cstdint>
#include <functional>
#include <iostream>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/variant/static_visitor.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {

            enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };

            template<typename VariableType>
            class expression;
            template<typename VariableType>
            class pow_operation;
            template<typename VariableType>
            class binary_arithmetic_operation;

            // coeff * v_1 * ... * v_k
            template<typename VariableType>
            class term {
            public:
                typedef VariableType variable_type;
                typedef typename VariableType::assignment_type assignment_type;

                term() : coeff(assignment_type::zero()) {}
                term(const assignment_type &c) : coeff(c) {}
                term(const VariableType &v) : coeff(assignment_type::one()), vars(1, v) {}
                term(const VariableType &v, const assignment_type &c) : coeff(c), vars(1, v) {
                    if (coeff == assignment_type::zero()) {
                        vars.clear();
                    }
                }
                term(const std::vector<VariableType> &v, const assignment_type &c) : coeff(c), vars(v) {
                    if (coeff == assignment_type::zero()) {
                        vars.clear();
                    }
                }
                term(std::vector<VariableType> &&v, const assignment_type &c) : coeff(c), vars(std::move(v)) {
                    if (coeff == assignment_type::zero()) {
                        vars.clear();
                    }
                }

                bool is_zero() const { return coeff == assignment_type::zero(); }
                const assignment_type &get_coeff() const { return coeff; }
                const std::vector<VariableType> &get_vars() const { return vars; }

                term pow(std::size_t power) const {
                    std::vector<VariableType> v;
                    for (std::size_t i = 0; i < power; ++i) {
                        v.insert(v.end(), vars.begin(), vars.end());
                    }
                    return term(std::move(v), coeff.pow(power));
                }

                term operator-() const { return term(vars, -coeff); }

                bool operator==(const term &o) const {
                    if (coeff != o.coeff || vars.size() != o.vars.size()) {
                        return false;
                    }
                    std::vector<VariableType> a = vars, b = o.vars;
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                    return a == b;
                }
                bool operator!=(const term &o) const { return !(*this == o); }

            private:
                assignment_type coeff;
                std::vector<VariableType> vars;
            };

            template<typename VariableType>
            class expression {
            public:
                typedef VariableType variable_type;
                typedef term<VariableType> term_type;
                typedef pow_operation<VariableType> pow_operation_type;
                typedef binary_arithmetic_operation<VariableType> binary_arithmetic_operation_type;
                typedef typename VariableType::assignment_type assignment_type;
                typedef boost::variant<term_type, boost::recursive_wrapper<pow_operation_type>,
                                       boost::recursive_wrapper<binary_arithmetic_operation_type>>
                    expression_type;

                expression() : expr(term_type()) {}
                expression(const expression &) = default;
                expression(expression &&) = default;
                expression &operator=(const expression &) = default;
                expression &operator=(expression &&) = default;
                expression(const term_type &t) : expr(t) {}
                expression(term_type &&t) : expr(std::move(t)) {}
                expression(const VariableType &v) : expr(term_type(v)) {}
                expression(const assignment_type &c) : expr(term_type(c)) {}
                template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
                expression(T c) : expr(term_type(assignment_type(c))) {}
                expression(const pow_operation_type &p) : expr(p) {}
                expression(const binary_arithmetic_operation_type &b) : expr(b) {}
                expression(binary_arithmetic_operation_type &&b) : expr(std::move(b)) {}

                const expression_type &get_expr() const { return expr; }
                expression_type &get_expr() { return expr; }

                bool is_empty() const;

                expression pow(std::size_t power) const;
                expression operator-() const;

                expression &operator+=(const expression &o);
                expression &operator-=(const expression &o);
                expression &operator*=(const expression &o);

                bool operator==(const expression &o) const { return expr == o.expr; }
                bool operator!=(const expression &o) const { return !(*this == o); }

            private:
                expression_type expr;
            };

            template<typename VariableType>
            class pow_operation {
            public:
                pow_operation(const expression<VariableType> &e, std::size_t p) : expr(e), power(p) {}
                const expression<VariableType> &get_expr() const { return expr; }
                std::size_t get_power() const { return power; }
                bool operator==(const pow_operation &o) const { return power == o.power && expr == o.expr; }

            private:
                expression<VariableType> expr;
                std::size_t power;
            };

            template<typename VariableType>
            class binary_arithmetic_operation {
            public:
                typedef ArithmeticOperator ArithmeticOperatorType;
                binary_arithmetic_operation(const expression<VariableType> &l, const expression<VariableType> &r,
                                            ArithmeticOperator o) :
                    left(l), right(r), op(o) {}
                const expression<VariableType> &get_expr_left() const { return left; }
                const expression<VariableType> &get_expr_right() const { return right; }
                ArithmeticOperator get_op() const { return op; }
                bool operator==(const binary_arithmetic_operation &o) const {
                    return op == o.op && left == o.left && right == o.right;
                }

            private:
                expression<VariableType> left, right;
                ArithmeticOperator op;
            };

            namespace detail {
                template<typename V>
                bool is_zero_term(const expression<V> &e) {
                    const term<V> *t = boost::get<term<V>>(&e.get_expr());
                    return t != nullptr && t->is_zero();
                }
                template<typename V>
                expression<V> make_add(const expression<V> &a, const expression<V> &b) {
                    if (is_zero_term(a)) return b;
                    if (is_zero_term(b)) return a;
                    return expression<V>(binary_arithmetic_operation<V>(a, b, ArithmeticOperator::ADD));
                }
                template<typename V>
                expression<V> make_sub(const expression<V> &a, const expression<V> &b) {
                    if (is_zero_term(b)) return a;
                    return expression<V>(binary_arithmetic_operation<V>(a, b, ArithmeticOperator::SUB));
                }
                template<typename V>
                expression<V> make_mul(const expression<V> &a, const expression<V> &b) {
                    const term<V> *ta = boost::get<term<V>>(&a.get_expr());
                    const term<V> *tb = boost::get<term<V>>(&b.get_expr());
                    if (ta && tb) {
                        std::vector<V> v(ta->get_vars());
                        v.insert(v.end(), tb->get_vars().begin(), tb->get_vars().end());
                        return expression<V>(term<V>(std::move(v), ta->get_coeff() * tb->get_coeff()));
                    }
                    if ((ta && ta->is_zero()) || (tb && tb->is_zero())) {
                        return expression<V>();
                    }
                    return expression<V>(binary_arithmetic_operation<V>(a, b, ArithmeticOperator::MULT));
                }

                // What kind of thing takes part in an expression operator
                template<typename T, typename = void>
                struct expr_traits {
                    constexpr static bool expr_like = false;
                    constexpr static bool term_like = false;
                };
                template<typename V>
                struct expr_traits<term<V>, void> {
                    constexpr static bool expr_like = true;
                    constexpr static bool term_like = true;
                    typedef V variable_type;
                };
                template<typename V>
                struct expr_traits<pow_operation<V>, void> {
                    constexpr static bool expr_like = true;
                    constexpr static bool term_like = false;
                    typedef V variable_type;
                };
                template<typename V>
                struct expr_traits<binary_arithmetic_operation<V>, void> {
                    constexpr static bool expr_like = true;
                    constexpr static bool term_like = false;
                    typedef V variable_type;
                };
                // expression and everything derived from it (constraints)
                template<typename V>
                V expression_variable_of(const expression<V> *);
                template<typename T>
                struct expr_traits<T, std::void_t<decltype(expression_variable_of(static_cast<const T *>(nullptr)))>> {
                    constexpr static bool expr_like = true;
                    constexpr static bool term_like = false;
                    typedef decltype(expression_variable_of(static_cast<const T *>(nullptr))) variable_type;
                };
                // plonk variables declare is_plonk_variable
                template<typename T>
                struct expr_traits<T, std::enable_if_t<T::is_plonk_variable>> {
                    constexpr static bool expr_like = true;
                    constexpr static bool term_like = true;
                    typedef T variable_type;
                };

                template<typename A, typename B, typename = void>
                struct operand_pair {
                    constexpr static bool valid = false;
                    constexpr static bool as_term = false;
                };
                template<typename A, typename B>
                struct operand_pair<A, B, std::enable_if_t<expr_traits<A>::expr_like && expr_traits<B>::expr_like>> {
                    typedef typename expr_traits<A>::variable_type V;
                    constexpr static bool valid =
                        std::is_same<V, typename expr_traits<B>::variable_type>::value;
                    constexpr static bool as_term =
                        valid && expr_traits<A>::term_like && expr_traits<B>::term_like;
                };
                template<typename A, typename B>
                struct operand_pair<A, B, std::enable_if_t<expr_traits<A>::expr_like && !expr_traits<B>::expr_like>> {
                    typedef typename expr_traits<A>::variable_type V;
                    constexpr static bool valid = std::is_convertible<B, typename V::assignment_type>::value;
                    constexpr static bool as_term = valid && expr_traits<A>::term_like;
                };
                template<typename A, typename B>
                struct operand_pair<A, B, std::enable_if_t<!expr_traits<A>::expr_like && expr_traits<B>::expr_like>> {
                    typedef typename expr_traits<B>::variable_type V;
                    constexpr static bool valid = std::is_convertible<A, typename V::assignment_type>::value;
                    constexpr static bool as_term = valid && expr_traits<B>::term_like;
                };

                template<typename V, typename T>
                expression<V> to_expression(const T &t) {
                    if constexpr (std::is_base_of<expression<V>, T>::value) {
                        return static_cast<const expression<V> &>(t);
                    } else if constexpr (expr_traits<T>::expr_like) {
                        return expression<V>(t);
                    } else {
                        return expression<V>(typename V::assignment_type(t));
                    }
                }
                template<typename V, typename T>
                term<V> to_term(const T &t) {
                    if constexpr (expr_traits<T>::expr_like) {
                        return term<V>(t);
                    } else {
                        return term<V>(typename V::assignment_type(t));
                    }
                }
                template<typename V>
                term<V> mul_terms(const term<V> &a, const term<V> &b) {
                    std::vector<V> v(a.get_vars());
                    v.insert(v.end(), b.get_vars().begin(), b.get_vars().end());
                    return term<V>(std::move(v), a.get_coeff() * b.get_coeff());
                }
            }    // namespace detail

            // The operators live in a namespace of their own so that they can also be made visible to
            // argument dependent lookup from the namespace of the variables.
            namespace operators {
                template<typename A, typename B, std::enable_if_t<detail::operand_pair<A, B>::valid, int> = 0>
                expression<typename detail::operand_pair<A, B>::V> operator+(const A &a, const B &b) {
                    typedef typename detail::operand_pair<A, B>::V V;
                    return detail::make_add<V>(detail::to_expression<V>(a), detail::to_expression<V>(b));
                }
                template<typename A, typename B, std::enable_if_t<detail::operand_pair<A, B>::valid, int> = 0>
                expression<typename detail::operand_pair<A, B>::V> operator-(const A &a, const B &b) {
                    typedef typename detail::operand_pair<A, B>::V V;
                    if constexpr (!detail::expr_traits<A>::expr_like) {
                        // crypto3 writes "constant - x" as 0 - (x - constant)
                        return expression<V>(binary_arithmetic_operation<V>(
                            expression<V>(), detail::make_sub<V>(detail::to_expression<V>(b), detail::to_expression<V>(a)),
                            ArithmeticOperator::SUB));
                    } else {
                        return detail::make_sub<V>(detail::to_expression<V>(a), detail::to_expression<V>(b));
                    }
                }
                template<typename A, typename B,
                         std::enable_if_t<detail::operand_pair<A, B>::valid && !detail::operand_pair<A, B>::as_term,
                                          int> = 0>
                expression<typename detail::operand_pair<A, B>::V> operator*(const A &a, const B &b) {
                    typedef typename detail::operand_pair<A, B>::V V;
                    return detail::make_mul<V>(detail::to_expression<V>(a), detail::to_expression<V>(b));
                }
                template<typename A, typename B, std::enable_if_t<detail::operand_pair<A, B>::as_term, int> = 0>
                term<typename detail::operand_pair<A, B>::V> operator*(const A &a, const B &b) {
                    typedef typename detail::operand_pair<A, B>::V V;
                    return detail::mul_terms<V>(detail::to_term<V>(a), detail::to_term<V>(b));
                }
            }    // namespace operators
            using operators::operator+;
            using operators::operator-;
            using operators::operator*;

            template<typename V>
            bool expression<V>::is_empty() const {
                return detail::is_zero_term(*this);
            }
            template<typename V>
            expression<V> expression<V>::pow(std::size_t power) const {
                if (power == 1) {
                    return *this;
                }
                return expression<V>(pow_operation<V>(*this, power));
            }
            template<typename V>
            expression<V> expression<V>::operator-() const {
                return detail::make_mul<V>(expression<V>(-assignment_type::one()), *this);
            }
            template<typename V>
            expression<V> &expression<V>::operator+=(const expression<V> &o) {
                return *this = detail::make_add<V>(*this, o);
            }
            template<typename V>
            expression<V> &expression<V>::operator-=(const expression<V> &o) {
                return *this = detail::make_sub<V>(*this, o);
            }
            template<typename V>
            expression<V> &expression<V>::operator*=(const expression<V> &o) {
                return *this = detail::make_mul<V>(*this, o);
            }

            template<typename V>
            std::ostream &operator<<(std::ostream &os, const term<V> &t) {
                bool first = true;
                if (t.get_coeff() != V::assignment_type::one() || t.get_vars().empty()) {
                    os << t.get_coeff();
                    first = false;
                }
                for (const auto &v : t.get_vars()) {
                    if (!first) {
                        os << " * ";
                    }
                    first = false;
                    os << v;
                }
                return os;
            }

            namespace detail {
                template<typename V>
                struct expression_printer : boost::static_visitor<void> {
                    std::ostream &os;
                    explicit expression_printer(std::ostream &o) : os(o) {}
                    void operator()(const term<V> &t) const { os << t; }
                    void operator()(const pow_operation<V> &p) const {
                        os << "(";
                        boost::apply_visitor(*this, p.get_expr().get_expr());
                        os << " ^ " << p.get_power() << ")";
                    }
                    void operator()(const binary_arithmetic_operation<V> &b) const {
                        os << "(";
                        boost::apply_visitor(*this, b.get_expr_left().get_expr());
                        os << (b.get_op() == ArithmeticOperator::ADD ? " + " :
                               b.get_op() == ArithmeticOperator::SUB ? " - " :
                                                                       " * ");
                        boost::apply_visitor(*this, b.get_expr_right().get_expr());
                        os << ")";
                    }
                };
            }    // namespace detail
            template<typename V>
            std::ostream &operator<<(std::ostream &os, const expression<V> &e) {
                boost::apply_visitor(detail::expression_printer<V>(os), e.get_expr());
                return os;
            }
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
