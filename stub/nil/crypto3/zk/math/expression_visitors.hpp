#pragma once

#include <nil/crypto3/zk/math/expression.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename VariableType>
            class expression_for_each_variable_visitor : public boost::static_visitor<void> {
            public:
                expression_for_each_variable_visitor(std::function<void(const VariableType &)> cb) : callback(cb) {}

                void visit(const expression<VariableType> &e) { boost::apply_visitor(*this, e.get_expr()); }

                void operator()(const term<VariableType> &t) {
                    for (const auto &v : t.get_vars()) {
                        callback(v);
                    }
                }
                void operator()(const pow_operation<VariableType> &p) {
                    boost::apply_visitor(*this, p.get_expr().get_expr());
                }
                void operator()(const binary_arithmetic_operation<VariableType> &b) {
                    boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    boost::apply_visitor(*this, b.get_expr_right().get_expr());
                }

            private:
                std::function<void(const VariableType &)> callback;
            };

            template<typename VariableType>
            class expression_max_degree_visitor : public boost::static_visitor<std::uint32_t> {
            public:
                std::uint32_t compute_max_degree(const expression<VariableType> &e) {
                    return boost::apply_visitor(*this, e.get_expr());
                }
                std::uint32_t operator()(const term<VariableType> &t) { return t.get_vars().size(); }
                std::uint32_t operator()(const pow_operation<VariableType> &p) {
                    return boost::apply_visitor(*this, p.get_expr().get_expr()) * p.get_power();
                }
                std::uint32_t operator()(const binary_arithmetic_operation<VariableType> &b) {
                    std::uint32_t l = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    std::uint32_t r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    return b.get_op() == ArithmeticOperator::MULT ? l + r : std::max(l, r);
                }
            };
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
