#pragma once

#include <nil/crypto3/zk/math/expression.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename VariableType>
            class expression_evaluator : public boost::static_visitor<typename VariableType::assignment_type> {
            public:
                typedef typename VariableType::assignment_type ValueType;

                expression_evaluator(const expression<VariableType> &e,
                                     std::function<const ValueType &(const VariableType &)> get_var_value) :
                    expr(e),
                    get_value(get_var_value) {}

                ValueType evaluate() { return boost::apply_visitor(*this, expr.get_expr()); }

                ValueType operator()(const term<VariableType> &t) {
                    ValueType r = t.get_coeff();
                    for (const auto &v : t.get_vars()) {
                        r *= get_value(v);
                    }
                    return r;
                }
                ValueType operator()(const pow_operation<VariableType> &p) {
                    ValueType b = boost::apply_visitor(*this, p.get_expr().get_expr());
                    return b.pow(p.get_power());
                }
                ValueType operator()(const binary_arithmetic_operation<VariableType> &b) {
                    ValueType l = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    ValueType r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    switch (b.get_op()) {
                        case ArithmeticOperator::ADD:
                            return l + r;
                        case ArithmeticOperator::SUB:
                            return l - r;
                        case ArithmeticOperator::MULT:
                            return l * r;
                    }
                    __builtin_unreachable();
                }

            private:
                const expression<VariableType> &expr;
                std::function<const ValueType &(const VariableType &)> get_value;
            };
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
