#pragma once

#include <nil/crypto3/zk/math/expression.hpp>
#include <nil/crypto3/zk/math/expression_evaluator.hpp>
#include <nil/crypto3/zk/math/expression_visitors.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/assignment.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/variable.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType,
                         typename VariableType = plonk_variable<typename FieldType::value_type>>
                class plonk_constraint : public math::expression<VariableType> {
                    typedef math::expression<VariableType> base_type;

                public:
                    typedef FieldType field_type;
                    typedef VariableType variable_type;
                    typedef base_type expression_type;
                    typedef math::term<VariableType> term_type;

                    plonk_constraint() = default;
                    plonk_constraint(const base_type &e) : base_type(e) {}
                    plonk_constraint(base_type &&e) : base_type(std::move(e)) {}
                    plonk_constraint(const term_type &t) : base_type(t) {}
                    plonk_constraint(const VariableType &v) : base_type(v) {}
                    plonk_constraint(const math::pow_operation<VariableType> &p) : base_type(p) {}
                    plonk_constraint(const math::binary_arithmetic_operation<VariableType> &b) : base_type(b) {}
                    plonk_constraint(const typename FieldType::value_type &c) : base_type(c) {}
                    template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
                    plonk_constraint(T c) : base_type(typename FieldType::value_type(c)) {}

                    typename FieldType::value_type
                        evaluate(std::size_t row_index, const plonk_assignment_table<FieldType> &assignments) const {
                        math::expression_evaluator<VariableType> evaluator(
                            *this,
                            [&assignments, row_index](const VariableType &v) -> const typename FieldType::value_type & {
                                return assignments.get_variable_value(v, row_index);
                            });
                        return evaluator.evaluate();
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
