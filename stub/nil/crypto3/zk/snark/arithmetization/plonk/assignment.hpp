// Stand-in for the crypto3 plonk assignment table.
#pragma once

#include <algorithm>
#include <cstdint>
#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/variable.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/table_description.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                using plonk_column = std::vector<typename FieldType::value_type>;

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_private_table {
                public:
                    typedef std::vector<ColumnType> witnesses_container_type;

                    witnesses_container_type _witnesses;

                    plonk_private_table(std::size_t n = 0) : _witnesses(n) {}
                    plonk_private_table(const witnesses_container_type &w) : _witnesses(w) {}

                    std::uint32_t witnesses_amount() const { return _witnesses.size(); }
                    std::uint32_t witness_column_size(std::uint32_t i) const { return _witnesses[i].size(); }
                    const ColumnType &witness(std::uint32_t i) const { return _witnesses[i]; }
                    const witnesses_container_type &witnesses() const { return _witnesses; }
                    std::uint32_t size() const { return witnesses_amount(); }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_public_table {
                public:
                    typedef std::vector<ColumnType> container_type;
                    typedef container_type public_input_container_type;
                    typedef container_type constant_container_type;
                    typedef container_type selector_container_type;

                    container_type _public_inputs;
                    container_type _constants;
                    container_type _selectors;

                    plonk_public_table(std::size_t pi = 0, std::size_t c = 0, std::size_t s = 0) :
                        _public_inputs(pi), _constants(c), _selectors(s) {}
                    plonk_public_table(const container_type &pi, const container_type &c, const container_type &s) :
                        _public_inputs(pi), _constants(c), _selectors(s) {}

                    std::uint32_t public_inputs_amount() const { return _public_inputs.size(); }
                    std::uint32_t public_input_column_size(std::uint32_t i) const { return _public_inputs[i].size(); }
                    const ColumnType &public_input(std::uint32_t i) const { return _public_inputs[i]; }
                    const container_type &public_inputs() const { return _public_inputs; }

                    std::uint32_t constants_amount() const { return _constants.size(); }
                    std::uint32_t constant_column_size(std::uint32_t i) const { return _constants[i].size(); }
                    const ColumnType &constant(std::uint32_t i) const { return _constants[i]; }
                    const container_type &constants() const { return _constants; }

                    std::uint32_t selectors_amount() const { return _selectors.size(); }
                    std::uint32_t selector_column_size(std::uint32_t i) const { return _selectors[i].size(); }
                    const ColumnType &selector(std::uint32_t i) const { return _selectors[i]; }
                    const container_type &selectors() const { return _selectors; }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_table {
                public:
                    typedef FieldType field_type;
                    typedef ColumnType column_type;
                    typedef plonk_private_table<FieldType, ColumnType> private_table_type;
                    typedef plonk_public_table<FieldType, ColumnType> public_table_type;

                protected:
                    private_table_type _private_table;
                    public_table_type _public_table;

                public:
                    plonk_table(std::size_t w, std::size_t pi, std::size_t c, std::size_t s) :
                        _private_table(w), _public_table(pi, c, s) {}
                    plonk_table(const private_table_type &pr, const public_table_type &pu) :
                        _private_table(pr), _public_table(pu) {}
                    plonk_table(const plonk_table &) = default;
                    plonk_table &operator=(const plonk_table &) = default;
                    virtual ~plonk_table() = default;

                    const private_table_type &private_table() const { return _private_table; }
                    const public_table_type &public_table() const { return _public_table; }

                    const ColumnType &witness(std::uint32_t i) const { return _private_table.witness(i); }
                    const ColumnType &public_input(std::uint32_t i) const { return _public_table.public_input(i); }
                    const ColumnType &constant(std::uint32_t i) const { return _public_table.constant(i); }
                    const ColumnType &selector(std::uint32_t i) const { return _public_table.selector(i); }

                    std::uint32_t witnesses_amount() const { return _private_table.witnesses_amount(); }
                    std::uint32_t public_inputs_amount() const { return _public_table.public_inputs_amount(); }
                    std::uint32_t constants_amount() const { return _public_table.constants_amount(); }
                    std::uint32_t selectors_amount() const { return _public_table.selectors_amount(); }

                    std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _private_table.witness_column_size(i);
                    }
                    std::uint32_t public_input_column_size(std::uint32_t i) const {
                        return _public_table.public_input_column_size(i);
                    }
                    std::uint32_t constant_column_size(std::uint32_t i) const {
                        return _public_table.constant_column_size(i);
                    }
                    std::uint32_t selector_column_size(std::uint32_t i) const {
                        return _public_table.selector_column_size(i);
                    }

                    virtual void fill_constant(std::uint32_t i, const ColumnType &c) { _public_table._constants[i] = c; }
                    virtual void fill_selector(std::uint32_t i, const ColumnType &c) { _public_table._selectors[i] = c; }

                    virtual void resize_witnesses(std::uint32_t n) { _private_table._witnesses.resize(n); }
                    virtual void resize_public_inputs(std::uint32_t n) { _public_table._public_inputs.resize(n); }
                    virtual void resize_constants(std::uint32_t n) { _public_table._constants.resize(n); }
                    virtual void resize_selectors(std::uint32_t n) { _public_table._selectors.resize(n); }

                    std::uint32_t size() const {
                        return witnesses_amount() + public_inputs_amount() + constants_amount() + selectors_amount();
                    }

                    std::uint32_t rows_amount() const {
                        std::uint32_t n = 0;
                        for (const auto &c : _private_table._witnesses) n = std::max<std::uint32_t>(n, c.size());
                        for (const auto &c : _public_table._public_inputs) n = std::max<std::uint32_t>(n, c.size());
                        for (const auto &c : _public_table._constants) n = std::max<std::uint32_t>(n, c.size());
                        for (const auto &c : _public_table._selectors) n = std::max<std::uint32_t>(n, c.size());
                        return n;
                    }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                using plonk_assignment_table_base = plonk_table<FieldType, ColumnType>;

                template<typename FieldType>
                class plonk_assignment_table : public plonk_table<FieldType, plonk_column<FieldType>> {
                    typedef plonk_table<FieldType, plonk_column<FieldType>> base_type;

                public:
                    using base_type::base_type;

                    // The value a variable refers to when the constraint is placed on the given row.  Rotations
                    // wrap around the table; a cell past the end of its column reads as zero padding.
                    const typename FieldType::value_type &
                        get_variable_value(const plonk_variable<typename FieldType::value_type> &var,
                                           std::size_t row_index) const {
                        typedef plonk_variable<typename FieldType::value_type> variable_type;
                        static const typename FieldType::value_type zero = FieldType::value_type::zero();
                        const std::size_t rows = this->rows_amount();
                        const std::size_t row =
                            var.relative ? (rows + row_index + var.rotation) % rows : std::size_t(var.rotation);
                        const plonk_column<FieldType> *column = nullptr;
                        switch (var.type) {
                            case variable_type::column_type::witness:
                                column = &base_type::witness(var.index);
                                break;
                            case variable_type::column_type::public_input:
                                column = &base_type::public_input(var.index);
                                break;
                            case variable_type::column_type::constant:
                                column = &base_type::constant(var.index);
                                break;
                            case variable_type::column_type::selector:
                                column = &base_type::selector(var.index);
                                break;
                            default:
                                return zero;
                        }
                        return row < column->size() ? (*column)[row] : zero;
                    }

                    void pad(std::size_t rows) {
                        for (auto &c : this->_private_table._witnesses) c.resize(rows);
                        for (auto &c : this->_public_table._public_inputs) c.resize(rows);
                        for (auto &c : this->_public_table._constants) c.resize(rows);
                        for (auto &c : this->_public_table._selectors) c.resize(rows);
                    }
                };

                // Pads every column with zeros to a power of two rows, at least eight.
                template<typename TableType>
                std::size_t basic_padding(TableType &table) {
                    std::size_t rows = 8;
                    while (rows < table.rows_amount()) rows *= 2;
                    table.pad(rows);
                    return rows;
                }
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
