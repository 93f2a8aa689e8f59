#pragma once

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <boost/assert.hpp>

#include <nil/crypto3/zk/snark/arithmetization/plonk/lookup_table.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                struct lookup_subtable_definition {
                    std::vector<std::size_t> column_indices;
                    std::size_t begin;
                    std::size_t end;
                };

                template<typename FieldType>
                class lookup_table_definition {
                protected:
                    std::vector<std::vector<typename FieldType::value_type>> _table;

                public:
                    std::string table_name;
                    std::map<std::string, lookup_subtable_definition> subtables;

                    lookup_table_definition(const std::string name) : table_name(name) {}
                    virtual ~lookup_table_definition() = default;

                    virtual void generate() = 0;
                    virtual std::size_t get_columns_number() = 0;
                    virtual std::size_t get_rows_number() = 0;

                    const std::vector<std::vector<typename FieldType::value_type>> &get_table() {
                        if (_table.size() == 0) {
                            generate();
                        }
                        return _table;
                    }
                };

                template<typename FieldType>
                class filled_lookup_table_definition : public lookup_table_definition<FieldType> {
                public:
                    filled_lookup_table_definition(lookup_table_definition<FieldType> &other) :
                        lookup_table_definition<FieldType>(other.table_name) {
                        this->_table = other.get_table();
                    }
                    virtual void generate() {}
                    virtual std::size_t get_columns_number() { return this->_table.size(); }
                    virtual std::size_t get_rows_number() { return this->_table.empty() ? 0 : this->_table[0].size(); }
                };

                template<typename FieldType>
                class dynamic_table_definition {
                    bool defined = false;

                public:
                    std::string table_name;
                    plonk_lookup_table<FieldType> lookup_table;

                    dynamic_table_definition(const std::string name) : table_name(name) {}
                    void define(const plonk_lookup_table<FieldType> &t) {
                        lookup_table = t;
                        defined = true;
                    }
                    bool is_defined() const { return defined; }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
