#pragma once
#include <nil/marshalling/field_type.hpp>
namespace nil {
    namespace crypto3 {
        namespace marshalling {
            namespace types {
                // Only the value access used by the code under test
                template<typename TTypeBase, typename ValueType>
                class field_element {
                    ValueType v;

                public:
                    typedef ValueType value_type;
                    field_element() = default;
                    field_element(const ValueType &x) : v(x) {}
                    template<typename T>
                    explicit field_element(const T &x) : v(x) {}
                    const ValueType &value() const { return v; }
                    ValueType &value() { return v; }
                };
            }    // namespace types
        }        // namespace marshalling
    }            // namespace crypto3
}    // namespace nil
