#pragma once
#include <nil/marshalling/endianness.hpp>
#include <nil/marshalling/status_type.hpp>
namespace nil {
    namespace marshalling {
        template<typename... TOptions>
        class field_type {};
    }    // namespace marshalling
}    // namespace nil
