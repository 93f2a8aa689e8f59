#pragma once

#include <algorithm>
#include <cstdint>
#include <functional>
#include <iostream>
#include <vector>

#include <boost/functional/hash.hpp>

#include <nil/crypto3/zk/math/expression.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename AssignmentType>
                class plonk_variable {
                public:
                    constexpr static bool is_plonk_variable = true;
                    typedef AssignmentType assignment_type;
                    enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized };

                    std::size_t index;
                    std::int32_t rotation;
                    bool relative;
                    column_type type;

                    constexpr plonk_variable() :
                        index(0), rotation(0), relative(false), type(column_type::uninitialized) {}
                    constexpr plonk_variable(const std::size_t index, std::int32_t rotation, bool relative = true,
                                             column_type type = column_type::witness) :
                        index(index),
                        rotation(rotation), relative(relative), type(type) {}

                    math::term<plonk_variable> pow(std::size_t power) const {
                        return math::term<plonk_variable>(*this).pow(power);
                    }
                    math::term<plonk_variable> operator-() const {
                        return math::term<plonk_variable>(*this, -assignment_type::one());
                    }

                    bool operator==(const plonk_variable &o) const {
                        return index == o.index && rotation == o.rotation && relative == o.relative && type == o.type;
                    }
                    bool operator!=(const plonk_variable &o) const { return !(*this == o); }
                    bool operator<(const plonk_variable &o) const {
                        if (index != o.index) {
                            return index < o.index;
                        }
                        if (rotation != o.rotation) {
                            return rotation < o.rotation;
                        }
                        if (type != o.type) {
                            return type < o.type;
                        }
                        return relative < o.relative;
                    }
                };

                template<typename AssignmentType>
                std::size_t hash_value(const plonk_variable<AssignmentType> &v) {
                    std::size_t h = 0;
                    boost::hash_combine(h, v.index);
                    boost::hash_combine(h, v.rotation);
                    boost::hash_combine(h, static_cast<int>(v.type));
                    boost::hash_combine(h, v.relative);
                    return h;
                }

                template<typename AssignmentType>
                std::ostream &operator<<(std::ostream &os, const plonk_variable<AssignmentType> &v) {
                    typedef plonk_variable<AssignmentType> var;
                    switch (v.type) {
                        case var::column_type::witness:
                            os << "w";
                            break;
                        case var::column_type::public_input:
                            os << "pub";
                            break;
                        case var::column_type::constant:
                            os << "c";
                            break;
                        case var::column_type::selector:
                            os << "s";
                            break;
                        default:
                            os << "uninit";
                    }
                    os << "_" << v.index;
                    if (v.relative) {
                        os << "_rel";
                    } else {
                        os << "_abs";
                    }
                    return os << "(" << v.rotation << ")";
                }

                // make the expression operators visible to argument dependent lookup
                using math::operators::operator+;
                using math::operators::operator-;
                using math::operators::operator*;
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil

namespace std {
    template<typename AssignmentType>
    struct hash<nil::crypto3::zk::snark::plonk_variable<AssignmentType>> {
        std::size_t operator()(const nil::crypto3::zk::snark::plonk_variable<AssignmentType> &v) const {
            return nil::crypto3::zk::snark::hash_value(v);
        }
    };
}    // namespace std
