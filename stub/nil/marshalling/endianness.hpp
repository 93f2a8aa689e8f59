#pragma once
namespace nil {
    namespace marshalling {
        namespace endian {
            struct big_endian {};
            struct little_endian {};
        }    // namespace endian
        namespace option {
            using big_endian = endian::big_endian;
            using little_endian = endian::little_endian;
        }    // namespace option
    }        // namespace marshalling
}    // namespace nil
