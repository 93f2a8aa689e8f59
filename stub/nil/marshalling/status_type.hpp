#pragma once
namespace nil {
    namespace marshalling {
        enum class status_type { success, not_enough_data, protocol_error, invalid_msg_data };
    }
}    // namespace nil
