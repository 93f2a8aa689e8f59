#pragma once
#include <nil/crypto3/algebra/fields/detail_all_fields.hpp>
