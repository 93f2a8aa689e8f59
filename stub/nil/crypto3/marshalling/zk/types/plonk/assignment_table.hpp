#pragma once
#include <nil/crypto3/marshalling/algebra/types/field_element.hpp>
