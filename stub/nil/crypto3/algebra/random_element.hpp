#pragma once
#include <nil/crypto3/random/algebraic_engine.hpp>
