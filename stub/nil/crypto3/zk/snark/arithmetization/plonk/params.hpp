#pragma once
#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>
