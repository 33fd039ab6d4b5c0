#include <nil/crypto3/plonk_standin.hpp>
