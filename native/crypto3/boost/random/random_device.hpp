#pragma once
namespace boost { namespace random { struct random_device { unsigned operator()() { return 4; } }; } }
