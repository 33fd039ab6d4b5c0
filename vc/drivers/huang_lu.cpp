// Entry point of the packing contracts (H01, H02).
#include <nil/blueprint/detail/huang_lu.hpp>
typedef std::list<std::pair<std::size_t, std::size_t>> L;
typedef std::unordered_map<std::size_t, std::size_t> M;
extern "C" void vf_pack(L *tasks, std::size_t agents, M *out) { *out = nil::blueprint::components::detail::huang_lu(*tasks, agents); }
