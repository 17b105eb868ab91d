#include "acc.hpp"
namespace acc { json run_u32(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::uint32_t>(w, a, s); } }
