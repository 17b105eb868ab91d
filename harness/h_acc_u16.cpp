#include "acc.hpp"
namespace acc { json run_u16(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::uint16_t>(w, a, s); } }
