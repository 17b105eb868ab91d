#include "acc.hpp"
namespace acc { json run_u8(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::uint8_t>(w, a, s); } }
