#include "acc.hpp"
namespace acc { json run_s16(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::int16_t>(w, a, s); } }
