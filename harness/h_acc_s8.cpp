#include "acc.hpp"
namespace acc { json run_s8(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::int8_t>(w, a, s); } }
