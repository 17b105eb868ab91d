#include "acc.hpp"
namespace acc { json run_s32(World& w, const fg::Accessor& a, const json& s) { return forComponent<std::int32_t>(w, a, s); } }
