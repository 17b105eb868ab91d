#include "acc.hpp"
namespace acc { json run_f32(World& w, const fg::Accessor& a, const json& s) { return forComponent<float>(w, a, s); } }
