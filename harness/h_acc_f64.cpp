#include "acc.hpp"
namespace acc { json run_f64(World& w, const fg::Accessor& a, const json& s) { return forComponent<double>(w, a, s); } }
