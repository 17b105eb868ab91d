#include "common.hpp"
#include <limits>
#include <fastgltf/types.hpp>
namespace fg = fastgltf;
using I = std::int64_t;
static int mode;
// order preserving maps from the specification's values -1..2
static const I iv[3][4] = {{-1, 0, 1, 2}, {std::numeric_limits<I>::min(), -5, (I(1) << 53) + 1, std::numeric_limits<I>::max()}, {10, 20, 30, 40}};
static const double dv[3][4] = {{-1, 0, 1, 2}, {-std::numeric_limits<double>::max(), -1e-300, 0.1, std::numeric_limits<double>::max()}, {-4.5, -3.25, -2.5, -1.125}};
template <typename T> T mk(int v) { if constexpr (std::is_same_v<T, I>) return iv[mode][v + 1]; else return dv[mode][v + 1]; }
template <typename T> int un(T x) { for (int v = -1; v <= 2; ++v) if (mk<T>(v) == x) return v; return 99; }
static json show(const std::optional<fg::AccessorBoundsArray>& b) {
    json v = json::array();
    if (!b) return json{{"t", "-"}, {"v", v}};
    bool f = b->isType<double>();
    if (f == b->isType<I>()) return "both types";
    if ((b->type() == fg::AccessorBoundsArray::BoundsType::float64) != f) return "type() disagrees";
    for (std::size_t i = 0; i < b->size(); ++i) v.push_back(f ? un(b->get<double>(i)) : un(b->get<I>(i)));
    return json{{"t", f ? "f" : "i"}, {"v", v}};
}
static json show(const fg::Accessor& a) { return json{{"max", show(a.max)}, {"min", show(a.min)}}; }
template <typename T, std::size_t N> void incN(fg::Accessor& a, const json& v) {
    fg::math::vec<T, N> x;
    for (std::size_t i = 0; i < N; ++i) x[i] = mk<T>(v[i]);
    a.updateBoundsToInclude(x);
}
template <typename T> void inc(fg::Accessor& a, const json& v, bool scalar) {
    if (scalar) return a.updateBoundsToInclude(mk<T>(v[0]));
    switch (v.size()) {
        case 2: return incN<T, 2>(a, v);
        case 3: return incN<T, 3>(a, v);
        default: return incN<T, 4>(a, v);
    }
}
template <typename T> fg::AccessorBoundsArray arr(const json& v) {
    auto r = fg::AccessorBoundsArray::ForType<T>(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r.template set<T>(i, mk<T>(v[i]));
    return r;
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) {
        mode = s["t"];
        fg::Accessor obj[2];
        json obs = json::array();
        for (auto& op : s["ops"]) {
            std::string n = op["op"];
            auto& x = obj[op["x"] == "a" ? 0 : 1];
            auto& y = obj[op["x"] == "a" ? 1 : 0];
            bool f = op["t"] == "f";
            auto& v = op["v"];
            if (n == "scalar" || n == "vec") f ? inc<double>(x, v, n == "scalar") : inc<I>(x, v, n == "scalar");
            else if (n == "presetmax" || n == "presetmin") {
                auto& b = n == "presetmax" ? x.max : x.min;
                b = f ? arr<double>(v) : arr<I>(v);
            }
            else if (n == "moveassign") { x = std::move(y); y = fg::Accessor(); }
            else if (n == "movector") { fg::Accessor t(std::move(y)); y = fg::Accessor(); x = std::move(t); }
            else if (n == "swap") std::swap(x, y);
            else if (n == "moveboundmax") { *x.max = std::move(*y.max); y.max.reset(); }
            else if (n == "moveboundmin") { *x.min = std::move(*y.min); y.min.reset(); }
            else vh::internal(n);
            obs.push_back({{"a", show(obj[0])}, {"b", show(obj[1])}});
        }
        return json{{"obs", obs}};
    });
}
