#include "common.hpp"
#include <fastgltf/types.hpp>
namespace fg = fastgltf;
template <typename T> struct Val;
template <> struct Val<std::size_t> { static std::size_t mk(int i) { static const std::size_t v[] = {0, 7, std::size_t(-2)}; return v[i]; } };
template <> struct Val<float> { static float mk(int i) { static const float v[] = {-1.5f, 0.f, std::numeric_limits<float>::max()}; return v[i]; } };
template <> struct Val<double> { static double mk(int i) { static const double v[] = {-1e300, 0., std::numeric_limits<double>::infinity()}; return v[i]; } };
template <> struct Val<fg::Filter> { static fg::Filter mk(int i) { static const fg::Filter v[] = {fg::Filter::Nearest, fg::Filter::LinearMipMapNearest, fg::Filter::LinearMipMapLinear}; return v[i]; } };
template <> struct Val<fg::BufferTarget> { static fg::BufferTarget mk(int i) { static const fg::BufferTarget v[] = {fg::BufferTarget(0), fg::BufferTarget::ArrayBuffer, fg::BufferTarget::ElementArrayBuffer}; return v[i]; } };

template <typename T> json runT(const json& s) {
    using O = fg::OptionalWithFlagValue<T>;
    using V = Val<T>;
    auto un = [](const T& t) { for (int i = 0; i < 3; ++i) if (V::mk(i) == t) return i; return 99; };
    auto st = [&](const O& o) { return o.has_value() ? un(*o) : -1; };
    O obj[2];
    json obs = json::array();
    for (auto& op : s["ops"]) {
        std::string n = op["op"];
        O& x = obj[op["x"] == "a" ? 0 : 1];
        O& y = obj[op["x"] == "a" ? 1 : 0];
        const O& cx = x;
        int vi = op["v"];
        T v = V::mk(vi < 0 ? 0 : vi);
        json ret = json::array();
        auto r = [&](int i) { ret.push_back(i); };
        if (n == "set") { x = T(v); r(un(*x)); }
        else if (n == "setlv") { const T w = v; x = w; r(un(*x)); }
        else if (n == "emplace") r(un(x.emplace(v)));
        else if (n == "inplace") { x = O(std::in_place, v); r(un(*x)); }
        else if (n == "ctor") { O t(v); x = t; r(un(*t)); }
        else if (n == "reset") x.reset();
        else if (n == "null") x = std::nullopt;
        else if (n == "ctornull") x = O(std::nullopt);
        else if (n == "ctordef") x = O();
        else if (n == "copyassign") x = y;
        else if (n == "copyassignc") x = static_cast<const O&>(y);
        else if (n == "moveassign") x = std::move(y);
        else if (n == "copyctor") { O t(static_cast<const O&>(y)); x = t; }
        else if (n == "movector") { O t(std::move(y)); x = std::move(t); }
        else if (n == "selfassign") { O& z = x; x = z; }
        else if (n == "selfswap") { O& z = x; x.swap(z); }
        else if (n == "swap") x.swap(y);
        else if (n == "bool") r(static_cast<bool>(x));
        else if (n == "has") r(cx.has_value());
        else if (n == "tostd") { std::optional<T> t = cx; r(t.has_value() ? un(*t) : -1); }
        else if (n == "tostdmove") { O c = x; std::optional<T> t = std::move(c); r(t.has_value() ? un(*t) : -1); }
        else if (n == "value" || n == "valuec" || n == "valuem") {
            try {
                if (n == "value") r(un(x.value()));
                else if (n == "valuec") r(un(cx.value()));
                else { O c = x; r(un(std::move(c).value())); }
            } catch (const std::bad_optional_access&) { r(-2); }
        }
        else if (n == "deref") r(un(*x));
        else if (n == "derefc") r(un(*cx.operator->()));
        else if (n == "derefm") { O c = x; r(un(*std::move(c))); }
        else if (n == "modify") { *x = v; r(un(*x.operator->())); }
        else if (n == "valueor") r(un(cx.value_or(v)));
        else if (n == "valueorm") { O c = x; r(un(std::move(c).value_or(v))); }
        else if (n.rfind("andthen", 0) == 0) {
            auto f = [&](const T& t) -> O { int i = un(t); return i == 0 ? O(std::nullopt) : O(V::mk(i - 1)); };
            O c = x; const O cc = x;
            if (n == "andthen") r(st(x.and_then(f)));
            else if (n == "andthenc") r(st(cx.and_then(f)));
            else if (n == "andthenm") r(st(std::move(c).and_then(f)));
            else r(st(std::move(cc).and_then(f)));
        }
        else if (n.rfind("transform", 0) == 0) {
            auto f = [&](const T& t) -> T { return V::mk(2 - un(t)); };
            O c = x; const O cc = x;
            if (n == "transform") r(st(x.transform(f)));
            else if (n == "transformc") r(st(cx.transform(f)));
            else if (n == "transformm") r(st(std::move(c).transform(f)));
            else r(st(std::move(cc).transform(f)));
        }
        else if (n == "orelse" || n == "orelsem") {
            auto f = [&]() -> O { return vi < 0 ? O(std::nullopt) : O(v); };
            O c = x;
            if (n == "orelse") r(st(cx.or_else(f)));
            else r(st(std::move(c).or_else(f)));
        }
        else if (n == "cmpopt") { r(cx == y); r(cx != y); }
        else if (n == "cmpval") { r(cx == v); r(cx != v); r(cx < v); r(cx <= v); r(cx > v); r(cx >= v); }
        else vh::internal("unknown op " + n);
        obs.push_back({{"ret", ret}, {"a", st(obj[0])}, {"b", st(obj[1])}});
    }
    return {{"obs", obs}};
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        std::string t = s["t"];
        if (t == "size") return runT<std::size_t>(s);
        if (t == "float") return runT<float>(s);
        if (t == "double") return runT<double>(s);
        if (t == "filter") return runT<fg::Filter>(s);
        if (t == "target") return runT<fg::BufferTarget>(s);
        vh::internal("type");
    });
}
