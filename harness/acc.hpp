// Reading an accessor through every accessor function, for the element types of one component type.
#pragma once
#include <fastgltf/tools.hpp>
#include <cstring>
#include <memory>
#include "common.hpp"
namespace fg = fastgltf;

namespace acc {
// a class of the user: constructed from its components, copied by its own functions
template <class T, int N> class Obj {
    T v[N]; Obj* self;
public:
    Obj() : self(this) { for (auto& x : v) x = T(7); }
    template <class... A, class = std::enable_if_t<sizeof...(A) == N && std::conjunction_v<std::is_same<A, T>...>>> explicit Obj(A... a) : v{a...}, self(this) {}
    Obj(const Obj& o) : self(this) { for (int i = 0; i < N; ++i) v[i] = o.at(i); }
    Obj& operator=(const Obj& o) { if (self != this) vh::internal("assignment to no object"); for (int i = 0; i < N; ++i) v[i] = o.at(i); return *this; }
    ~Obj() {}
    T at(int i) const { if (self != this) vh::internal("object copied bytewise"); return v[i]; }
};
constexpr int comps(fg::AccessorType t) { return int(fg::getNumComponents(t)); }
// MAT2 and VEC4 have both four components
template <class T, fg::AccessorType A, bool Row> struct Plain { T v[comps(A)]; T at(int i) const { return v[i]; } };
template <class T, fg::AccessorType A> struct Object : Obj<T, comps(A)> { using Obj<T, comps(A)>::Obj; };
}
namespace fastgltf {
template <class T, AccessorType A, bool Row> struct ElementTraits<acc::Plain<T, A, Row>> : ElementTraitsBase<acc::Plain<T, A, Row>, A, T, Row> {};
template <class T, AccessorType A> struct ElementTraits<acc::Object<T, A>> : ElementTraitsBase<acc::Object<T, A>, A, T> {};
}

namespace acc {
template <class V> std::string text(V v) {
    char b[64];
    if constexpr (std::is_floating_point_v<V>) std::snprintf(b, sizeof b, "%.17g", double(v));
    else std::snprintf(b, sizeof b, "%lld", (long long)v);
    return b;
}
template <class E, class = void> struct Has : std::false_type {};
template <class E> struct Has<E, std::void_t<decltype(std::declval<const E&>().at(0))>> : std::true_type {};
template <class E> json comp(const E& e) {
    json o = json::array();
    constexpr auto type = fg::ElementTraits<E>::type;
    if constexpr (Has<E>::value) for (int i = 0; i < comps(type); ++i) o.push_back(text(e.at(i)));
    else if constexpr (std::is_arithmetic_v<E>) o.push_back(text(e));
    else if constexpr (fg::isMatrix(type)) {
        constexpr int n = int(fg::getElementRowCount(type));
        for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) o.push_back(text(e[c][r]));
    } else for (int i = 0; i < comps(type); ++i) o.push_back(text(e[i]));
    return o;
}

// each view in a block of its own
struct Adapter {
    std::vector<std::unique_ptr<std::byte[]>> blocks; std::vector<std::size_t> sizes;
    fg::span<const std::byte> operator()(const fg::Asset&, std::size_t i) const { return fg::span<const std::byte>(static_cast<const std::byte*>(blocks[i].get()), sizes[i]); }
};
struct World { fg::Asset asset; std::vector<std::byte> keep; std::unique_ptr<std::byte[]> mem; Adapter adapter; };

// copy with a stride; bytes outside the elements must stay as they were
template <class E, std::size_t Stride, class A> json copied(const fg::Asset& asset, const fg::Accessor& a, const A& adapter, bool dflt) {
    json o = json::object(), list = json::array();
    if (!a.count) return list;
    auto n = (a.count - 1) * Stride + sizeof(E);
    std::unique_ptr<std::byte[]> p(new std::byte[n]);
    auto guard = [](std::size_t k) { return std::byte((k * 41 + 3) % 256); };
    for (std::size_t k = 0; k < n; ++k) p[k] = guard(k);
    if constexpr (!std::is_trivially_copyable_v<E>) for (std::size_t i = 0; i < a.count; ++i) new (p.get() + i * Stride) E();
    if (dflt) fg::copyFromAccessor<E, Stride>(asset, a, p.get()); else fg::copyFromAccessor<E, Stride>(asset, a, p.get(), adapter);
    for (std::size_t k = 0; k < n; ++k) if (k % Stride >= sizeof(E) && p[k] != guard(k)) return "byte " + std::to_string(k % Stride) + " after element changed";
    for (std::size_t i = 0; i < a.count; ++i) {
        if constexpr (!std::is_trivially_copyable_v<E>) list.push_back(comp(*reinterpret_cast<E*>(p.get() + i * Stride)));
        else { alignas(16) std::byte b[sizeof(E)]; std::memcpy(b, p.get() + i * Stride, sizeof(E)); list.push_back(comp(*reinterpret_cast<E*>(b))); }
    }
    if constexpr (!std::is_trivially_copyable_v<E>) for (std::size_t i = 0; i < a.count; ++i) reinterpret_cast<E*>(p.get() + i * Stride)->~E();
    return list;
}
template <class T, class A> json components(const fg::Asset& asset, const fg::Accessor& a, const A& adapter, bool dflt) {
    auto m = fg::getNumComponents(a.type);
    std::unique_ptr<T[]> p(new T[a.count * m]);
    if (dflt) fg::copyComponentsFromAccessor<T>(asset, a, p.get()); else fg::copyComponentsFromAccessor<T>(asset, a, p.get(), adapter);
    json o = json::array();
    for (std::size_t i = 0; i < a.count; ++i) {
        json e = json::array();
        for (std::size_t c = 0; c < m; ++c) e.push_back(text(p[i * m + c]));
        o.push_back(e);
    }
    return o;
}

template <class E, class A> json iterators(const fg::Asset& asset, const fg::Accessor& a, const A& adapter, const json& ops) {
    auto range = fg::iterateAccessor<E>(asset, a, adapter);
    using It = decltype(range.begin());
    It its[2] = {range.begin(), range.begin()};
    json obs = json::array();
    auto yes = [](bool b) { return json::array({b ? "1" : "0"}); };
    auto one = [](std::ptrdiff_t n) { return json::array({std::to_string(n)}); };
    for (auto& o : ops) {
        std::string op = o["op"];
        int xi = int(o["x"]) - 1;
        auto &x = its[xi], &y = its[1 - xi];
        json ret = json::array();
        if (op == "begin") x = range.begin();
        else if (op == "end") x = range.end();
        else if (op == "pre") { auto& q = ++x; if (&q != &x) ret = "the prefix increment returns another iterator"; }
        else if (op == "preread") ret = comp(*++x);
        else if (op == "post") ret = comp(*x++);
        else if (op == "deref") ret = comp(*x);
        else if (op == "copy") x = y;
        else if (op == "copyctor") { It z(x); ret = comp(*z); }
        else if (op == "eq") { ret = json::array({x == y ? "1" : "0", x != y ? "1" : "0"}); }
        else if (op == "dist") ret = one(x - y);
        else if (op == "stddist") ret = one(std::distance(x, y));
        else vh::internal("op " + op);
        obs.push_back({{"ret", ret}});
    }
    return obs;
}

// the probed elements of a long accessor; all others have to be zero
inline json probed(const json& l, const json& at) {
    if (!l.is_array()) return l;
    json o = json::array();
    std::size_t k = 0;
    for (std::size_t i = 0; i < l.size(); ++i) {
        if (k < at.size() && at[k] == i) { o.push_back(l[i]); ++k; continue; }
        if (!l[i].is_array()) return "element " + std::to_string(i) + " " + l[i].dump();
        for (auto& c : l[i]) if (c != "0") return "element " + std::to_string(i) + " is not zero";
    }
    return o;
}
template <class E, class T, class A> json read(const fg::Asset& asset, const fg::Accessor& a, const A& adapter, const json& s, bool dflt) {
    json out = json::object();
    if (!s["ops"].empty()) { out["obs"] = iterators<E>(asset, a, adapter, s["ops"]); return out; }
    json l = json::array();
    // last element first, and each twice
    std::vector<json> v(a.count);
    for (std::size_t i = a.count; i-- > 0;) v[i] = comp(dflt ? fg::getAccessorElement<E>(asset, a, i) : fg::getAccessorElement<E>(asset, a, i, adapter));
    for (std::size_t i = 0; i < a.count; i += 2) if (comp(fg::getAccessorElement<E>(asset, a, i, adapter)) != v[i]) v[i] = "changes from one reading to the next";
    for (auto& x : v) l.push_back(x);
    out["element"] = l;
    l = json::array();
    auto push = [&](auto&& e) { l.push_back(comp(e)); };
    if (dflt) fg::iterateAccessor<E>(asset, a, push); else fg::iterateAccessor<E>(asset, a, push, adapter);
    out["callback"] = l;
    l = json::array();
    std::size_t n = 0;
    fg::iterateAccessorWithIndex<E>(asset, a, [&](auto&& e, std::size_t i) { l.push_back(i == n++ ? comp(e) : json("index " + std::to_string(i))); }, adapter);
    out["indexed"] = l;
    l = json::array();
    if (dflt) for (auto&& e : fg::iterateAccessor<E>(asset, a)) l.push_back(comp(e)); else for (auto&& e : fg::iterateAccessor<E>(asset, a, adapter)) l.push_back(comp(e));
    out["range"] = l;
    out["copy"] = copied<E, sizeof(E)>(asset, a, adapter, dflt);
    out["copy+"] = copied<E, sizeof(E) + (alignof(E) > 4 ? alignof(E) : 4)>(asset, a, adapter, dflt);
    out["copy3"] = copied<E, 3 * sizeof(E)>(asset, a, adapter, dflt);
    if (!s["probe"].empty()) for (auto& x : out) x = probed(x, s["probe"]);
    return out;
}

template <class E, class T> json withAdapter(World& w, const fg::Accessor& a, const json& s) {
    if (s["kind"] == "custom") return read<E, T>(w.asset, a, w.adapter, s, false);
    return read<E, T>(w.asset, a, fg::DefaultBufferDataAdapter {}, s, true);
}
template <class T, fg::AccessorType A> json forType(World& w, const fg::Accessor& a, const json& s) {
    std::string shape = s["fmt"]["shape"];
    json out;
    if (shape == "agg") {
        out = withAdapter<Plain<T, A, false>, T>(w, a, s);
        if (!a.sparse) out["components"] = s["kind"] == "custom" ? components<T>(w.asset, a, w.adapter, false) : components<T>(w.asset, a, fg::DefaultBufferDataAdapter {}, true);
        return out;
    }
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, std::uint16_t>) if (shape == "obj") return withAdapter<Object<T, A>, T>(w, a, s);
    if constexpr (fg::isMatrix(A) && (std::is_same_v<T, float> || std::is_same_v<T, std::int16_t>)) if (shape == "row") return withAdapter<Plain<T, A, true>, T>(w, a, s);
    if constexpr (A == fg::AccessorType::Vec4 && std::is_floating_point_v<T>) if (shape == "quat") return withAdapter<fg::math::quat<T>, T>(w, a, s);
    if (shape == "std") {
        if constexpr (A == fg::AccessorType::Scalar) return withAdapter<T, T>(w, a, s);
        else if constexpr (!fg::isMatrix(A)) return withAdapter<fg::math::vec<T, std::size_t(comps(A))>, T>(w, a, s);
        else if constexpr (std::is_same_v<T, float>) return withAdapter<fg::math::mat<float, fg::getElementRowCount(A), fg::getElementRowCount(A)>, T>(w, a, s);
    }
    vh::internal("shape");
}
template <class T> json forComponent(World& w, const fg::Accessor& a, const json& s) {
    switch (a.type) {
        case fg::AccessorType::Scalar: return forType<T, fg::AccessorType::Scalar>(w, a, s);
        case fg::AccessorType::Vec2: return forType<T, fg::AccessorType::Vec2>(w, a, s);
        case fg::AccessorType::Vec3: return forType<T, fg::AccessorType::Vec3>(w, a, s);
        case fg::AccessorType::Vec4: return forType<T, fg::AccessorType::Vec4>(w, a, s);
        case fg::AccessorType::Mat2: return forType<T, fg::AccessorType::Mat2>(w, a, s);
        case fg::AccessorType::Mat3: return forType<T, fg::AccessorType::Mat3>(w, a, s);
        case fg::AccessorType::Mat4: return forType<T, fg::AccessorType::Mat4>(w, a, s);
        default: vh::internal("type");
    }
}
json run_s8(World&, const fg::Accessor&, const json&);
json run_u8(World&, const fg::Accessor&, const json&);
json run_s16(World&, const fg::Accessor&, const json&);
json run_u16(World&, const fg::Accessor&, const json&);
json run_s32(World&, const fg::Accessor&, const json&);
json run_u32(World&, const fg::Accessor&, const json&);
json run_f32(World&, const fg::Accessor&, const json&);
json run_f64(World&, const fg::Accessor&, const json&);
}
