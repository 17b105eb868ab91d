#include "common.hpp"
#include <fastgltf/math.hpp>
#include <cmath>
namespace m = fastgltf::math;
template <class T> double D(T v) { return static_cast<double>(v); }
template <class T, std::size_t N> json dump(const m::vec<T, N>& v) { json j = json::array(); for (std::size_t i = 0; i < N; ++i) j.push_back(D(v[i])); return j; }
template <class T> json dumpq(const m::quat<T>& v) { json j = json::array(); for (std::size_t i = 0; i < 4; ++i) j.push_back(D(v[i])); return j; }
template <class T, std::size_t N, std::size_t M> json dumpm(const m::mat<T, N, M>& a) {
    json j = json::array();
    for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < N; ++k) j.push_back(D(a.data()[i * N + k]));
    return j;
}
template <class T, std::size_t N> m::vec<T, N> vecOf(const json& j) { m::vec<T, N> v; for (std::size_t i = 0; i < N; ++i) v[i] = static_cast<T>(j[i].get<int>()); return v; }
template <class T, std::size_t N> m::vec<T, N> vecArgs(const json& j) {
    auto g = [&](int i) { return static_cast<T>(j[i].get<int>()); };
    if constexpr (N == 2) return m::vec<T, N>(g(0), g(1));
    else if constexpr (N == 3) return m::vec<T, N>(g(0), g(1), g(2));
    else return m::vec<T, N>(g(0), g(1), g(2), g(3));
}
template <class T, std::size_t N> m::vec<T, N> vecList(const json& j) {
    auto g = [&](int i) { return static_cast<T>(j[i].get<int>()); };
    if constexpr (N == 2) return {g(0), g(1)};
    else if constexpr (N == 3) return {g(0), g(1), g(2)};
    else return {g(0), g(1), g(2), g(3)};
}
template <class T> m::quat<T> quatOf(const json& j) { m::quat<T> q; for (std::size_t i = 0; i < 4; ++i) q[i] = static_cast<T>(j[i].get<int>()); return q; }
template <class T> m::quat<T> unit(const json& j, int n) {
    T l = static_cast<T>(std::sqrt(static_cast<long double>(n)));
    return m::quat<T>(T(j[0].get<int>()) / l, T(j[1].get<int>()) / l, T(j[2].get<int>()) / l, T(j[3].get<int>()) / l);
}
struct Ctx { const json* ops; std::size_t pos = 0; json obs = json::array(); };

template <class T, std::size_t N> void runVec(m::vec<T, N> v, Ctx& c) {
    using V = m::vec<T, N>;
    while (c.pos < c.ops->size()) {
        const json& op = (*c.ops)[c.pos++];
        const std::string o = op["op"];
        const json& a = op["a"];
        const int si = op["s"];
        const T s = static_cast<T>(si);
        json ret = json::array();
        auto done = [&](const auto& w) { c.obs.push_back({{"ret", ret}, {"v", dump(w)}}); };
        auto A = [&] { return vecOf<T, N>(a); };
        auto b = [&](bool x) { ret.push_back(x ? 1 : 0); };
        if (o == "add") v = v + A(); else if (o == "addeq") v += A();
        else if (o == "sub") v = v - A(); else if (o == "subeq") v -= A();
        else if (o == "mul") v = v * A(); else if (o == "muleq") v *= A();
        else if (o == "div") v = v / A(); else if (o == "diveq") v /= A();
        else if (o == "adds") v = v + s; else if (o == "addeqs") v += s;
        else if (o == "subs") v = v - s; else if (o == "subeqs") v -= s;
        else if (o == "muls") v = v * s; else if (o == "muleqs") v *= s;
        else if (o == "divs") v = v / s; else if (o == "diveqs") v /= s;
        else if (o == "chain") (v += vecOf<T, N>(a[0])) -= vecOf<T, N>(a[1]);
        else if (o == "chains") (v *= s) += A();
        else if (o == "preinc") ret = dump<T, N>(++v);
        else if (o == "predec") ret = dump<T, N>(--v);
        else if (o == "postinc") ret = dump<T, N>(v++);
        else if (o == "postdec") ret = dump<T, N>(v--);
        else if (o == "neg") v = -v; else if (o == "pos") v = +v;
        else if (o == "set") v = vecArgs<T, N>(a);
        else if (o == "setlist") v = vecList<T, N>(a);
        else if (o == "assignlist") {
            auto g = [&](int i) { return static_cast<T>(a[i].get<int>()); };
            if constexpr (N == 2) v = {g(0), g(1)}; else if constexpr (N == 3) v = {g(0), g(1), g(2)}; else v = {g(0), g(1), g(2), g(3)};
        }
        else if (o == "fromptr") { std::vector<T> x; for (auto& e : a) x.push_back(static_cast<T>(e.get<int>())); v = V::fromPointer(x.data()); }
        else if (o == "copyassign") { V w = A(); V u(w); v = u; }
        else if (o == "fill") v = V(s);
        else if (o == "setat") {
            int k = a[0].get<int>() - 1;
            if (k == 0) v.x() = s; else if (k == 1) v.y() = s;
            if constexpr (N >= 3) if (k == 2) v.z() = s;
            if constexpr (N >= 4) if (k == 3) v.w() = s;
        }
        else if (o == "resize" || o == "resizeassign" || o == "resizeop") {
            int n = a[0];
            auto to = [&](auto K) {
                constexpr std::size_t Q = decltype(K)::value;
                m::vec<T, Q> w(T(77));
                if (o == "resize") w = m::vec<T, Q>(v);
                else if (o == "resizeassign") w = v;
                else { if constexpr (Q < N) w = v.template operator m::vec<T, Q>(); else w = m::vec<T, Q>(v); }
                done(w);
                runVec<T, Q>(w, c);
            };
            if (n == 2) to(std::integral_constant<std::size_t, 2>{}); else if (n == 3) to(std::integral_constant<std::size_t, 3>{}); else to(std::integral_constant<std::size_t, 4>{});
            return;
        }
        else if (o == "retype" || o == "retypeassign") {
            if constexpr (std::is_same_v<T, double>) { if (o == "retype") v = V(m::vec<std::int64_t, N>(v)); else { m::vec<std::int64_t, N> w; w = v; v = w; } }
            else { if (o == "retype") v = V(m::vec<double, N>(v)); else { m::vec<double, N> w; w = v; v = w; } }
        }
        else if (o == "sum") ret.push_back(D(m::sum(v)));
        else if (o == "dot") ret.push_back(D(m::dot(v, A())));
        else if (o == "cross") { if constexpr (N == 3) ret = dump<T, 3>(m::cross(v, A())); }
        else if (o == "eq") { b(v == A()); b(v != A()); }
        else if (o == "clamp") ret = dump<T, N>(m::clamp(v, static_cast<T>(a[0].get<int>()), static_cast<T>(a[1].get<int>())));
        else if (o == "lerp") ret = dump<T, N>(m::lerp(v, A(), s));
        else if (o == "length") { if constexpr (std::is_floating_point_v<T>) ret.push_back(D(m::length(v * std::ldexp(T(1), si)) * std::ldexp(T(1), -si))); }
        else if (o == "normalize") { if constexpr (std::is_floating_point_v<T>) ret = dump<T, N>(m::normalize(v * std::ldexp(T(1), si))); }
        else if (o == "sizes") { ret.push_back(D(v.size())); ret.push_back(D(v.size_bytes() / sizeof(T))); }
        else vh::internal("unknown op " + o);
        done(v);
    }
}
template <class T> void runQuat(m::quat<T> v, Ctx& c) {
    using Q = m::quat<T>;
    while (c.pos < c.ops->size()) {
        const json& op = (*c.ops)[c.pos++];
        const std::string o = op["op"];
        const json& a = op["a"];
        const int si = op["s"];
        const T s = static_cast<T>(si);
        json ret = json::array();
        auto b = [&](bool x) { ret.push_back(x ? 1 : 0); };
        auto A = [&] { return quatOf<T>(a); };
        if (o == "add") v = v + A(); else if (o == "addeq") v += A();
        else if (o == "sub") v = v - A(); else if (o == "subeq") v -= A();
        else if (o == "muls") v = v * s; else if (o == "muleqs") v *= s;
        else if (o == "divs") v = v / s; else if (o == "diveqs") v /= s;
        else if (o == "chain") (v += quatOf<T>(a[0])) -= quatOf<T>(a[1]);
        else if (o == "neg") v = -v; else if (o == "pos") v = +v;
        else if (o == "set") v = Q(T(a[0].get<int>()), T(a[1].get<int>()), T(a[2].get<int>()), T(a[3].get<int>()));
        else if (o == "fromptr") { std::vector<T> x; for (auto& e : a) x.push_back(static_cast<T>(e.get<int>())); v = Q::fromPointer(x.data()); }
        else if (o == "default") v = Q();
        else if (o == "setat") { int k = a[0].get<int>() - 1; (k == 0 ? v.x() : k == 1 ? v.y() : k == 2 ? v.z() : v.w()) = s; }
        else if (o == "dot") ret.push_back(D(m::dot(v, A())));
        else if (o == "eq") { b(v == A()); b(v != A()); }
        else if (o == "normalize") ret = dumpq<T>(m::normalize(v));
        else if (o == "asmatrix") ret = dumpm<T, 3, 3>(m::asMatrix(unit<T>(a, si)));
        else if (o == "slerp0") ret = dumpq<T>(m::slerp(unit<T>(a[0], si), unit<T>(a[1], si), T(0)));
        else if (o == "slerp1") ret = dumpq<T>(m::slerp(unit<T>(a[0], si), unit<T>(a[1], si), T(1)));
        else if (o == "slerpmid") ret = dumpq<T>(m::slerp(unit<T>(a[0], si), unit<T>(a[1], si), T(0.5)));
        else if (o == "slerpq") {
            auto n = [](const json& j) { long long k = 0; for (auto& e : j) k += e.get<long long>() * e.get<long long>(); return int(k); };
            ret = dumpq<T>(m::slerp(unit<T>(a[0], n(a[0])), unit<T>(a[1], n(a[1])), T(a[2][0].get<int>()) / 4));
        }
        else if (o == "sizes") { ret.push_back(D(v.size())); ret.push_back(D(v.size_bytes() / sizeof(T))); }
        else vh::internal("unknown op " + o);
        c.obs.push_back({{"ret", ret}, {"v", dumpq(v)}});
    }
}
template <class F> void shape(int r, int c, F&& f) {
    auto two = [&](auto R) {
        if (c == 2) f(R, std::integral_constant<std::size_t, 2>{}); else if (c == 3) f(R, std::integral_constant<std::size_t, 3>{}); else f(R, std::integral_constant<std::size_t, 4>{});
    };
    if (r == 2) two(std::integral_constant<std::size_t, 2>{}); else if (r == 3) two(std::integral_constant<std::size_t, 3>{}); else two(std::integral_constant<std::size_t, 4>{});
}
template <class T, std::size_t N, std::size_t M> m::mat<T, N, M> matOf(const json& j) {
    m::mat<T, N, M> a;
    for (std::size_t i = 0; i < M; ++i) for (std::size_t k = 0; k < N; ++k) a.col(i)[k] = static_cast<T>(j["m"][i * N + k].get<int>());
    return a;
}
template <class T, std::size_t N, std::size_t M, std::size_t... I> m::mat<T, N, M> matScalars(const json& j, std::index_sequence<I...>) { return m::mat<T, N, M>(static_cast<T>(j["m"][I].get<int>())...); }
template <class T, std::size_t N, std::size_t M, std::size_t... I> m::mat<T, N, M> matCols(const m::mat<T, N, M>& a, std::index_sequence<I...>) { return m::mat<T, N, M>(a.col(I)...); }
template <class T, std::size_t N, std::size_t M> void runMat(m::mat<T, N, M>, Ctx&);
template <class T, std::size_t N, std::size_t M> void go(const m::mat<T, N, M>& a, Ctx& c) {
    c.obs.push_back({{"ret", json::array()}, {"r", N}, {"c", M}, {"m", dumpm(a)}});
    runMat<T, N, M>(a, c);
}
template <class T, std::size_t N, std::size_t M> void runMat(m::mat<T, N, M> v, Ctx& c) {
    using V = m::mat<T, N, M>;
    while (c.pos < c.ops->size()) {
        const json& op = (*c.ops)[c.pos++];
        const std::string o = op["op"];
        const json& a = op["a"];
        const int si = op["s"].is_number() ? op["s"].get<int>() : 0;
        const T s = static_cast<T>(si);
        json ret = json::array();
        auto b = [&](bool x) { ret.push_back(x ? 1 : 0); };
        if (o == "mul") {
            int q = a[0]["c"];
            auto f = [&](auto Q) { constexpr std::size_t K = decltype(Q)::value; m::mat<T, N, K> w = v * matOf<T, M, K>(a[0]); go<T, N, K>(w, c); };
            if (q == 2) f(std::integral_constant<std::size_t, 2>{}); else if (q == 3) f(std::integral_constant<std::size_t, 3>{}); else f(std::integral_constant<std::size_t, 4>{});
            return;
        }
        if (o == "rmul") {
            int q = a[0]["r"];
            auto f = [&](auto Q) { constexpr std::size_t K = decltype(Q)::value; m::mat<T, K, M> w = matOf<T, K, N>(a[0]) * v; go<T, K, M>(w, c); };
            if (q == 2) f(std::integral_constant<std::size_t, 2>{}); else if (q == 3) f(std::integral_constant<std::size_t, 3>{}); else f(std::integral_constant<std::size_t, 4>{});
            return;
        }
        if (o == "transpose") { m::mat<T, M, N> w = m::transpose(v); go<T, M, N>(w, c); return; }
        if (o == "resize") {
            shape(a[0], a[1], [&](auto R, auto C) {
                constexpr std::size_t P = decltype(R)::value, Q = decltype(C)::value;
                if constexpr ((P < N && Q < M) || (P > N && Q > M)) { m::mat<T, P, Q> w(v); go<T, P, Q>(w, c); } else vh::internal("resize");
            });
            return;
        }
        if (o == "set") {
            if (a[0]["r"] != N || a[0]["c"] != M) {
                shape(a[0]["r"], a[0]["c"], [&](auto R, auto C) { constexpr std::size_t P = decltype(R)::value, Q = decltype(C)::value; go<T, P, Q>(matOf<T, P, Q>(a[0]), c); });
                return;
            }
            v = matOf<T, N, M>(a[0]);
        }
        else if (o == "muls") v = v * s;
        else if (o == "divs") v = v / s;
        else if (o == "neg") v = -v;
        else if (o == "setscalars") v = matScalars<T, N, M>(a[0], std::make_index_sequence<N * M>{});
        else if (o == "setcols") v = matCols(matOf<T, N, M>(a[0]), std::make_index_sequence<M>{});
        else if (o == "assign") { const V w = matOf<T, N, M>(a[0]); V u(w); v = u; }
        else if (o == "diag") v = V(s);
        else if (o == "identity") v = V();
        else if (o == "setat") v[a[1].get<int>() - 1][a[0].get<int>() - 1] = s;
        else if (o == "setcol") v.col(a[0].get<int>() - 1) = vecOf<T, N>(op["s"]);
        else if (o == "mulvec") { m::vec<T, N> w = v * vecOf<T, M>(a); ret = dump<T, N>(w); }
        else if (o == "row") { const V& k = v; m::vec<T, M> w = k.row(a[0].get<int>() - 1); ret = dump<T, M>(w); }
        else if (o == "col") { const V& k = v; m::vec<T, N> w = k[a[0].get<int>() - 1]; ret = dump<T, N>(w); }
        else if (o == "eq") { V w = matOf<T, N, M>(a[0]); b(v == w); b(v != w); }
        else if (o == "sizes") { for (auto x : {v.rows(), v.columns(), v.size(), v.size_bytes() / sizeof(T)}) ret.push_back(D(x)); }
        else if (o == "det") { if constexpr (N == M) { if constexpr (std::is_floating_point_v<T>) ret.push_back(D(m::determinant(v * std::ldexp(T(1), -si)) * std::ldexp(T(1), si * int(N)))); else ret.push_back(D(m::determinant(v))); } }
        else {
            if constexpr (N == M && std::is_floating_point_v<T>) {
                if (o == "inverse") { V w = m::inverse(v * std::ldexp(T(1), -si)); w = w * std::ldexp(T(1), -si); ret = dumpm(w); }
                if constexpr (N == 4) {
                    if (o == "affineinverse") {
                        const T f = std::ldexp(T(1), -si);
                        V x = v;
                        for (int i = 0; i < 3; ++i) x.col(i) *= f;
                        V w = m::affineInverse(x);
                        for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) w.col(i)[k] *= f;
                        V y = m::inverse(x);
                        for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) y.col(i)[k] *= f;
                        ret = dumpm(w);
                        for (auto& e : dumpm(y)) ret.push_back(e);
                    }
                    else if (o == "rotate") v = m::rotate(v, unit<T>(a, si));
                }
            }
            if constexpr (N == 4 && M == 4) {
                if (o == "translate") v = m::translate(v, vecOf<T, 3>(a));
                else if (o == "scale") v = m::scale(v, vecOf<T, 3>(a));
            }
        }
        c.obs.push_back({{"ret", ret}, {"r", N}, {"c", M}, {"m", dumpm(v)}});
    }
}
template <class T> void vecAny(const json& s, Ctx& c) {
    switch (s["init"].size()) {
        case 2: runVec<T, 2>(vecOf<T, 2>(s["init"]), c); break;
        case 3: runVec<T, 3>(vecOf<T, 3>(s["init"]), c); break;
        default: runVec<T, 4>(vecOf<T, 4>(s["init"]), c);
    }
}
template <class T> void matAny(const json& s, Ctx& c) {
    shape(s["init"]["r"], s["init"]["c"], [&](auto R, auto C) { constexpr std::size_t P = decltype(R)::value, Q = decltype(C)::value; runMat<T, P, Q>(matOf<T, P, Q>(s["init"]), c); });
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        std::string k = s["kind"], t = s["t"];
        Ctx c{&s["ops"]};
        if (k == "vec") {
            if (t == "f32") vecAny<float>(s, c); else if (t == "f64") vecAny<double>(s, c);
            else if (t == "s8") vecAny<std::int8_t>(s, c); else if (t == "u8") vecAny<std::uint8_t>(s, c);
            else if (t == "s16") vecAny<std::int16_t>(s, c); else if (t == "u16") vecAny<std::uint16_t>(s, c);
            else if (t == "s32") vecAny<std::int32_t>(s, c); else if (t == "u32") vecAny<std::uint32_t>(s, c);
            else if (t == "s64") vecAny<std::int64_t>(s, c); else vecAny<std::uint64_t>(s, c);
        } else if (k == "quat") {
            if (t == "f32") runQuat<float>(quatOf<float>(s["init"]), c); else runQuat<double>(quatOf<double>(s["init"]), c);
        } else {
            if (t == "f32") matAny<float>(s, c); else if (t == "f64") matAny<double>(s, c); else matAny<std::int32_t>(s, c);
        }
        return {{"obs", c.obs}};
    });
}
