// Replays SmallVector/StaticVector behaviours with element types and allocators that check lifetimes and memory.
#include "common.hpp"
#include <fastgltf/types.hpp>
#include <map>
#include <memory_resource>
#include <set>
namespace fg = fastgltf;

static std::set<const void*> liveObjs;
static long lifetimeErr = 0;
static long allocErr = 0;

// every construction and destruction is recorded by address
template <bool Copyable> struct Tracked {
    int* v;
    Tracked() : v(new int(0)) { born(); }
    Tracked(int x) : v(new int(x)) { born(); }
    Tracked(const Tracked& o) : v(new int(o.get())) { static_assert(Copyable); born(); }
    Tracked(Tracked&& o) noexcept : v(new int(o.get())) { born(); *o.v = -7; }
    Tracked& operator=(const Tracked& o) { static_assert(Copyable); need(); *v = o.get(); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { need(); int t = o.get(); *o.v = -7; *v = t; return *this; }
    ~Tracked() { if (!liveObjs.erase(this)) ++lifetimeErr; else delete v; }
    void born() { if (!liveObjs.insert(this).second) ++lifetimeErr; }
    void need() const { if (!liveObjs.count(this)) { ++lifetimeErr; const_cast<Tracked*>(this)->v = new int(0); } }
    int get() const { if (!liveObjs.count(this)) { ++lifetimeErr; return -99; } return *v; }
};
struct MoveOnly {
    std::unique_ptr<int> p; Tracked<true> t;
    MoveOnly() : p(new int(0)), t(0) {}
    MoveOnly(int x) : p(new int(x)), t(x) {}
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
    int get() const { return p ? (*p == t.get() ? *p : -98) : -97; }
};
struct Plain { int v = 0; Plain() = default; Plain(int x) : v(x) {} int get() const { return v; } };
struct CopyOnly {  // copyable, moves fall back to copies, throwing-capable copy
    Tracked<true> t;
    CopyOnly() : t(0) {} CopyOnly(int x) : t(x) {}
    CopyOnly(const CopyOnly& o) noexcept(false) : t(o.t) {}
    CopyOnly& operator=(const CopyOnly&) = default;
    int get() const { return t.get(); }
};
struct TrackRes : std::pmr::memory_resource {
    std::map<void*, std::size_t> m;
    void* do_allocate(std::size_t n, std::size_t al) override { void* p = ::operator new(n ? n : 1); m[p] = n; return p; }
    void do_deallocate(void* p, std::size_t n, std::size_t) override {
        auto it = m.find(p);
        if (it == m.end()) { ++allocErr; return; }
        if (it->second != n) ++allocErr;
        m.erase(it); ::operator delete(p);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
static TrackRes resA, resB, resDef;

template <typename V> json content(const V& v) { json r = json::array(); for (auto& e : v) r.push_back(e.get()); return r; }

template <typename T, std::size_t N, bool Copyable> json runT(const json& s, bool twoRes) {
    using V = fg::pmr::SmallVector<T, N>;
    liveObjs.clear(); lifetimeErr = 0; allocErr = 0; resA.m.clear(); resB.m.clear(); resDef.m.clear();
    std::pmr::set_default_resource(&resDef);
    auto* ra = &resA; auto* rb = twoRes ? &resB : &resA;
    alignas(V) static std::byte mem[2][sizeof(V)];
    V* obj[2] = {new (mem[0]) V(std::pmr::polymorphic_allocator<T>(ra)), new (mem[1]) V(std::pmr::polymorphic_allocator<T>(rb))};
    json obs = json::array();
    for (auto& op : s["ops"]) {
        std::string n = op["op"];
        int xi = op["x"] == "a" ? 0 : 1;
        V& x = *obj[xi]; V& y = *obj[1 - xi];
        auto alloc = std::pmr::polymorphic_allocator<T>(xi == 0 ? ra : rb);
        std::size_t k = op["n"]; int v = op["v"];
        json ret = json::array();
        if (n == "push") x.emplace_back(v);
        else if (n == "resize") x.resize(k);
        else if (n == "reserve") x.reserve(k);
        else if (n == "shrink") x.shrink_to_fit();
        else if (n == "clear") x.clear();
        else if (n == "moveassign") x = std::move(y);
        else if (n == "movector") { x.~V(); new (mem[xi]) V(std::move(y)); }
        else if (n == "swap") { V t(std::move(x)); x = std::move(y); y = std::move(t); }
        else if (n == "ctor") { x.~V(); new (mem[xi]) V(alloc); }
        else if (n == "ctorn") { x.~V(); new (mem[xi]) V(k, alloc); }
        else if (n == "set") x[k - 1] = T(v);
        else if (n == "setat") x.at(k - 1) = T(v);
        else if (n == "at") { try { ret.push_back(static_cast<const V&>(x).at(k - 1).get()); } catch (const std::out_of_range&) { ret.push_back(-1); } }
        else if (n == "read") {
            const V& cx = x;
            ret.push_back(cx.empty() ? 1 : 0); ret.push_back(cx.size());
            if (!cx.empty()) { ret.push_back(x.front().get()); ret.push_back(cx.back().get()); }
            if (cx.size_in_bytes() != cx.size() * sizeof(T) || std::size_t(cx.cend() - cx.cbegin()) != cx.size()) ret.push_back("size");
            if (cx.capacity() < cx.size()) ret.push_back("capacity");
        }
        else if (n == "reverse") {
            json r2 = json::array(); const V& cx = x;
            for (auto it = x.rbegin(); it != x.rend(); ++it) ret.push_back(it->get());
            for (auto it = cx.crbegin(); it != cx.crend(); ++it) r2.push_back(it->get());
            if (r2 != ret) ret.push_back("const");
        }
        else if constexpr (Copyable) {
            if (n == "pushfront") x.emplace_back(x.front());
            else if (n == "pushback") x.emplace_back(static_cast<const T&>(x.back()));
            else if (n == "resizev") x.resize(k, T(v));
            else if (n == "resizeself") x.resize(k, x.front());
            else if (n == "assign") x.assign(k, T(v));
            else if (n == "assignl") {
                int w = v + 1;
                if (k == 0) x.assign(std::initializer_list<T>{}); else if (k == 1) x.assign({T(w)}); else if (k == 2) x.assign({T(w), T(w + 1)});
                else if (k == 3) x.assign({T(w), T(w + 1), T(w + 2)}); else x.assign({T(w), T(w + 1), T(w + 2), T(w + 3)});
            }
            else if (n == "copyassign") x = static_cast<const V&>(y);
            else if (n == "copyctor") { x.~V(); new (mem[xi]) V(static_cast<const V&>(y)); }
            else if (n == "selfassign") { const V& z = x; x = z; }
            else if (n == "ctornv") { x.~V(); new (mem[xi]) V(k, T(v), alloc); }
            else if (n == "ctorl") {
                x.~V(); int w = v + 1;
                if (k == 0) new (mem[xi]) V(std::initializer_list<T>{}, alloc); else if (k == 1) new (mem[xi]) V({T(w)}, alloc); else if (k == 2) new (mem[xi]) V({T(w), T(w + 1)}, alloc);
                else if (k == 3) new (mem[xi]) V({T(w), T(w + 1), T(w + 2)}, alloc); else new (mem[xi]) V({T(w), T(w + 1), T(w + 2), T(w + 3)}, alloc);
            }
            else vh::internal("unknown op " + n);
        } else vh::internal("op not for move-only " + n);
        json a = content(*obj[0]), b = content(*obj[1]);
        long live = std::is_same_v<T, Plain> ? long(a.size() + b.size()) : long(liveObjs.size());
        obs.push_back({{"a", a}, {"b", b}, {"ret", ret}, {"live", live}, {"err", lifetimeErr + allocErr}});
    }
    obj[0]->~V(); obj[1]->~V();
    std::pmr::set_default_resource(nullptr);
    json end = {{"live", liveObjs.size()}, {"err", lifetimeErr + allocErr}, {"mem", resA.m.size() + resB.m.size() + resDef.m.size()}};
    for (auto* r : {&resA, &resB, &resDef}) { for (auto& [p, sz] : r->m) ::operator delete(p); r->m.clear(); }
    return {{"obs", obs}, {"end", end}};
}

// default allocator: ASAN watches the memory; global new/delete balance is counted
template <typename T, std::size_t N> json runStd(const json& s) {
    using V = fg::SmallVector<T, N>;
    std::vector<std::unique_ptr<V>> keep;
    V a, b;
    json obs = json::array();
    liveObjs.clear(); lifetimeErr = 0;
    for (auto& op : s["ops"]) {
        std::string n = op["op"]; V& x = op["x"] == "a" ? a : b; V& y = op["x"] == "a" ? b : a;
        std::size_t k = op["n"]; int v = op["v"];
        if (n == "push") x.emplace_back(v); else if (n == "pushfront") x.emplace_back(x.front()); else if (n == "pushback") x.emplace_back(x.back());
        else if (n == "resize") x.resize(k); else if (n == "resizev") x.resize(k, T(v)); else if (n == "resizeself") x.resize(k, x.front());
        else if (n == "reserve") x.reserve(k); else if (n == "shrink") x.shrink_to_fit(); else if (n == "clear") x.clear();
        else if (n == "assign") x.assign(k, T(v)); else if (n == "set" || n == "setat") x[k - 1] = T(v);
        else if (n == "assignl") { x.clear(); for (std::size_t i = 1; i <= k; ++i) x.emplace_back(int(v + i)); }
        else if (n == "copyassign") x = static_cast<const V&>(y); else if (n == "moveassign") x = std::move(y);
        else if (n == "copyctor") { V t(static_cast<const V&>(y)); x = std::move(t); }
        else if (n == "movector") { V t(std::move(y)); x = std::move(t); }
        else if (n == "swap") std::swap(x, y);
        else if (n == "ctor") x = V(); else if (n == "ctorn") x = V(k); else if (n == "ctornv") x = V(k, T(v));
        else if (n == "ctorl") { V t; for (std::size_t i = 1; i <= k; ++i) t.emplace_back(int(v + i)); x = t; }
        obs.push_back({{"a", content(a)}, {"b", content(b)}});
    }
    return {{"obs", obs}};
}

template <typename T> json runStatic(const json& s) {
    using V = fg::StaticVector<T>;
    std::unique_ptr<V> obj[2] = {std::make_unique<V>(0), std::make_unique<V>(0)};
    liveObjs.clear(); lifetimeErr = 0;
    json obs = json::array();
    for (auto& op : s["ops"]) {
        std::string n = op["op"]; int xi = op["x"] == "a" ? 0 : 1;
        std::size_t k = op["n"]; int v = op["v"];
        json ret = json::array();
        if (n == "ctorn") { obj[xi] = std::make_unique<V>(k); for (auto& e : *obj[xi]) e = T(0); }
        else if (n == "ctornv") obj[xi] = std::make_unique<V>(k, T(v));
        else if (n == "fromvec") { std::vector<T> t; for (std::size_t i = 1; i <= k; ++i) t.push_back(T(int(v + i))); obj[xi] = std::make_unique<V>(V::fromVector(t)); }
        else if (n == "copyctor") obj[xi] = std::make_unique<V>(static_cast<const V&>(*obj[1 - xi]));
        else if (n == "movector") obj[xi] = std::make_unique<V>(std::move(*obj[1 - xi]));
        else if (n == "moveassign") *obj[xi] = std::move(*obj[1 - xi]);
        else if (n == "set") (*obj[xi])[k - 1] = T(v);
        else if (n == "eq") {
            ret.push_back(*obj[0] == *obj[1] ? 1 : 0);
            std::vector<T> t; for (auto& e : *obj[1 - xi]) t.push_back(e);
            ret.push_back(*obj[xi] == t ? 1 : 0);
        }
        else if (n == "read") { const V& c = *obj[xi]; ret = {c.empty() ? 1 : 0, c.size(), c.size_bytes() == c.size() * sizeof(T) ? 1 : 0, std::size_t(c.end() - c.begin())}; }
        else vh::internal("unknown op " + n);
        obs.push_back({{"a", content(*obj[0])}, {"b", content(*obj[1])}, {"ret", ret}, {"err", lifetimeErr}});
    }
    obj[0].reset(); obj[1].reset();
    return {{"obs", obs}, {"end", {{"live", liveObjs.size()}, {"err", lifetimeErr}, {"mem", 0}}}};
}
// StaticVector compares elements with ==
static bool operator==(const Plain& a, const Plain& b) { return a.v == b.v; }
static bool operator==(const CopyOnly& a, const CopyOnly& b) { return a.get() == b.get(); }

int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        std::string t = s["t"];
        if (t == "plain") return runT<Plain, 2, true>(s, false);
        if (t == "plain2") return runT<Plain, 2, true>(s, true);
        if (t == "tracked") return runT<Tracked<true>, 2, true>(s, false);
        if (t == "tracked2") return runT<Tracked<true>, 2, true>(s, true);
        if (t == "copyonly") return runT<CopyOnly, 2, true>(s, false);
        if (t == "moveonly") return runT<MoveOnly, 2, false>(s, true);
        if (t == "std") return runStd<Tracked<true>, 2>(s);
        if (t == "static") return runStatic<Plain>(s);
        if (t == "staticobj") return runStatic<CopyOnly>(s);
        vh::internal("type");
    });
}
