#include "common.hpp"
#include <fastgltf/types.hpp>
#include <cstring>
#include <memory>
namespace fg = fastgltf;
template <typename U> json comps(const U& u) {
    auto s = [](std::string_view v) { return std::string(v); };
    json j;
    j["string"] = s(u.string()); j["scheme"] = s(u.scheme()); j["userinfo"] = s(u.userinfo()); j["host"] = s(u.host()); j["port"] = s(u.port());
    j["path"] = s(u.path()); j["query"] = s(u.query()); j["fragment"] = s(u.fragment());
    j["valid"] = u.valid(); j["data"] = u.isDataUri(); j["local"] = u.isLocalPath();
    j["fspath"] = u.fspath().string();
    return j;
}
// text whose memory is scribbled over and freed afterwards
struct Temp {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Temp(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    ~Temp() { std::memset(p.get(), '#', n); }
    std::string_view sv() const { return {p.get(), n}; }
};
static json texts(const json& s) {
    std::string t = s["text"];
    Temp tmp(t);
    json r = json::array();
    fg::URI a{tmp.sv()};
    fg::URI b{std::string(t)};
    fg::URIView v{tmp.sv()};
    fg::URI c{v};
    json ja = comps(a), jb = comps(b), jc = comps(c);
    return {{"uri", ja}, {"same", ja == jb && ja == jc}, {"view", comps(v)}, {"cstr", std::string(a.c_str()) == std::string(a.string()).c_str()}};
}
static json objs(const json& s) {
    std::unique_ptr<fg::URI> o[2] = {std::make_unique<fg::URI>(), std::make_unique<fg::URI>()};
    auto w = std::make_unique<fg::URIView>();
    json obs = json::array();
    const json& T = s["texts"];
    std::vector<std::unique_ptr<Temp>> keep;  // what w refers to
    for (auto& op : s["ops"]) {
        std::string n = op["op"]; int i = op["i"]; int xi = op["x"] == "v" ? 1 : 0;
        auto& x = o[xi]; auto& y = o[1 - xi];
        std::string t = i > 0 ? T[i - 1].get<std::string>() : "";
        Temp tmp(t);
        if (n == "ctorstr") x = std::make_unique<fg::URI>(std::string(t));
        else if (n == "ctorsv") x = std::make_unique<fg::URI>(tmp.sv());
        else if (n == "ctorview") x = std::make_unique<fg::URI>(fg::URIView(tmp.sv()));
        else if (n == "assignview") *x = fg::URIView(tmp.sv());
        else if (n == "ctor") x = std::make_unique<fg::URI>();
        else if (n == "copyctor") x = std::make_unique<fg::URI>(*y);
        else if (n == "copyassign") *x = *y;
        else if (n == "movector") x = std::make_unique<fg::URI>(std::move(*y));
        else if (n == "moveassign") *x = std::move(*y);
        else if (n == "selfassign") { auto& z = *x; *x = z; }
        else if (n == "swap") std::swap(*o[0], *o[1]);
        else if (n == "grow") {  // elements of a growing vector are relocated
            std::vector<fg::URI> vec; vec.push_back(*x); for (int k = 0; k < 5; ++k) vec.emplace_back(*y);
            vec.insert(vec.begin(), fg::URI(std::string_view("q:/z")));
            fg::URI z = std::move(vec[1]); vec.clear(); *x = z;
        }
        else {
            keep.push_back(std::make_unique<Temp>(t));
            auto sv = keep.back()->sv();
            if (n == "viewctor") w = std::make_unique<fg::URIView>(sv);
            else if (n == "viewassign") *w = sv;
            else if (n == "viewcopyassign") { fg::URIView q(sv); *w = q; }
            else if (n == "viewcopyctor") { fg::URIView q(sv); w = std::make_unique<fg::URIView>(q); }
            else vh::internal("unknown op " + n);
        }
        json r = {{"u", comps(*o[0])}, {"v", comps(*o[1])}, {"w", comps(*w)}};
        // a URI's components lie within its own string
        for (auto& p : o) {
            auto str = p->string();
            for (auto c : {p->scheme(), p->userinfo(), p->host(), p->port(), p->path(), p->query(), p->fragment()})
                if (!c.empty() && (c.data() < str.data() || c.data() + c.size() > str.data() + str.size())) r["outside"] = true;
        }
        obs.push_back(r);
    }
    return {{"obs", obs}};
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) { return s.contains("ops") ? objs(s) : texts(s); });
}
