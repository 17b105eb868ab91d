// Traverses scenes with iterateSceneNodes and records the calls of the callback.
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "common.hpp"
namespace fg = fastgltf;

static json mat(const fg::math::fmat4x4& m) {
    json o = json::array();
    for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) o.push_back(vh::num(m[c][r]));
    return o;
}
static fg::math::fmat4x4 matOf(const json& j) {
    fg::math::fmat4x4 m;
    for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) m[c][r] = float(double(j[c][r]));
    return m;
}
static json walk(fg::Asset& asset, const json& s) {
    json r = json::object();
    std::size_t which = std::size_t(s["which"]) - 1;
    auto initial = matOf(s["initial"]);
    json l = json::array();
    fg::iterateSceneNodes(asset, which, initial, [&](fg::Node& n, const fg::math::fmat4x4& m) { l.push_back({{"node", &n - asset.nodes.data() + 1}, {"m", mat(m)}}); });
    r["walk"] = l;
    l = json::array();
    const fg::Asset& fixed = asset;
    auto f = [&](const fg::Node& n, fg::math::fmat4x4 m) { l.push_back({{"node", &n - fixed.nodes.data() + 1}, {"m", mat(m)}}); };
    fg::iterateSceneNodes(fixed, which, initial, f);
    r["const"] = l;
    json loc = json::array(), t = json::array(), t0 = json::array();
    for (auto& n : asset.nodes) {
        loc.push_back(mat(fg::getLocalTransformMatrix(n)));
        t.push_back(mat(fg::getTransformMatrix(n, initial)));
        t0.push_back(mat(fg::getTransformMatrix(n)));
    }
    r["local"] = loc;
    r["based"] = t;
    r["unbased"] = t0;
    return r;
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        fg::Asset asset;
        for (auto& d : s["nodes"]) {
            auto& n = asset.nodes.emplace_back();
            for (auto& c : d["ch"]) n.children.emplace_back(std::size_t(c) - 1);
            if (d["k"] == "matrix") n.transform = matOf(d["m"]);
            else {
                fg::TRS trs;
                for (int i = 0; i < 3; ++i) { trs.translation[i] = float(double(d["t"][i])); trs.scale[i] = float(double(d["s"][i])); }
                double l = 0;
                for (int i = 0; i < 4; ++i) l += double(d["q"][i]) * double(d["q"][i]);
                for (int i = 0; i < 4; ++i) trs.rotation[i] = float(double(d["q"][i]) / std::sqrt(l));
                n.transform = trs;
            }
        }
        for (auto& d : s["scenes"]) {
            auto& sc = asset.scenes.emplace_back();
            for (auto& c : d) sc.nodeIndices.emplace_back(std::size_t(c) - 1);
        }
        json r = {{"built", walk(asset, s)}};
        fg::Parser parser;
        std::string text = s["text"];
        auto buf = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(text.data()), text.size());
        if (buf.error() != fg::Error::None) vh::internal("buffer");
        auto loaded = parser.loadGltfJson(buf.get(), vh::scratch, fg::Options::None, fg::Category::All);
        if (loaded.error() != fg::Error::None) { r["error"] = std::string(fg::getErrorName(loaded.error())); return r; }
        r["loaded"] = walk(loaded.get(), s);
        return r;
    });
}
