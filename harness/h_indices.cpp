// Loads documents with and without index generation and records the indices that were generated.
#include "dump.hpp"
#include <fastgltf/tools.hpp>
namespace fg = fastgltf;
using namespace vh;

// indices of one accessor as runs of consecutive numbers
static json indices(const fg::Asset& asset, std::size_t i) {
    json o = json::object(), runs = json::array();
    if (i >= asset.accessors.size()) return {{"bad", "no accessor " + std::to_string(i)}};
    auto& a = asset.accessors[i];
    if (!a.bufferViewIndex.has_value() || *a.bufferViewIndex >= asset.bufferViews.size()) return {{"bad", "accessor without buffer view"}};
    auto& v = asset.bufferViews[*a.bufferViewIndex];
    if (v.bufferIndex >= asset.buffers.size()) return {{"bad", "buffer view without buffer"}};
    auto& b = asset.buffers[v.bufferIndex];
    auto size = fg::getElementByteSize(a.type, a.componentType);
    if (a.type != fg::AccessorType::Scalar || a.normalized || a.sparse || v.byteStride.has_value()) return {{"bad", "not an accessor for indices"}};
    if (a.byteOffset + a.count * size > v.byteLength || v.byteOffset + v.byteLength > b.byteLength) return {{"bad", "the indices exceed their buffer view or buffer"}};
    auto* bytes = std::get_if<fg::sources::Array>(&b.data);
    auto* vec = std::get_if<fg::sources::Vector>(&b.data);
    auto* bv = std::get_if<fg::sources::ByteView>(&b.data);
    std::size_t n = bytes ? bytes->bytes.size() : vec ? vec->bytes.size() : bv ? bv->bytes.size() : 0;
    if (n < b.byteLength) return {{"bad", "the buffer is " + std::to_string(n) + " bytes long, not " + std::to_string(b.byteLength)}};
    if ((a.byteOffset + v.byteOffset) % size) return {{"bad", "misaligned"}};
    o["ct"] = a.componentType == fg::ComponentType::UnsignedByte ? "u8" : a.componentType == fg::ComponentType::UnsignedShort ? "u16" : a.componentType == fg::ComponentType::UnsignedInt ? "u32" : "?";
    std::size_t start = 0, len = 0, k = 0;
    bool same = true;
    fg::iterateAccessor<std::uint32_t>(asset, a, [&](std::uint32_t x) {
        if (len && x == start + len) ++len;
        else { if (len && runs.size() < 200) runs.push_back({start, len}); start = x; len = 1; }
        if (k % 97 == 0 && fg::getAccessorElement<std::uint32_t>(asset, a, k) != x) same = false;
        ++k;
    });
    if (len && runs.size() < 200) runs.push_back({start, len});
    if (!same || k != a.count) return {{"bad", "reading the indices in different ways gives different values"}};
    o["runs"] = runs;
    return o;
}
static json first_diff(const json& a, const json& b, const std::string& path) {
    if (a == b) return nullptr;
    if (a.type() == b.type() && a.is_structured() && a.size() == b.size()) {
        if (a.is_object()) { for (auto& [k, v] : a.items()) if (b.contains(k) && b[k] != v) return first_diff(v, b[k], path + "/" + k); }
        else for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return first_diff(a[i], b[i], path + "/" + std::to_string(i));
    }
    return path + ": " + b.dump().substr(0, 100) + ", without the option " + a.dump().substr(0, 100);
}
static fg::Options opts(const json& a) {
    auto o = fg::Options::None;
    for (auto& x : a) {
        if (x == "LoadExternalBuffers") o |= fg::Options::LoadExternalBuffers;
        else if (x == "DecomposeNodeMatrices") o |= fg::Options::DecomposeNodeMatrices;
        else internal("option");
    }
    return o;
}
static json one(const json& s) {
    std::string text = s["text"];
    std::vector<std::byte> glb;
    if (s["glb"]) {
        auto put = [&](std::uint32_t x) { for (int i = 0; i < 4; ++i) glb.push_back(std::byte(x >> (8 * i))); };
        while (text.size() % 4) text.push_back(' ');
        put(0x46546C67); put(2); put(12 + 8 + text.size() + 8 + 8); put(text.size()); put(0x4E4F534A);
        for (char c : text) glb.push_back(std::byte(c));
        put(8); put(0x004E4942); put(1); put(2);
    } else for (char c : text) glb.push_back(std::byte(c));
    auto load = [&](bool gen) {
        fg::Parser parser(extensions(s["x"]));
        auto buf = fg::GltfDataBuffer::FromBytes(glb.data(), glb.size());
        if (buf.error() != fg::Error::None) internal("buffer");
        auto o = opts(s["opts"]);
        if (gen) o |= fg::Options::GenerateMeshIndices;
        return parser.loadGltf(buf.get(), scratch, o, category(s["cats"]));
    };
    json r = json::object();
    auto base = load(false), gen = load(true);
    r["base"] = err(base.error());
    r["gen"] = err(gen.error());
    if (base.error() != fg::Error::None || gen.error() != fg::Error::None) return r;
    auto &a = base.get(), &g = gen.get();
    r["validate"] = {err(fg::validate(a)), err(fg::validate(g))};
    json prims = json::array();
    std::size_t small = 0;
    for (std::size_t m = 0; m < g.meshes.size(); ++m)
        for (std::size_t p = 0; p < g.meshes[m].primitives.size(); ++p) {
            auto& x = g.meshes[m].primitives[p];
            bool had = m < a.meshes.size() && p < a.meshes[m].primitives.size() && a.meshes[m].primitives[p].indicesAccessor.has_value();
            if (had) prims.push_back({{"kept", x.indicesAccessor == a.meshes[m].primitives[p].indicesAccessor}});
            else if (!x.indicesAccessor.has_value()) prims.push_back({{"bad", "no indices"}});
            else { prims.push_back(indices(g, *x.indicesAccessor)); small += g.accessors.size() > *x.indicesAccessor ? g.accessors[*x.indicesAccessor].count : 0; }
        }
    r["prims"] = prims;
    // written and loaded again the indices are the same
    if (small < 2000 && !prims.empty() && s["write"] != false) {
        json again = json::array();
        fg::FileExporter exporter;
        auto path = std::filesystem::path(scratch) / "out.gltf";
        if (auto e = s["write"] == "glb" ? exporter.writeGltfBinary(g, path) : exporter.writeGltfJson(g, path); e != fg::Error::None) again = "export fails: " + std::string(err(e));
        else {
            fg::Parser parser(extensions(s["x"]));
            auto buf = fg::GltfDataBuffer::FromPath(path);
            if (buf.error() != fg::Error::None) internal("no file");
            auto l = parser.loadGltf(buf.get(), scratch, fg::Options::LoadExternalBuffers, fg::Category::All);
            if (l.error() != fg::Error::None) again = "load fails: " + std::string(err(l.error()));
            else for (auto& m : l->meshes) for (auto& p : m.primitives) again.push_back(p.indicesAccessor.has_value() ? indices(l.get(), *p.indicesAccessor) : json{{"bad", "no indices"}});
        }
        r["again"] = again;
        for (auto& f : std::filesystem::directory_iterator(scratch)) std::filesystem::remove(f.path());
    }
    // without what was added the asset is the one without the option
    auto cut = [](auto& list, std::size_t n) { while (list.size() > n) list.pop_back(); };
    if (g.accessors.size() < a.accessors.size() || g.bufferViews.size() < a.bufferViews.size() || g.buffers.size() < a.buffers.size()) { r["rest"] = "entries are missing"; return r; }
    r["added"] = {g.accessors.size() - a.accessors.size(), g.bufferViews.size() - a.bufferViews.size(), g.buffers.size() - a.buffers.size()};
    cut(g.accessors, a.accessors.size()); cut(g.bufferViews, a.bufferViews.size()); cut(g.buffers, a.buffers.size());
    for (std::size_t m = 0; m < g.meshes.size(); ++m)
        for (std::size_t p = 0; p < g.meshes[m].primitives.size(); ++p)
            if (m < a.meshes.size() && p < a.meshes[m].primitives.size() && !a.meshes[m].primitives[p].indicesAccessor.has_value()) g.meshes[m].primitives[p].indicesAccessor.reset();
    r["rest"] = first_diff(dump(a), dump(g), "");
    return r;
}
int main(int argc, char** argv) { return run(argc, argv, one); }
