// Loads one document under several parser configurations and dumps the resulting assets.
#include "dump.hpp"
#include <simdjson.h>
#include <sstream>
namespace fg = fastgltf;
using namespace vh;

static fg::Options options(const json& a) {
    auto o = fg::Options::None;
    for (auto& x : a) {
        if (x == "AllowDouble") o |= fg::Options::AllowDouble;
        else if (x == "DontRequireValidAssetMember") o |= fg::Options::DontRequireValidAssetMember;
        else if (x == "LoadExternalBuffers") o |= fg::Options::LoadExternalBuffers;
        else if (x == "LoadExternalImages") o |= fg::Options::LoadExternalImages;
        else if (x == "DecomposeNodeMatrices") o |= fg::Options::DecomposeNodeMatrices;
        else if (x == "GenerateMeshIndices") o |= fg::Options::GenerateMeshIndices;
        else internal("option " + x.dump());
    }
    return o;
}

static json load(const std::string& text, const json& l) {
    json r;
    fg::Parser parser(extensions(l["x"]));
    json calls = json::array();
    if (l.value("extras", false)) {
        parser.setUserPointer(&calls);
        parser.setExtrasParseCallback([](simdjson::dom::object* extras, std::size_t index, fg::Category category, void* user) {
            std::ostringstream text;
            text << simdjson::minify<simdjson::dom::object>(*extras);
            static_cast<json*>(user)->push_back(json::array({category_name(category), u(index), text.str()}));
        });
    }
    auto buf = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(text.data()), text.size());
    if (buf.error() != fg::Error::None) return {{"error", err(buf.error())}};
    auto asset = parser.loadGltfJson(buf.get(), scratch, options(l.value("opts", json::array())), category(l.value("cats", json::array({"All"}))));
    r["error"] = err(asset.error());
    r["has"] = static_cast<bool>(asset);
    if (asset.error() == fg::Error::None && !l.value("quiet", false)) r["asset"] = dump(asset.get());
    if (asset.error() == fg::Error::None && l.value("post", false)) {
        r["validate"] = err(fg::validate(asset.get()));
        fg::Exporter exporter;
        auto j = exporter.writeGltfJson(asset.get(), fg::ExportOptions::PrettyPrintJson);
        auto b = exporter.writeGltfBinary(asset.get(), fg::ExportOptions::None);
        auto v = exporter.writeGltfJson(asset.get(), fg::ExportOptions::ValidateAsset);
        r["export"] = {err(j.error()), err(b.error()), err(v.error())};
    }
    if (l.contains("extras")) r["calls"] = calls;
    return r;
}

int main(int argc, char** argv) {
    return run(argc, argv, [](const json& s) -> json {
        json r = json::array();
        std::vector<std::string> texts;
        for (auto& t : s["texts"]) texts.push_back(t.get<std::string>());
        for (auto& l : s["loads"]) r.push_back(load(texts.at(l.value("text", 0)), l));
        return {{"loads", r}};
    });
}
