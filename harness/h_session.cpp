// Runs histories of parser, data source, asset and exporter operations.
#include "dump.hpp"
#include <simdjson.h>
#include <filesystem>
#include <map>
#include <memory>
#include <sstream>
#include <sys/stat.h>
namespace fg = fastgltf;
namespace fs = std::filesystem;
using namespace vh;

static fg::Options options(const json& a) {
    auto o = fg::Options::None;
    for (auto& x : a) {
        if (x == "AllowDouble") o |= fg::Options::AllowDouble;
        else if (x == "DontRequireValidAssetMember") o |= fg::Options::DontRequireValidAssetMember;
        else if (x == "LoadExternalBuffers") o |= fg::Options::LoadExternalBuffers;
        else if (x == "LoadExternalImages") o |= fg::Options::LoadExternalImages;
        else if (x == "DecomposeNodeMatrices") o |= fg::Options::DecomposeNodeMatrices;
        else if (x == "GenerateMeshIndices") o |= fg::Options::GenerateMeshIndices;
        else internal("option " + x.dump());
    }
    return o;
}

// what a parser's callbacks saw during one load
struct Mapping { unsigned char* p; std::size_t size; std::uint64_t id; bool mapped = true; std::string content; };
struct Context {
    std::string mode = "none";
    json log = json::array();
    json extras = json::array();
    std::vector<Mapping> maps;
    std::string magic = "context";
    std::uint64_t next = 0;
    bool ok() const { return magic == "context"; }
};
static std::uint64_t ids = 100;
static fg::BufferInfo on_map(std::uint64_t size, void* user) {
    auto* c = static_cast<Context*>(user);
    if (!c || !c->ok()) internal("map: wrong user pointer");
    bool give = c->mode == "alloc" || (c->mode == "alternate" && c->next++ % 2 == 0);
    if (!give) { c->log.push_back({"map", size, nullptr}); return {}; }
    if (size > (1u << 28)) { c->log.push_back({"map", size, "huge"}); return {}; }
    Mapping m;
    m.size = size;
    m.p = static_cast<unsigned char*>(std::malloc(size ? size : 1));
    std::memset(m.p, 0xA5, size);
    m.id = ids++;
    c->maps.push_back(m);
    c->log.push_back({"map", size, m.id});
    return {m.p, m.id};
}
static void on_unmap(fg::BufferInfo* info, void* user) {
    auto* c = static_cast<Context*>(user);
    if (!c || !c->ok()) internal("unmap: wrong user pointer");
    json e = {"unmap", info->customId};
    for (auto& m : c->maps)
        if (m.id == info->customId) {
            if (m.p != info->mappedMemory) e.push_back("other memory");
            if (!m.mapped) e.push_back("again");
            m.mapped = false;
            m.content = hex(m.p, m.size);
        }
    c->log.push_back(e);
}
static void on_decode(std::string_view text, std::uint8_t* out, std::size_t padding, std::size_t size, void* user) {
    auto* c = static_cast<Context*>(user);
    if (!c || !c->ok()) internal("decode: wrong user pointer");
    json where = nullptr;
    for (auto& m : c->maps) if (m.p == out && m.mapped) where = m.id;
    c->log.push_back({"decode", std::string(text), padding, size, where});
    // an independent decoder, so that what it writes can be told from what the library writes
    std::string v = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::size_t bits = 0, n = 0; std::uint32_t acc = 0;
    for (char ch : text) {
        if (ch == '=') break;
        acc = (acc << 6) | static_cast<std::uint32_t>(v.find(ch)); bits += 6;
        if (bits >= 8) { bits -= 8; if (n < size) out[n] = static_cast<std::uint8_t>(acc >> bits); ++n; }
    }
}
static void on_extras(simdjson::dom::object* extras, std::size_t index, fg::Category category, void* user) {
    auto* c = static_cast<Context*>(user);
    if (!c || !c->ok()) internal("extras: wrong user pointer");
    std::ostringstream text;
    text << simdjson::minify<simdjson::dom::object>(*extras);
    c->extras.push_back(json::array({category_name(category), u(index), text.str()}));
}

struct ParserBox { std::unique_ptr<fg::Parser> p; std::shared_ptr<Context> c; };
struct ExporterBox { std::unique_ptr<fg::Exporter> e; std::unique_ptr<fg::FileExporter> f; json extras = json::object(); json asked = json::array(); };
static std::optional<std::string> on_write_extras(std::size_t index, fg::Category category, void* user) {
    auto* b = static_cast<ExporterBox*>(user);
    std::string k = std::string(category_name(category)) + "/" + std::to_string(index);
    b->asked.push_back(k);
    if (b->extras.contains(k)) return b->extras[k].get<std::string>();
    return std::nullopt;
}
struct SourceBox {
    std::string kind;
    std::unique_ptr<fg::GltfDataGetter> g;
    fg::Error error = fg::Error::None;
};

struct Session {
    std::map<int, ParserBox> parsers;
    std::map<int, SourceBox> sources;
    std::map<int, std::unique_ptr<fg::Asset>> assets;
    std::map<int, std::unique_ptr<ExporterBox>> exporters;
    std::vector<std::vector<std::byte>> blobs;
    std::vector<std::vector<std::byte>> keep;      // bytes referred to by ByteViews
    fs::path dir;
    json results = json::array();

    fs::path path(const std::string& s) const { return dir / fs::u8path(s); }
    static void write(const fs::path& p, const std::vector<std::byte>& d) {
        fs::create_directories(p.parent_path());
        std::ofstream o(p, std::ios::binary);
        o.write(reinterpret_cast<const char*>(d.data()), static_cast<std::streamsize>(d.size()));
    }
    json tree() const {
        json r = json::object();
        for (auto& e : fs::recursive_directory_iterator(dir)) {
            if (!e.is_regular_file()) continue;
            std::ifstream f(e.path(), std::ios::binary);
            std::string d((std::istreambuf_iterator<char>(f)), {});
            r[fs::relative(e.path(), dir).generic_string()] = hex(d.data(), d.size());
        }
        return r;
    }
    const std::vector<std::byte>& blob(const json& o) { return blobs.at(o["blob"].get<std::size_t>()); }

    json source(const json& o) {
        SourceBox b;
        b.kind = o["kind"];
        std::vector<std::byte> d;
        auto p = path("in" + std::to_string(o["s"].get<int>()) + ".bin");
        if (o.contains("path")) {
            p = path(o["path"].get<std::string>());
            std::error_code ec;
            if (!fs::is_regular_file(p, ec)) { b.error = fg::Error::InvalidPath; sources[o["s"].get<int>()] = std::move(b); return {{"error", "no file"}}; }
            std::ifstream f(p, std::ios::binary);
            std::string t((std::istreambuf_iterator<char>(f)), {});
            for (char c : t) d.push_back(static_cast<std::byte>(c));
        } else {
            if (blobs.size() <= o["blob"].get<std::size_t>()) { b.error = fg::Error::InvalidPath; sources[o["s"].get<int>()] = std::move(b); return {{"error", "no blob"}}; }
            d = blob(o);
            if (b.kind != "bytes") write(p, d);
        }
        if (b.kind == "bytes") {
            auto e = fg::GltfDataBuffer::FromBytes(d.data(), d.size());
            b.error = e.error();
            if (b.error == fg::Error::None) b.g = std::make_unique<fg::GltfDataBuffer>(std::move(e.get()));
        } else if (b.kind == "file") {
            auto e = fg::GltfDataBuffer::FromPath(p);
            b.error = e.error();
            if (b.error == fg::Error::None) b.g = std::make_unique<fg::GltfDataBuffer>(std::move(e.get()));
        } else if (b.kind == "mmap") {
            auto e = fg::MappedGltfFile::FromPath(p);
            b.error = e.error();
            if (b.error == fg::Error::None) b.g = std::make_unique<fg::MappedGltfFile>(std::move(e.get()));
        } else if (b.kind == "stream") {
            auto s = std::make_unique<fg::GltfFileStream>(p);
            if (!s->isOpen()) b.error = fg::Error::InvalidPath;
            else b.g = std::move(s);
        } else internal("source kind " + b.kind);
        auto e = b.error;
        json r = {{"error", err(e)}, {"size", b.g ? json(u(b.g->totalSize())) : json(nullptr)}};
        sources[o["s"].get<int>()] = std::move(b);
        return r;
    }
    json load(const json& o) {
        auto& pb = parsers.at(o["p"].get<int>());
        auto& sb = sources.at(o["s"].get<int>());
        if (!sb.g) return {{"error", err(sb.error)}, {"has", false}};
        auto& c = *pb.c;
        c.log = json::array();
        c.extras = json::array();
        c.maps.clear();
        c.next = 0;
        auto opts = options(o.value("opts", json::array()));
        auto cats = category(o.value("cats", json::array({"All"})));
        auto d = o.contains("at") ? path(o["at"].get<std::string>()) : o.value("dir", "ok") == "ok" ? path("ext") : path("missing-directory");
        std::string entry = o.value("entry", "auto");
        auto r = entry == "auto" ? pb.p->loadGltf(*sb.g, d, opts, cats) : entry == "json" ? pb.p->loadGltfJson(*sb.g, d, opts, cats) : pb.p->loadGltfBinary(*sb.g, d, opts, cats);
        json res = {{"error", err(r.error())}, {"has", static_cast<bool>(r)}, {"log", c.log}, {"extras", c.extras}};
        json maps = json::object();
        for (auto& m : c.maps) {
            json e = {{"size", m.size}, {"content", hex(m.p, m.size)}, {"unmapped", !m.mapped}};
            if (!m.mapped && m.content != e["content"]) e["late"] = true;
            maps[std::to_string(m.id)] = e;
            std::free(m.p);
        }
        c.maps.clear();
        res["maps"] = maps;
        if (r.error() == fg::Error::None) {
            auto a = std::make_unique<fg::Asset>(std::move(r.get()));
            if (!o.value("quiet", false)) res["asset"] = dump(*a);
            assets[o["a"].get<int>()] = std::move(a);
        }
        return res;
    }
    static json paths(const std::vector<std::optional<fs::path>>& v) {
        json a = json::array();
        for (auto& p : v) a.push_back(p.has_value() ? json(p->generic_u8string()) : json(nullptr));
        return a;
    }
    json do_export(const json& o) {
        auto& x = *exporters.at(o["e"].get<int>());
        auto& a = *assets.at(o["a"].get<int>());
        auto eo = fg::ExportOptions::None;
        json eos = o.value("opts", json::array());
        for (auto& s : eos) {
            if (s == "ValidateAsset") eo |= fg::ExportOptions::ValidateAsset;
            else if (s == "PrettyPrintJson") eo |= fg::ExportOptions::PrettyPrintJson;
            else internal("export option");
        }
        x.asked = json::array();
        std::string before = o.value("same", false) ? dump(a).dump(-1, ' ', true, json::error_handler_t::replace) : "";
        std::string form = o["form"];
        json r;
        if (form == "json") {
            auto e = x.e->writeGltfJson(a, eo);
            r["error"] = err(e.error());
            r["has"] = static_cast<bool>(e);
            if (e.error() == fg::Error::None) {
                r["out"] = hex(e->output.data(), e->output.size());
                r["bufferPaths"] = paths(e->bufferPaths);
                r["imagePaths"] = paths(e->imagePaths);
                if (o.contains("blob")) set_blob(o["blob"], e->output.data(), e->output.size());
            }
        } else if (form == "glb") {
            auto e = x.e->writeGltfBinary(a, eo);
            r["error"] = err(e.error());
            r["has"] = static_cast<bool>(e);
            if (e.error() == fg::Error::None) {
                r["out"] = hex(e->output.data(), e->output.size());
                r["bufferPaths"] = paths(e->bufferPaths);
                r["imagePaths"] = paths(e->imagePaths);
                if (o.contains("blob")) set_blob(o["blob"], e->output.data(), e->output.size());
            }
        } else {
            auto target = path(o["target"].get<std::string>());
            if (o.value("relative", false)) fs::current_path(path(o.value("cwd", "")));
            if (o.value("relative", false)) target = fs::u8path(o["target"].get<std::string>());
            auto e = form == "file-json" ? x.f->writeGltfJson(a, target, eo) : x.f->writeGltfBinary(a, target, eo);
            if (o.value("relative", false)) fs::current_path(scratch);
            r["error"] = err(e);
            r["tree"] = tree();
        }
        if (o.value("same", false)) r["changed"] = before != dump(a).dump(-1, ' ', true, json::error_handler_t::replace);
        if (!x.asked.empty() || o.contains("asked")) r["asked"] = x.asked;
        return r;
    }
    void set_blob(const json& k, const void* p, std::size_t n) {
        std::size_t i = k.get<std::size_t>();
        if (blobs.size() <= i) blobs.resize(i + 1);
        auto* b = static_cast<const std::byte*>(p);
        blobs[i].assign(b, b + n);
    }
    json op(const json& o) {
        std::string k = o["op"];
        if (k == "parser") {
            ParserBox b;
            b.p = std::make_unique<fg::Parser>(extensions(o["x"]));
            b.c = std::make_shared<Context>();
            b.c->mode = o.value("map", "none");
            b.p->setUserPointer(b.c.get());
            configure(b, o);
            parsers[o["p"].get<int>()] = std::move(b);
            return "ok";
        }
        if (k == "configure") { auto& b = parsers.at(o["p"].get<int>()); b.c->mode = o.value("map", "none"); configure(b, o); return "ok"; }
        if (k == "movep") {
            auto& b = parsers.at(o["p"].get<int>());
            ParserBox n;
            n.c = b.c;
            if (parsers.count(o["q"].get<int>())) {
                n.p = std::move(parsers.at(o["q"].get<int>()).p);
                *n.p = std::move(*b.p);
            } else n.p = std::make_unique<fg::Parser>(std::move(*b.p));
            parsers.erase(o["p"].get<int>());
            parsers[o["q"].get<int>()] = std::move(n);
            return "ok";
        }
        if (k == "delp") { parsers.erase(o["p"].get<int>()); return "ok"; }
        if (k == "source") return source(o);
        if (k == "moves") {
            auto& b = sources.at(o["s"].get<int>());
            if (o.contains("t")) {     // into one that has another content
                auto& t = sources.at(o["t"].get<int>());
                if (!b.g || !t.g) return "nothing";
                if (auto* x = dynamic_cast<fg::GltfDataBuffer*>(b.g.get())) { dynamic_cast<fg::GltfDataBuffer&>(*t.g) = std::move(*x); b.g = std::move(t.g); }
                else if (auto* y = dynamic_cast<fg::MappedGltfFile*>(b.g.get())) { dynamic_cast<fg::MappedGltfFile&>(*t.g) = std::move(*y); b.g = std::move(t.g); }
                return "ok";
            }
            if (auto* x = dynamic_cast<fg::GltfDataBuffer*>(b.g.get())) b.g = std::make_unique<fg::GltfDataBuffer>(std::move(*x));
            else if (auto* y = dynamic_cast<fg::MappedGltfFile*>(b.g.get())) {
                fg::MappedGltfFile t;
                t = std::move(*y);
                b.g = std::make_unique<fg::MappedGltfFile>(std::move(t));
            }
            return "ok";
        }
        if (k == "dels") { sources.erase(o["s"].get<int>()); return "ok"; }
        if (k == "detect") {
            auto& b = sources.at(o["s"].get<int>());
            if (!b.g) return "no source";
            auto t = fg::determineGltfFileType(*b.g);
            return t == fg::GltfType::glTF ? "gltf" : t == fg::GltfType::GLB ? "glb" : "invalid";
        }
        if (k == "load") return load(o);
        if (k == "dump") return assets.count(o["a"].get<int>()) ? dump(*assets.at(o["a"].get<int>())) : json(nullptr);
        if ((k == "movea" || k == "validate" || k == "export" || k == "setdata" || k == "setname") && !assets.count(o["a"].get<int>())) return {{"error", "no asset"}, {"has", false}};
        if (k == "movea") {
            auto& a = assets.at(o["a"].get<int>());
            int b = o["b"].get<int>();
            if (assets.count(b)) *assets[b] = std::move(*a);
            else assets[b] = std::make_unique<fg::Asset>(std::move(*a));
            assets.erase(o["a"].get<int>());
            return "ok";
        }
        if (k == "dela") { assets.erase(o["a"].get<int>()); return "ok"; }
        if (k == "setdata") {
            auto& a = *assets.at(o["a"].get<int>());
            auto bytes = unhex(o["bytes"].get<std::string>());
            auto mt = fg::MimeType::None;
            for (auto m : {fg::MimeType::JPEG, fg::MimeType::PNG, fg::MimeType::KTX2, fg::MimeType::DDS, fg::MimeType::GltfBuffer, fg::MimeType::OctetStream, fg::MimeType::WEBP})
                if (o.value("mime", "") == mime(m).get<std::string>()) mt = m;
            fg::DataSource d;
            std::string as = o["as"];
            if (as == "vector") { fg::sources::Vector v; v.bytes.assign(bytes.begin(), bytes.end()); v.mimeType = mt; d = std::move(v); }
            else if (as == "array") { fg::sources::Array v{fg::StaticVector<std::byte>::fromVector(bytes), mt}; d = std::move(v); }
            else if (as == "view") { keep.push_back(bytes); fg::sources::ByteView v; v.bytes = fg::span<const std::byte>(keep.back().data(), keep.back().size()); v.mimeType = mt; d = std::move(v); }
            else if (as == "custom") { d = fg::sources::CustomBuffer{7, mt}; }
            else if (as == "none") { d = std::monostate{}; }
            else internal("setdata");
            if (o.contains("image")) a.images.at(o["image"].get<std::size_t>()).data = std::move(d);
            else a.buffers.at(o["buffer"].get<std::size_t>()).data = std::move(d);
            return "ok";
        }
        if (k == "setname") {
            auto& a = *assets.at(o["a"].get<int>());
            std::string n = o["name"];
            if (o.contains("image")) a.images.at(o["image"].get<std::size_t>()).name = n;
            else a.buffers.at(o["buffer"].get<std::size_t>()).name = n;
            return "ok";
        }
        if (k == "exporter") {
            auto b = std::make_unique<ExporterBox>();
            b->e = std::make_unique<fg::Exporter>();
            b->f = std::make_unique<fg::FileExporter>();
            for (fg::Exporter* e : {static_cast<fg::Exporter*>(b->e.get()), static_cast<fg::Exporter*>(b->f.get())}) {
                if (o.contains("buffers")) e->setBufferPath(fs::u8path(o["buffers"].get<std::string>()));
                if (o.contains("images")) e->setImagePath(fs::u8path(o["images"].get<std::string>()));
                if (o.contains("extras")) { e->setUserPointer(b.get()); e->setExtrasWriteCallback(on_write_extras); }
            }
            if (o.contains("extras")) b->extras = o["extras"];
            exporters[o["e"].get<int>()] = std::move(b);
            return "ok";
        }
        if (k == "change") {
            auto& b = *exporters.at(o["e"].get<int>());
            for (fg::Exporter* e : {static_cast<fg::Exporter*>(b.e.get()), static_cast<fg::Exporter*>(b.f.get())}) {
                if (o.contains("buffers")) e->setBufferPath(fs::u8path(o["buffers"].get<std::string>()));
                if (o.contains("images")) e->setImagePath(fs::u8path(o["images"].get<std::string>()));
                if (o.contains("extras")) { e->setUserPointer(o["extras"].is_null() ? nullptr : &b); e->setExtrasWriteCallback(o["extras"].is_null() ? nullptr : on_write_extras); }
            }
            b.extras = o.contains("extras") && !o["extras"].is_null() ? o["extras"] : json::object();
            return "ok";
        }
        if (k == "export") return do_export(o);
        if (k == "file") { write(path(o["name"].get<std::string>()), unhex(o["bytes"].get<std::string>())); return "ok"; }
        if (k == "mkdir") { fs::create_directories(path(o["name"].get<std::string>())); return "ok"; }
        if (k == "tree") return tree();
        if (k == "block") {   // a directory where an earlier export of the same asset put a file
            auto& e = results.at(o["of"].get<std::size_t>());
            auto& ps = e.contains(o["key"].get<std::string>()) ? e[o["key"].get<std::string>()] : e["nothing"];
            std::size_t i = o["i"].get<std::size_t>();
            if (!ps.is_array() || i >= ps.size() || !ps[i].is_string()) return "nothing";
            auto p = (path(o["base"].get<std::string>()) / fs::u8path(ps[i].get<std::string>())).lexically_normal();
            fs::create_directories(p / "x");
            return "ok";
        }
        if (k == "hurt") {    // put something in the way of the document, or of a file which an earlier export of the same asset named
            auto p = path(o["base"].get<std::string>());
            if (o.contains("of")) {
                auto& e = results.at(o["of"].get<std::size_t>());
                std::string key = o["key"];
                std::size_t i = o["i"];
                if (!e.contains(key) || i >= e[key].size() || !e[key][i].is_string()) return "nothing";
                p /= fs::u8path(e[key][i].get<std::string>());
            }
            p = p.lexically_normal();
            std::string mode = o["mode"];
            std::error_code ec;
            if (mode == "dir") fs::create_directories(p / "x", ec);
            else if (mode == "full") { fs::create_directories(p.parent_path(), ec); fs::create_symlink("/dev/full", p, ec); }
            else {
                p = p.parent_path();
                if (fs::exists(p, ec)) return "nothing";
                write(p, {std::byte{'f'}});
            }
            return ec ? json("nothing") : json("done");
        }
        if (k == "pretty") { auto b = unhex(o["text"].get<std::string>()); std::string t(reinterpret_cast<const char*>(b.data()), b.size()); fg::prettyPrintJson(t); return hex(t.data(), t.size()); }
        if (k == "escape") { auto b = unhex(o["text"].get<std::string>()); auto t = fg::escapeString(std::string_view(reinterpret_cast<const char*>(b.data()), b.size())); return hex(t.data(), t.size()); }
        if (k == "validate") return err(fg::validate(*assets.at(o["a"].get<int>())));
        internal("op " + k);
    }
    static void configure(ParserBox& b, const json& o) {
        if (o.value("map", "none") != "none") b.p->setBufferAllocationCallback(on_map, o.value("unmap", true) ? on_unmap : nullptr);
        else b.p->setBufferAllocationCallback(nullptr, nullptr);
        b.p->setBase64DecodeCallback(o.value("dec", false) ? on_decode : nullptr);
        b.p->setExtrasParseCallback(o.value("extras", false) ? on_extras : nullptr);
    }
};

int main(int argc, char** argv) {
    int n = 0;
    return run(argc, argv, [&](const json& s) -> json {
        Session x;
        x.keep.reserve(1000);
        x.dir = fs::path(scratch) / ("s" + std::to_string(n++));
        fs::create_directories(x.dir / "ext");
        json blobs = s.value("blobs", json::array());
        for (auto& b : blobs) x.blobs.push_back(unhex(b.get<std::string>()));
        json files = s.value("files", json::object());
        for (auto& [k, v] : files.items()) Session::write(x.dir / "ext" / fs::u8path(k), unhex(v.get<std::string>()));
        for (auto& o : s["ops"]) { auto e = x.op(o); x.results.push_back(std::move(e)); }
        json r = std::move(x.results);
        x = Session();
        fs::remove_all(fs::path(scratch) / ("s" + std::to_string(n - 1)));
        return {{"r", r}};
    });
}
