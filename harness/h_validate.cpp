// Builds assets from records of spec/Validate.tla, validates them and exports them with validation.
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/types.hpp>
#include "common.hpp"
#include "dump.hpp"
using namespace vh;
namespace fg = fastgltf;

using Opt = fg::Optional<std::size_t>;
static std::size_t at(const json& j) { return std::size_t(std::int64_t(j)); }
static void opt(Opt& o, const json& j) { if (std::int64_t(j) >= 0) o = at(j); }
template <typename L> void indices(L& l, const json& j) { for (auto& x : j) l.emplace_back(at(x)); }
template <typename L> void attrs(L& l, const json& j) {
    for (auto& x : j) {
        fg::Attribute a;
        a.name = std::string(x[0]);
        a.accessorIndex = at(x[1]);
        l.emplace_back(std::move(a));
    }
}
static void bound(std::optional<fg::AccessorBoundsArray>& b, const json& j) {
    if (std::int64_t(j["n"]) < 0) return;
    auto n = at(j["n"]);
    if (bool(j["dbl"])) {
        b = fg::AccessorBoundsArray::ForType<double>(n);
        for (std::size_t i = 0; i < n; ++i) b->set<double>(i, 0.5 + double(i));
    } else {
        b = fg::AccessorBoundsArray::ForType<std::int64_t>(n);
        for (std::size_t i = 0; i < n; ++i) b->set<std::int64_t>(i, std::int64_t(i));
    }
}
static fg::AccessorType type(const std::string& t) {
    if (t == "SCALAR") return fg::AccessorType::Scalar;
    if (t == "VEC2") return fg::AccessorType::Vec2;
    if (t == "VEC3") return fg::AccessorType::Vec3;
    if (t == "VEC4") return fg::AccessorType::Vec4;
    if (t == "MAT2") return fg::AccessorType::Mat2;
    if (t == "MAT3") return fg::AccessorType::Mat3;
    if (t == "MAT4") return fg::AccessorType::Mat4;
    return fg::AccessorType::Invalid;
}
static fg::ComponentType component(const std::string& t) {
    if (t == "s8") return fg::ComponentType::Byte;
    if (t == "u8") return fg::ComponentType::UnsignedByte;
    if (t == "s16") return fg::ComponentType::Short;
    if (t == "u16") return fg::ComponentType::UnsignedShort;
    if (t == "u32") return fg::ComponentType::UnsignedInt;
    if (t == "f32") return fg::ComponentType::Float;
    if (t == "f64") return fg::ComponentType::Double;
    return fg::ComponentType::Invalid;
}
static bool has(const json& o, const char* k) { return o.is_object() && o.contains(k); }
template <typename T> T& make(std::unique_ptr<T>& p) { if (!p) p = std::make_unique<T>(); return *p; }
static void material(fg::Material& m, const json& j) {
    for (auto& e : j["has"]) {
        std::string x = e;
        if (x == "KHR_materials_anisotropy") make(m.anisotropy);
        else if (x == "KHR_materials_clearcoat") make(m.clearcoat);
        else if (x == "KHR_materials_diffuse_transmission") make(m.diffuseTransmission);
        else if (x == "KHR_materials_iridescence") make(m.iridescence);
        else if (x == "KHR_materials_sheen") make(m.sheen);
        else if (x == "KHR_materials_specular") make(m.specular);
        else if (x == "KHR_materials_pbrSpecularGlossiness") make(m.specularGlossiness);
        else if (x == "KHR_materials_transmission") make(m.transmission);
        else if (x == "KHR_materials_volume") make(m.volume);
        else if (x == "MSFT_packing_occlusionRoughnessMetallic") make(m.packedOcclusionRoughnessMetallicTextures);
        else if (x == "MSFT_packing_normalRoughnessMetallic") { fg::TextureInfo t; t.textureIndex = 0; m.packedNormalMetallicRoughnessTexture = std::move(t); }
        else vh::internal("feature " + x);
    }
    auto slot = [&](const char* name, auto&& get) {
        if (!has(j["tex"], name)) return;
        auto& o = get();
        using T = std::decay_t<decltype(*o)>;
        T t;
        t.textureIndex = at(j["tex"][name]);
        o = std::move(t);
    };
    slot("normalTexture", [&]() -> auto& { return m.normalTexture; });
    slot("emissiveTexture", [&]() -> auto& { return m.emissiveTexture; });
    slot("occlusionTexture", [&]() -> auto& { return m.occlusionTexture; });
    slot("baseColorTexture", [&]() -> auto& { return m.pbrData.baseColorTexture; });
    slot("metallicRoughnessTexture", [&]() -> auto& { return m.pbrData.metallicRoughnessTexture; });
#define S(name, owner, member) slot(name, [&]() -> auto& { return make(m.owner).member; });
    S("anisotropyTexture", anisotropy, anisotropyTexture)
    S("clearcoatTexture", clearcoat, clearcoatTexture)
    S("clearcoatRoughnessTexture", clearcoat, clearcoatRoughnessTexture)
    S("clearcoatNormalTexture", clearcoat, clearcoatNormalTexture)
    S("diffuseTransmissionTexture", diffuseTransmission, diffuseTransmissionTexture)
    S("diffuseTransmissionColorTexture", diffuseTransmission, diffuseTransmissionColorTexture)
    S("iridescenceTexture", iridescence, iridescenceTexture)
    S("iridescenceThicknessTexture", iridescence, iridescenceThicknessTexture)
    S("sheenColorTexture", sheen, sheenColorTexture)
    S("sheenRoughnessTexture", sheen, sheenRoughnessTexture)
    S("specularTexture", specular, specularTexture)
    S("specularColorTexture", specular, specularColorTexture)
    S("diffuseTexture", specularGlossiness, diffuseTexture)
    S("specularGlossinessTexture", specularGlossiness, specularGlossinessTexture)
    S("transmissionTexture", transmission, transmissionTexture)
    S("thicknessTexture", volume, thicknessTexture)
    S("ormTexture", packedOcclusionRoughnessMetallicTextures, occlusionRoughnessMetallicTexture)
    S("rmoTexture", packedOcclusionRoughnessMetallicTextures, roughnessMetallicOcclusionTexture)
    S("ormNormalTexture", packedOcclusionRoughnessMetallicTextures, normalTexture)
#undef S
    slot("nrmTexture", [&]() -> auto& { return m.packedNormalMetallicRoughnessTexture; });
    if (bool(j["strong"])) m.emissiveStrength = 2.5f;
    if (bool(j["ior"])) m.ior = 1.25f;
}
static fg::num third(const json& j) { return fg::num(double(std::int64_t(j)) / 1000.0); }
static fg::math::nvec3 white() { fg::math::nvec3 v; for (std::size_t i = 0; i < 3; ++i) v[i] = 1; return v; }

static void build(fg::Asset& asset, const json& a) {
    for (auto& x : a["used"]) asset.extensionsUsed.emplace_back(std::string(x));
    for (auto& x : a["required"]) asset.extensionsRequired.emplace_back(std::string(x));
    for (auto& x : a["accessors"]) {
        auto& c = asset.accessors.emplace_back();
        c.type = type(x["t"]);
        c.componentType = component(x["ct"]);
        c.count = at(x["n"]);
        opt(c.bufferViewIndex, x["view"]);
        c.byteOffset = at(x["off"]);
        bound(c.max, x["max"]);
        bound(c.min, x["min"]);
        if (std::int64_t(x["iv"]) >= 0) {
            fg::SparseAccessor s;
            s.count = 1;
            s.indicesBufferView = at(x["iv"]);
            s.valuesBufferView = at(x["vv"]);
            s.indexComponentType = fg::ComponentType::UnsignedByte;
            c.sparse = s;
        }
    }
    for (auto& x : a["views"]) {
        auto& v = asset.bufferViews.emplace_back();
        v.bufferIndex = at(x["buf"]);
        v.byteOffset = at(x["off"]);
        v.byteLength = at(x["len"]);
        opt(v.byteStride, x["stride"]);
        if (std::int64_t(x["target"]) >= 0) v.target = static_cast<fg::BufferTarget>(at(x["target"]));
        for (auto& m : x["mo"]) {
            auto& c = make(v.meshoptCompression);
            c.bufferIndex = at(m["buf"]);
            c.byteOffset = 0;
            c.byteLength = 8;
            c.count = at(m["count"]);
            c.byteStride = at(m["stride"]);
            c.filter = fg::MeshoptCompressionFilter::None;
            c.mode = m["mode"] == "ATTRIBUTES" ? fg::MeshoptCompressionMode::Attributes : m["mode"] == "TRIANGLES" ? fg::MeshoptCompressionMode::Triangles : fg::MeshoptCompressionMode::Indices;
        }
    }
    for (auto& x : a["buffers"]) {
        auto& b = asset.buffers.emplace_back();
        b.byteLength = at(x["len"]);
        fg::sources::Vector v;
        v.bytes.resize(b.byteLength);
        v.mimeType = fg::MimeType::GltfBuffer;
        b.data = std::move(v);
    }
    for (auto& x : a["animations"]) {
        auto& n = asset.animations.emplace_back();
        for (auto& y : x["channels"]) {
            auto& c = n.channels.emplace_back();
            c.samplerIndex = at(y["sampler"]);
            opt(c.nodeIndex, y["node"]);
            c.path = y["path"] == "translation" ? fg::AnimationPath::Translation : y["path"] == "scale" ? fg::AnimationPath::Scale : y["path"] == "rotation" ? fg::AnimationPath::Rotation : fg::AnimationPath::Weights;
        }
        for (auto& y : x["samplers"]) {
            auto& m = n.samplers.emplace_back();
            m.inputAccessor = at(y["in"]);
            m.outputAccessor = at(y["out"]);
            m.interpolation = y["interp"] == "LINEAR" ? fg::AnimationInterpolation::Linear : y["interp"] == "STEP" ? fg::AnimationInterpolation::Step : fg::AnimationInterpolation::CubicSpline;
        }
    }
    for (auto& x : a["cameras"]) {
        auto& c = asset.cameras.emplace_back();
        auto num = [&](const char* k) { return fg::num(double(std::int64_t(x[k]))); };
        if (has(x, "xmag")) c.camera = fg::Camera::Orthographic{num("xmag"), num("ymag"), num("zfar"), num("znear")};
        else {
            fg::Camera::Perspective p{};
            if (num("aspect") >= 0) p.aspectRatio = num("aspect");
            p.yfov = num("yfov");
            if (num("zfar") >= 0) p.zfar = num("zfar");
            p.znear = num("znear");
            c.camera = std::move(p);
        }
    }
    for (auto& x : a["images"]) {
        auto& i = asset.images.emplace_back();
        if (std::int64_t(x["view"]) >= 0) i.data = fg::sources::BufferView{at(x["view"]), fg::MimeType::PNG};
        else i.data = fg::sources::URI{0, fg::URI(std::string_view("image.png")), fg::MimeType::PNG};
    }
    for (auto& x : a["lights"]) {
        auto& l = asset.lights.emplace_back();
        l.type = x["type"] == "point" ? fg::LightType::Point : x["type"] == "spot" ? fg::LightType::Spot : fg::LightType::Directional;
        l.color = white();
        l.intensity = 1;
        if (std::int64_t(x["range"]) != -1) l.range = fg::num(double(std::int64_t(x["range"])));
        if (std::int64_t(x["inner"]) != -1) l.innerConeAngle = third(x["inner"]);
        if (std::int64_t(x["outer"]) != -1) l.outerConeAngle = third(x["outer"]);
    }
    for (auto& x : a["materials"]) material(asset.materials.emplace_back(), x);
    for (auto& x : a["meshes"]) {
        auto& m = asset.meshes.emplace_back();
        for (auto& y : x) {
            auto& p = m.primitives.emplace_back();
            attrs(p.attributes, y["attrs"]);
            opt(p.indicesAccessor, y["idx"]);
            opt(p.materialIndex, y["mat"]);
            for (auto& t : y["targets"]) attrs(p.targets.emplace_back(), t);
            if (std::int64_t(y["draco"]) >= 0) {
                auto& d = make(p.dracoCompression);
                d.bufferView = at(y["draco"]);
                fg::Attribute q;
                q.name = "POSITION";
                q.accessorIndex = 0;
                d.attributes.emplace_back(std::move(q));
            }
            for (auto& v : y["maps"]) opt(p.mappings.emplace_back(), v);
        }
    }
    for (auto& x : a["nodes"]) {
        auto& n = asset.nodes.emplace_back();
        opt(n.cameraIndex, x["cam"]);
        opt(n.skinIndex, x["skin"]);
        opt(n.meshIndex, x["mesh"]);
        opt(n.lightIndex, x["light"]);
        indices(n.children, x["children"]);
        const char* names[] = {"TRANSLATION", "SCALE", "_A", "_B", "_C"};
        std::size_t k = 0;
        for (auto& i : x["inst"]) {
            fg::Attribute q;
            q.name = names[k++ % 5];
            q.accessorIndex = at(i);
            n.instancingAttributes.emplace_back(std::move(q));
        }
        float t[3], s[3], r[4];
        for (int i = 0; i < 3; ++i) { t[i] = float(double(x["t"][i])); s[i] = float(double(x["s"][i])); }
        for (int i = 0; i < 4; ++i) r[i] = float(double(x["rot"][i]) / 8);
        if (x["k"] == "matrix") {
            // (only the identity and half turns occur with matrices)
            fg::math::fmat4x4 m(1.f);
            for (int i = 0; i < 3; ++i) m[i][i] = s[i];
            for (int i = 0; i < 3; ++i) m[3][i] = t[i];
            n.transform = m;
        } else {
            fg::TRS q;
            q.translation = fg::math::fvec3(t[0], t[1], t[2]);
            q.scale = fg::math::fvec3(s[0], s[1], s[2]);
            q.rotation = fg::math::fquat(r[0], r[1], r[2], r[3]);
            n.transform = q;
        }
        for (std::int64_t i = 0; i < std::int64_t(x["weights"]); ++i) n.weights.emplace_back(fg::num(0.25));
        n.visible = bool(x["visible"]);
        n.selectable = bool(x["selectable"]);
        n.hoverable = bool(x["hoverable"]);
    }
    for (auto& x : a["samplers"]) {
        auto& m = asset.samplers.emplace_back();
        std::string f = x["mag"];
        if (f == "NEAREST") m.magFilter = fg::Filter::Nearest;
        else if (f == "LINEAR") m.magFilter = fg::Filter::Linear;
        else if (f == "NEAREST_MIPMAP_NEAREST") m.magFilter = fg::Filter::NearestMipMapNearest;
        else if (f == "LINEAR_MIPMAP_NEAREST") m.magFilter = fg::Filter::LinearMipMapNearest;
        else if (f == "NEAREST_MIPMAP_LINEAR") m.magFilter = fg::Filter::NearestMipMapLinear;
        else if (f == "LINEAR_MIPMAP_LINEAR") m.magFilter = fg::Filter::LinearMipMapLinear;
    }
    for (auto& x : a["scenes"]) indices(asset.scenes.emplace_back().nodeIndices, x);
    opt(asset.defaultScene, a["scene"]);
    for (std::int64_t i = 0; i < std::int64_t(a["variants"]); ++i) asset.materialVariants.emplace_back("v");
    for (auto& x : a["skins"]) {
        auto& k = asset.skins.emplace_back();
        indices(k.joints, x["joints"]);
        opt(k.skeleton, x["skel"]);
        opt(k.inverseBindMatrices, x["ibm"]);
    }
    for (auto& x : a["textures"]) {
        auto& t = asset.textures.emplace_back();
        opt(t.samplerIndex, x["sampler"]);
        opt(t.imageIndex, x["image"]);
        opt(t.basisuImageIndex, x["basisu"]);
        opt(t.ddsImageIndex, x["dds"]);
        opt(t.webpImageIndex, x["webp"]);
    }
}
static std::string name(fg::Error e) { return std::string(fg::getErrorName(e)); }
static json record(const fg::Asset& a) {
    json r;
#define X(C, f) r[#f] = dumpv(a.f);
    VH_CATEGORIES(X)
#undef X
    r["lights"] = dumpv(a.lights);
    r["used"] = sv(a.extensionsUsed);
    r["required"] = sv(a.extensionsRequired);
    return r;
}
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        fg::Asset asset;
        build(asset, s["asset"]);
        json r;
        auto before = record(asset);
        r["validate"] = name(fg::validate(asset));
        r["again"] = name(fg::validate(asset));
        r["same"] = record(asset) == before;
        if (s.contains("write")) {
            fg::Exporter exporter;
            auto text = exporter.writeGltfJson(asset, fg::ExportOptions::ValidateAsset);
            r["json"] = name(text.error());
            auto glb = exporter.writeGltfBinary(asset, fg::ExportOptions::ValidateAsset);
            r["glb"] = name(glb.error());
            if (text.error() == fg::Error::None) {
                // what is written is an asset that conforms as well
                auto e = fg::Extensions::None;
#define X(n) e |= fg::Extensions::n;
                VH_EXTENSIONS(X)
#undef X
                fg::Parser parser(e);
                auto& t = text.get().output;
                auto buf = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(t.data()), t.size());
                if (buf.error() != fg::Error::None) vh::internal("buffer");
                auto l = parser.loadGltfJson(buf.get(), vh::scratch, fg::Options::DontRequireValidAssetMember, fg::Category::All);
                r["reload"] = name(l.error());
                if (l.error() == fg::Error::None) r["revalidate"] = name(fg::validate(l.get()));
            }
        }
        return r;
    });
}
