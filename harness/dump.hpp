// An asset as JSON, in the vocabulary of glTF (and of spec/Gltf.tla): one member per modelled property, null when absent.
#pragma once
#include "common.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>

namespace vh {
namespace fg = fastgltf;
inline json n(double v) { return "#" + num(v); }
inline json u(std::size_t v) { return static_cast<std::uint64_t>(v); }
template <typename T> json ou(const T& o) { return o.has_value() ? u(static_cast<std::size_t>(*o)) : json(nullptr); }
template <typename T> json on(const T& o) { return o.has_value() ? n(*o) : json(nullptr); }
template <typename S> json s(const S& v) { return std::string(v.data(), v.size()); }
template <typename V> json nv(const V& v) { json a = json::array(); for (std::size_t i = 0; i < v.size(); ++i) a.push_back(n(v[i])); return a; }
inline json quat(const fg::math::fquat& q) { return json::array({n(q.x()), n(q.y()), n(q.z()), n(q.w())}); }
inline json mat(const fg::math::fmat4x4& m) { json a = json::array(); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) a.push_back(n(m[c][r])); return a; }
template <typename V> json uv(const V& v) { json a = json::array(); for (auto x : v) a.push_back(u(x)); return a; }
template <typename V> json sv(const V& v) { json a = json::array(); for (auto& x : v) a.push_back(s(x)); return a; }
template <typename V> json attrs(const V& v) {
    json o = json::object();
    for (auto& a : v) {
        std::string k(a.name);
        while (o.contains(k)) k += " (again)";
        o[k] = u(a.accessorIndex);
    }
    return o;
}
inline const char* hexd = "0123456789abcdef";
inline std::string hex(const void* p, std::size_t len) {
    std::string r;
    r.reserve(len * 2);
    auto* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < len; ++i) { r.push_back(hexd[b[i] >> 4]); r.push_back(hexd[b[i] & 15]); }
    return r;
}
inline std::vector<std::byte> unhex(const std::string& h) {
    std::vector<std::byte> r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(static_cast<std::byte>(std::stoi(h.substr(i, 2), nullptr, 16)));
    return r;
}
inline json mime(fg::MimeType m) {
    switch (m) {
        case fg::MimeType::None: return "";
        case fg::MimeType::JPEG: return "image/jpeg";
        case fg::MimeType::PNG: return "image/png";
        case fg::MimeType::KTX2: return "image/ktx2";
        case fg::MimeType::DDS: return "image/vnd-ms.dds";
        case fg::MimeType::GltfBuffer: return "application/gltf-buffer";
        case fg::MimeType::OctetStream: return "application/octet-stream";
        case fg::MimeType::WEBP: return "image/webp";
    }
    return "?" + std::to_string(static_cast<int>(m));
}
inline json data(const fg::DataSource& d) {
    json o;
    if (std::holds_alternative<std::monostate>(d)) o["src"] = "none";
    if (auto* x = std::get_if<fg::sources::BufferView>(&d)) { o["src"] = "view"; o["view"] = u(x->bufferViewIndex); o["mime"] = mime(x->mimeType); }
    if (auto* x = std::get_if<fg::sources::URI>(&d)) {
        o["src"] = "uri"; o["uri"] = s(x->uri.string()); o["path"] = s(x->uri.path());
        o["rest"] = json::array({s(x->uri.scheme()), s(x->uri.userinfo()), s(x->uri.host()), s(x->uri.port()), s(x->uri.query()), s(x->uri.fragment())}); o["mime"] = mime(x->mimeType);
        if (x->fileByteOffset) o["off"] = u(x->fileByteOffset);
    }
    if (auto* x = std::get_if<fg::sources::Array>(&d)) { o["src"] = "bytes"; o["bytes"] = hex(x->bytes.data(), x->bytes.size()); o["mime"] = mime(x->mimeType); }
    if (auto* x = std::get_if<fg::sources::Vector>(&d)) { o["src"] = "bytes"; o["bytes"] = hex(x->bytes.data(), x->bytes.size()); o["mime"] = mime(x->mimeType); }
    if (auto* x = std::get_if<fg::sources::ByteView>(&d)) { o["src"] = "bytes"; o["bytes"] = hex(x->bytes.data(), x->bytes.size()); o["mime"] = mime(x->mimeType); }
    if (auto* x = std::get_if<fg::sources::CustomBuffer>(&d)) { o["src"] = "custom"; o["id"] = x->id; o["mime"] = mime(x->mimeType); }
    if (std::holds_alternative<fg::sources::Fallback>(d)) o["src"] = "fallback";
    return o;
}
inline json ttrans(const std::unique_ptr<fg::TextureTransform>& t) {
    if (!t) return nullptr;
    return {{"offset", nv(t->uvOffset)}, {"rotation", n(t->rotation)}, {"scale", nv(t->uvScale)}, {"texCoord", ou(t->texCoordIndex)}};
}
inline json texi(const fg::TextureInfo& t) { return {{"index", u(t.textureIndex)}, {"texCoord", u(t.texCoordIndex)}, {"KHR_texture_transform", ttrans(t.transform)}}; }
template <typename O> json tex(const O& o) {
    if (!o.has_value()) return nullptr;
    json r = texi(*o);
    using T = std::decay_t<decltype(*o)>;
    if constexpr (std::is_same_v<T, fg::NormalTextureInfo>) r["scale"] = n(o->scale);
    if constexpr (std::is_same_v<T, fg::OcclusionTextureInfo>) r["strength"] = n(o->strength);
    return r;
}
inline json bounds(const std::optional<fg::AccessorBoundsArray>& b) {
    if (!b) return nullptr;
    json a = json::array();
    for (std::size_t i = 0; i < b->size(); ++i) {
        if (b->isType<double>()) a.push_back(n(b->get<double>(i)));
        else a.push_back(b->get<std::int64_t>(i));
    }
    return a;
}
inline json comp(fg::ComponentType t) { return static_cast<std::uint64_t>(fg::getGLComponentType(t)); }
inline json acctype(fg::AccessorType t) {
    switch (t) {
        case fg::AccessorType::Scalar: return "SCALAR";
        case fg::AccessorType::Vec2: return "VEC2";
        case fg::AccessorType::Vec3: return "VEC3";
        case fg::AccessorType::Vec4: return "VEC4";
        case fg::AccessorType::Mat2: return "MAT2";
        case fg::AccessorType::Mat3: return "MAT3";
        case fg::AccessorType::Mat4: return "MAT4";
        default: return "?";
    }
}
inline json dump(const fg::Accessor& a) {
    json sp = nullptr;
    if (a.sparse.has_value())
        sp = {{"count", u(a.sparse->count)},
              {"indices", {{"bufferView", u(a.sparse->indicesBufferView)}, {"byteOffset", u(a.sparse->indicesByteOffset)}, {"componentType", comp(a.sparse->indexComponentType)}}},
              {"values", {{"bufferView", u(a.sparse->valuesBufferView)}, {"byteOffset", u(a.sparse->valuesByteOffset)}}}};
    return {{"bufferView", ou(a.bufferViewIndex)}, {"byteOffset", u(a.byteOffset)}, {"componentType", comp(a.componentType)}, {"normalized", a.normalized},
            {"count", u(a.count)}, {"type", acctype(a.type)}, {"max", bounds(a.max)}, {"min", bounds(a.min)}, {"sparse", sp}, {"name", s(a.name)}};
}
inline json dump(const fg::Animation& a) {
    json c = json::array(), m = json::array();
    for (auto& x : a.channels) {
        json p = x.path == fg::AnimationPath::Translation ? "translation" : x.path == fg::AnimationPath::Rotation ? "rotation"
               : x.path == fg::AnimationPath::Scale ? "scale" : x.path == fg::AnimationPath::Weights ? "weights" : "?";
        c.push_back({{"sampler", u(x.samplerIndex)}, {"target", {{"node", ou(x.nodeIndex)}, {"path", p}}}});
    }
    for (auto& x : a.samplers) {
        json p = x.interpolation == fg::AnimationInterpolation::Linear ? "LINEAR" : x.interpolation == fg::AnimationInterpolation::Step ? "STEP"
               : x.interpolation == fg::AnimationInterpolation::CubicSpline ? "CUBICSPLINE" : "?";
        m.push_back({{"input", u(x.inputAccessor)}, {"output", u(x.outputAccessor)}, {"interpolation", p}});
    }
    return {{"channels", c}, {"samplers", m}, {"name", s(a.name)}};
}
inline json dump(const fg::Buffer& b) { return {{"byteLength", u(b.byteLength)}, {"data", data(b.data)}, {"name", s(b.name)}}; }
inline json dump(const fg::BufferView& b) {
    json m = nullptr;
    if (b.meshoptCompression) {
        auto& c = *b.meshoptCompression;
        json mode = c.mode == fg::MeshoptCompressionMode::Attributes ? "ATTRIBUTES" : c.mode == fg::MeshoptCompressionMode::Triangles ? "TRIANGLES"
                  : c.mode == fg::MeshoptCompressionMode::Indices ? "INDICES" : "?";
        json f = c.filter == fg::MeshoptCompressionFilter::None ? "NONE" : c.filter == fg::MeshoptCompressionFilter::Octahedral ? "OCTAHEDRAL"
               : c.filter == fg::MeshoptCompressionFilter::Quaternion ? "QUATERNION" : c.filter == fg::MeshoptCompressionFilter::Exponential ? "EXPONENTIAL" : "?";
        m = {{"buffer", u(c.bufferIndex)}, {"byteOffset", u(c.byteOffset)}, {"byteLength", u(c.byteLength)}, {"byteStride", u(c.byteStride)}, {"count", u(c.count)}, {"mode", mode}, {"filter", f}};
    }
    return {{"buffer", u(b.bufferIndex)}, {"byteOffset", u(b.byteOffset)}, {"byteLength", u(b.byteLength)}, {"byteStride", ou(b.byteStride)}, {"target", ou(b.target)},
            {"name", s(b.name)}, {"EXT_meshopt_compression", m}};
}
inline json dump(const fg::Camera& c) {
    json p = nullptr, o = nullptr, t = "?";
    if (auto* x = std::get_if<fg::Camera::Perspective>(&c.camera)) {
        t = "perspective";
        p = {{"aspectRatio", on(x->aspectRatio)}, {"yfov", n(x->yfov)}, {"zfar", on(x->zfar)}, {"znear", n(x->znear)}};
    }
    if (auto* x = std::get_if<fg::Camera::Orthographic>(&c.camera)) {
        t = "orthographic";
        o = {{"xmag", n(x->xmag)}, {"ymag", n(x->ymag)}, {"zfar", n(x->zfar)}, {"znear", n(x->znear)}};
    }
    return {{"type", t}, {"perspective", p}, {"orthographic", o}, {"name", s(c.name)}};
}
inline json dump(const fg::Image& i) { return {{"name", s(i.name)}, {"data", data(i.data)}}; }
inline json dump(const fg::Light& l) {
    json t = l.type == fg::LightType::Directional ? "directional" : l.type == fg::LightType::Spot ? "spot" : l.type == fg::LightType::Point ? "point" : "?";
    json sp = nullptr;
    if (l.innerConeAngle.has_value() || l.outerConeAngle.has_value()) sp = {{"innerConeAngle", on(l.innerConeAngle)}, {"outerConeAngle", on(l.outerConeAngle)}};
    return {{"type", t}, {"color", nv(l.color)}, {"intensity", n(l.intensity)}, {"range", on(l.range)}, {"spot", sp}, {"name", s(l.name)}};
}
inline json dump(const fg::Material& m) {
    json r;
    r["pbrMetallicRoughness"] = {{"baseColorFactor", nv(m.pbrData.baseColorFactor)}, {"baseColorTexture", tex(m.pbrData.baseColorTexture)}, {"metallicFactor", n(m.pbrData.metallicFactor)},
                                 {"roughnessFactor", n(m.pbrData.roughnessFactor)}, {"metallicRoughnessTexture", tex(m.pbrData.metallicRoughnessTexture)}};
    r["normalTexture"] = tex(m.normalTexture);
    r["occlusionTexture"] = tex(m.occlusionTexture);
    r["emissiveTexture"] = tex(m.emissiveTexture);
    r["emissiveFactor"] = nv(m.emissiveFactor);
    r["alphaMode"] = m.alphaMode == fg::AlphaMode::Opaque ? "OPAQUE" : m.alphaMode == fg::AlphaMode::Mask ? "MASK" : m.alphaMode == fg::AlphaMode::Blend ? "BLEND" : "?";
    r["alphaCutoff"] = n(m.alphaCutoff);
    r["doubleSided"] = m.doubleSided;
    r["name"] = s(m.name);
    auto& a = r["KHR_materials_anisotropy"] = nullptr;
    if (m.anisotropy) a = {{"anisotropyStrength", n(m.anisotropy->anisotropyStrength)}, {"anisotropyRotation", n(m.anisotropy->anisotropyRotation)}, {"anisotropyTexture", tex(m.anisotropy->anisotropyTexture)}};
    auto& c = r["KHR_materials_clearcoat"] = nullptr;
    if (m.clearcoat)
        c = {{"clearcoatFactor", n(m.clearcoat->clearcoatFactor)}, {"clearcoatTexture", tex(m.clearcoat->clearcoatTexture)}, {"clearcoatRoughnessFactor", n(m.clearcoat->clearcoatRoughnessFactor)},
             {"clearcoatRoughnessTexture", tex(m.clearcoat->clearcoatRoughnessTexture)}, {"clearcoatNormalTexture", tex(m.clearcoat->clearcoatNormalTexture)}};
    r["KHR_materials_dispersion"] = {{"dispersion", n(m.dispersion)}};
    r["KHR_materials_emissive_strength"] = {{"emissiveStrength", n(m.emissiveStrength)}};
    r["KHR_materials_ior"] = {{"ior", n(m.ior)}};
    auto& i = r["KHR_materials_iridescence"] = nullptr;
    if (m.iridescence)
        i = {{"iridescenceFactor", n(m.iridescence->iridescenceFactor)}, {"iridescenceTexture", tex(m.iridescence->iridescenceTexture)}, {"iridescenceIor", n(m.iridescence->iridescenceIor)},
             {"iridescenceThicknessMinimum", n(m.iridescence->iridescenceThicknessMinimum)}, {"iridescenceThicknessMaximum", n(m.iridescence->iridescenceThicknessMaximum)},
             {"iridescenceThicknessTexture", tex(m.iridescence->iridescenceThicknessTexture)}};
    auto& d = r["KHR_materials_diffuse_transmission"] = nullptr;
    if (m.diffuseTransmission)
        d = {{"diffuseTransmissionFactor", n(m.diffuseTransmission->diffuseTransmissionFactor)}, {"diffuseTransmissionTexture", tex(m.diffuseTransmission->diffuseTransmissionTexture)},
             {"diffuseTransmissionColorFactor", nv(m.diffuseTransmission->diffuseTransmissionColorFactor)}, {"diffuseTransmissionColorTexture", tex(m.diffuseTransmission->diffuseTransmissionColorTexture)}};
    auto& sh = r["KHR_materials_sheen"] = nullptr;
    if (m.sheen)
        sh = {{"sheenColorFactor", nv(m.sheen->sheenColorFactor)}, {"sheenColorTexture", tex(m.sheen->sheenColorTexture)}, {"sheenRoughnessFactor", n(m.sheen->sheenRoughnessFactor)},
              {"sheenRoughnessTexture", tex(m.sheen->sheenRoughnessTexture)}};
    auto& sp = r["KHR_materials_specular"] = nullptr;
    if (m.specular)
        sp = {{"specularFactor", n(m.specular->specularFactor)}, {"specularTexture", tex(m.specular->specularTexture)}, {"specularColorFactor", nv(m.specular->specularColorFactor)},
              {"specularColorTexture", tex(m.specular->specularColorTexture)}};
    auto& t = r["KHR_materials_transmission"] = nullptr;
    if (m.transmission) t = {{"transmissionFactor", n(m.transmission->transmissionFactor)}, {"transmissionTexture", tex(m.transmission->transmissionTexture)}};
    r["KHR_materials_unlit"] = m.unlit ? json::object() : json(nullptr);
    auto& v = r["KHR_materials_volume"] = nullptr;
    if (m.volume)
        v = {{"thicknessFactor", n(m.volume->thicknessFactor)}, {"thicknessTexture", tex(m.volume->thicknessTexture)}, {"attenuationDistance", n(m.volume->attenuationDistance)},
             {"attenuationColor", nv(m.volume->attenuationColor)}};
    r["MSFT_packing_normalRoughnessMetallic"] = {{"normalRoughnessMetallicTexture", tex(m.packedNormalMetallicRoughnessTexture)}};
    auto& p = r["MSFT_packing_occlusionRoughnessMetallic"] = nullptr;
    if (m.packedOcclusionRoughnessMetallicTextures) {
        auto& x = *m.packedOcclusionRoughnessMetallicTextures;
        p = {{"occlusionRoughnessMetallicTexture", tex(x.occlusionRoughnessMetallicTexture)}, {"roughnessMetallicOcclusionTexture", tex(x.roughnessMetallicOcclusionTexture)}, {"normalTexture", tex(x.normalTexture)}};
    }
    auto& g = r["KHR_materials_pbrSpecularGlossiness"] = nullptr;
    if (m.specularGlossiness)
        g = {{"diffuseFactor", nv(m.specularGlossiness->diffuseFactor)}, {"diffuseTexture", tex(m.specularGlossiness->diffuseTexture)}, {"specularFactor", nv(m.specularGlossiness->specularFactor)},
             {"glossinessFactor", n(m.specularGlossiness->glossinessFactor)}, {"specularGlossinessTexture", tex(m.specularGlossiness->specularGlossinessTexture)}};
    return r;
}
inline json dump(const fg::Mesh& m) {
    json ps = json::array();
    for (auto& p : m.primitives) {
        json t = json::array();
        for (auto& x : p.targets) t.push_back(attrs(x));
        json d = nullptr;
        if (p.dracoCompression) d = {{"bufferView", u(p.dracoCompression->bufferView)}, {"attributes", attrs(p.dracoCompression->attributes)}};
        json mp = json::array();
        for (auto& x : p.mappings) mp.push_back(ou(x));
        ps.push_back({{"attributes", attrs(p.attributes)}, {"targets", t}, {"mode", u(static_cast<std::size_t>(p.type))}, {"indices", ou(p.indicesAccessor)}, {"material", ou(p.materialIndex)},
                      {"KHR_draco_mesh_compression", d}, {"KHR_materials_variants", mp}});
    }
    return {{"primitives", ps}, {"weights", nv(m.weights)}, {"name", s(m.name)}};
}
inline json geometry(const fg::Geometry& g) { return {{"shape", ou(g.shape)}, {"node", ou(g.node)}, {"convexHull", g.convexHull}}; }
inline json dump(const fg::Node& x) {
    json r = {{"mesh", ou(x.meshIndex)}, {"skin", ou(x.skinIndex)}, {"camera", ou(x.cameraIndex)}, {"children", uv(x.children)}, {"weights", nv(x.weights)}};
    for (auto* k : {"matrix", "translation", "rotation", "scale"}) r[k] = nullptr;
    if (auto* t = std::get_if<fg::TRS>(&x.transform)) {
        r["translation"] = nv(t->translation);
        r["rotation"] = quat(t->rotation);
        r["scale"] = nv(t->scale);
    } else r["matrix"] = mat(std::get<fg::math::fmat4x4>(x.transform));
    r["name"] = s(x.name);
    r["KHR_lights_punctual"] = x.lightIndex.has_value() ? json{{"light", u(*x.lightIndex)}} : json(nullptr);
    r["EXT_mesh_gpu_instancing"] = {{"attributes", attrs(x.instancingAttributes)}};
    auto& b = r["KHR_physics_rigid_bodies"] = nullptr;
    if (x.physicsRigidBody) {
        auto& rb = *x.physicsRigidBody;
        json mo = nullptr, co = nullptr, tr = nullptr, jo = nullptr;
        if (rb.motion.has_value()) {
            auto& m = *rb.motion;
            mo = {{"isKinematic", m.isKinematic}, {"mass", on(m.mass)}, {"centerOfMass", nv(m.centerOfMass)},
                  {"inertiaDiagonal", m.inertialDiagonal.has_value() ? nv(*m.inertialDiagonal) : json(nullptr)},
                  {"inertiaOrientation", m.inertialOrientation.has_value() ? nv(*m.inertialOrientation) : json(nullptr)},
                  {"linearVelocity", nv(m.linearVelocity)}, {"angularVelocity", nv(m.angularVelocity)}, {"gravityFactor", n(m.gravityFactor)}};
        }
        if (rb.collider.has_value())
            co = {{"geometry", geometry(rb.collider->geometry)}, {"physicsMaterial", ou(rb.collider->physicsMaterial)}, {"collisionFilter", ou(rb.collider->collisionFilter)}};
        if (rb.trigger.has_value()) {
            tr = {{"geometry", nullptr}, {"nodes", nullptr}, {"collisionFilter", nullptr}};
            if (auto* g = std::get_if<fg::GeometryTrigger>(&*rb.trigger)) { tr["geometry"] = geometry(g->geometry); tr["collisionFilter"] = ou(g->collisionFilter); }
            else tr["nodes"] = uv(std::get<fg::NodeTrigger>(*rb.trigger).nodes);
        }
        if (rb.joint.has_value()) jo = {{"connectedNode", u(rb.joint->connectedNode)}, {"joint", u(rb.joint->joint)}, {"enableCollision", rb.joint->enableCollision}};
        b = {{"motion", mo}, {"collider", co}, {"trigger", tr}, {"joint", jo}};
    }
    r["KHR_node_visibility"] = {{"visible", x.visible}};
    r["KHR_node_selectability"] = {{"selectable", x.selectable}};
    r["KHR_node_hoverability"] = {{"hoverable", x.hoverable}};
    return r;
}
inline json dump(const fg::Sampler& x) {
    return {{"magFilter", ou(x.magFilter)}, {"minFilter", ou(x.minFilter)}, {"wrapS", u(static_cast<std::size_t>(x.wrapS))}, {"wrapT", u(static_cast<std::size_t>(x.wrapT))}, {"name", s(x.name)}};
}
inline json dump(const fg::Scene& x) { return {{"nodes", uv(x.nodeIndices)}, {"name", s(x.name)}}; }
inline json dump(const fg::Skin& x) { return {{"inverseBindMatrices", ou(x.inverseBindMatrices)}, {"skeleton", ou(x.skeleton)}, {"joints", uv(x.joints)}, {"name", s(x.name)}}; }
template <typename O> json src(const O& o) { return o.has_value() ? json{{"source", u(*o)}} : json(nullptr); }
inline json dump(const fg::Texture& x) {
    return {{"sampler", ou(x.samplerIndex)}, {"source", ou(x.imageIndex)}, {"name", s(x.name)}, {"KHR_texture_basisu", src(x.basisuImageIndex)}, {"MSFT_texture_dds", src(x.ddsImageIndex)},
            {"EXT_texture_webp", src(x.webpImageIndex)}};
}
inline json dump(const std::string& x) { return {{"name", x}}; }
inline json dump(const fg::Shape& x) {
    json r = {{"type", "?"}, {"sphere", nullptr}, {"box", nullptr}, {"capsule", nullptr}, {"cylinder", nullptr}};
    if (auto* y = std::get_if<fg::SphereShape>(&x)) { r["type"] = "sphere"; r["sphere"] = {{"radius", n(y->radius)}}; }
    if (auto* y = std::get_if<fg::BoxShape>(&x)) { r["type"] = "box"; r["box"] = {{"size", nv(y->size)}}; }
    if (auto* y = std::get_if<fg::CapsuleShape>(&x)) { r["type"] = "capsule"; r["capsule"] = {{"height", n(y->height)}, {"radiusBottom", n(y->radiusBottom)}, {"radiusTop", n(y->radiusTop)}}; }
    if (auto* y = std::get_if<fg::CylinderShape>(&x)) { r["type"] = "cylinder"; r["cylinder"] = {{"height", n(y->height)}, {"radiusBottom", n(y->radiusBottom)}, {"radiusTop", n(y->radiusTop)}}; }
    return r;
}
inline json combine(fg::CombineMode m) {
    return m == fg::CombineMode::Average ? "average" : m == fg::CombineMode::Minimum ? "minimum" : m == fg::CombineMode::Maximum ? "maximum" : m == fg::CombineMode::Multiply ? "multiply" : "?";
}
inline json dump(const fg::PhysicsMaterial& x) {
    return {{"staticFriction", n(x.staticFriction)}, {"dynamicFriction", n(x.dynamicFriction)}, {"restitution", n(x.restitution)}, {"frictionCombine", combine(x.frictionCombine)},
            {"restitutionCombine", combine(x.restitutionCombine)}};
}
inline json dump(const fg::CollisionFilter& x) {
    return {{"collisionSystems", sv(x.collisionSystems)}, {"collideWithSystems", sv(x.collideWithSystems)}, {"notCollideWithSystems", sv(x.notCollideWithSystems)}};
}
inline json dump(const fg::PhysicsJoint& x) {
    json l = json::array(), d = json::array();
    for (auto& y : x.limits)
        l.push_back({{"min", on(y.min)}, {"max", on(y.max)}, {"stiffness", on(y.stiffness)}, {"damping", n(y.damping)}, {"linearAxes", uv(y.linearAxes)}, {"angularAxes", uv(y.angularAxes)}});
    for (auto& y : x.drives)
        d.push_back({{"type", y.type == fg::DriveType::Linear ? "linear" : y.type == fg::DriveType::Angular ? "angular" : "?"},
                     {"mode", y.mode == fg::DriveMode::Force ? "force" : y.mode == fg::DriveMode::Acceleration ? "acceleration" : "?"}, {"axis", u(y.axis)}, {"maxForce", n(y.maxForce)},
                     {"positionTarget", n(y.positionTarget)}, {"velocityTarget", n(y.velocityTarget)}, {"stiffness", n(y.stiffness)}, {"damping", n(y.damping)}});
    return {{"limits", l}, {"drives", d}};
}
template <typename V> json dumpv(const V& v) { json a = json::array(); for (auto& x : v) a.push_back(dump(x)); return a; }

#define VH_CATEGORIES(X) X(Accessors, accessors) X(Animations, animations) X(Buffers, buffers) X(BufferViews, bufferViews) X(Cameras, cameras) X(Images, images) \
    X(Materials, materials) X(Meshes, meshes) X(Nodes, nodes) X(Samplers, samplers) X(Scenes, scenes) X(Skins, skins) X(Textures, textures) \
    X(Shapes, shapes) X(PhysicsMaterials, physicsMaterials) X(CollisionFilters, collisionFilters) X(PhysicsJoints, physicsJoints)
#define VH_EXTENSIONS(X) X(KHR_texture_transform) X(KHR_texture_basisu) X(MSFT_texture_dds) X(KHR_mesh_quantization) X(EXT_meshopt_compression) X(KHR_lights_punctual) \
    X(EXT_texture_webp) X(KHR_materials_specular) X(KHR_materials_ior) X(KHR_materials_iridescence) X(KHR_materials_volume) X(KHR_materials_transmission) \
    X(KHR_materials_clearcoat) X(KHR_materials_emissive_strength) X(KHR_materials_sheen) X(KHR_materials_unlit) X(KHR_materials_anisotropy) X(EXT_mesh_gpu_instancing) \
    X(KHR_materials_pbrSpecularGlossiness) X(MSFT_packing_normalRoughnessMetallic) X(MSFT_packing_occlusionRoughnessMetallic) X(KHR_materials_dispersion) \
    X(KHR_materials_variants) X(KHR_accessor_float64) X(KHR_draco_mesh_compression) X(KHR_implicit_shapes) X(KHR_physics_rigid_bodies) X(GODOT_single_root) \
    X(KHR_materials_diffuse_transmission) X(KHR_node_visibility) X(KHR_node_selectability) X(KHR_node_hoverability)

inline json categories(fg::Category c) {
    json a = json::array();
#define X(C, f) if (fg::hasBit(c, fg::Category::C)) a.push_back(#f);
    VH_CATEGORIES(X)
#undef X
    return a;
}
inline fg::Category category(const json& a) {
    auto c = fg::Category::None;
    for (auto& x : a) {
        if (x == "All") c = fg::Category::All;
        else if (x == "OnlyRenderable") c |= fg::Category::OnlyRenderable;
        else if (x == "OnlyAnimations") c |= fg::Category::OnlyAnimations;
#define X(C, f) else if (x == #f) c |= fg::Category::C;
        VH_CATEGORIES(X)
#undef X
        else internal("category " + x.dump());
    }
    return c;
}
inline const char* category_name(fg::Category c) {
#define X(C, f) if (c == fg::Category::C) return #f;
    VH_CATEGORIES(X)
#undef X
    return "?";
}
inline fg::Extensions extensions(const json& a) {
    auto e = fg::Extensions::None;
    for (auto& x : a) {
        if (x == "*") {
#define X(E) e |= fg::Extensions::E;
            VH_EXTENSIONS(X)
#undef X
        }
#define X(E) else if (x == #E) e |= fg::Extensions::E;
        VH_EXTENSIONS(X)
#undef X
        else internal("extension " + x.dump());
    }
    return e;
}
inline json dump(const fg::Asset& a) {
    json r;
    r["asset"] = a.assetInfo.has_value() ? json{{"version", s(a.assetInfo->gltfVersion)}, {"copyright", s(a.assetInfo->copyright)}, {"generator", s(a.assetInfo->generator)}} : json(nullptr);
    r["extensionsUsed"] = sv(a.extensionsUsed);
    r["extensionsRequired"] = sv(a.extensionsRequired);
    r["scene"] = ou(a.defaultScene);
#define X(C, f) r[#f] = dumpv(a.f);
    VH_CATEGORIES(X)
#undef X
    r["lights"] = dumpv(a.lights);
    r["variants"] = dumpv(a.materialVariants);
    r["available"] = categories(a.availableCategories);
    return r;
}
inline std::string err(fg::Error e) { return std::string(fg::getErrorName(e)); }
}
