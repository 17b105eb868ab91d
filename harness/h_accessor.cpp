// Replays accessors into the accessor tools.
#include "acc.hpp"
static fg::AccessorType typeOf(const std::string& t) {
    static const char* n[] = {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"};
    static const fg::AccessorType v[] = {fg::AccessorType::Scalar, fg::AccessorType::Vec2, fg::AccessorType::Vec3, fg::AccessorType::Vec4, fg::AccessorType::Mat2, fg::AccessorType::Mat3, fg::AccessorType::Mat4};
    for (int i = 0; i < 7; ++i) if (t == n[i]) return v[i];
    vh::internal("type " + t);
}
static fg::ComponentType compOf(const std::string& t) {
    static const char* n[] = {"s8", "u8", "s16", "u16", "s32", "u32", "f32", "f64"};
    static const fg::ComponentType v[] = {fg::ComponentType::Byte, fg::ComponentType::UnsignedByte, fg::ComponentType::Short, fg::ComponentType::UnsignedShort,
                                          fg::ComponentType::Int, fg::ComponentType::UnsignedInt, fg::ComponentType::Float, fg::ComponentType::Double};
    for (int i = 0; i < 8; ++i) if (t == n[i]) return v[i];
    vh::internal("component type " + t);
}
static json one(const json& s) {
    acc::World w;
    const auto& mem = s["mem"];
    std::size_t n = mem.size();
    std::string kind = s["kind"];
    auto byte = [&](std::size_t i) { return std::byte(int(mem[i])); };
    // a buffer that does not matter, before the one that does
    auto& other = w.asset.buffers.emplace_back();
    other.byteLength = 4096;
    { fg::StaticVector<std::byte> b(4096); for (auto& x : b) x = std::byte(90); other.data = fg::sources::Array {std::move(b)}; }
    auto& buf = w.asset.buffers.emplace_back();
    buf.byteLength = n;
    if (kind == "array") {
        fg::StaticVector<std::byte> b(n);
        for (std::size_t i = 0; i < n; ++i) b.data()[i] = byte(i);
        buf.data = fg::sources::Array {std::move(b)};
    } else if (kind == "vector") {
        std::vector<std::byte> b;
        b.reserve(n);
        for (std::size_t i = 0; i < n; ++i) b.push_back(byte(i));
        buf.data = fg::sources::Vector {std::move(b)};
    } else if (kind == "view") {
        w.mem.reset(new std::byte[n]);
        for (std::size_t i = 0; i < n; ++i) w.mem[i] = byte(i);
        buf.data = fg::sources::ByteView {fg::span<const std::byte>(w.mem.get(), n)};
    } else if (kind == "custom") buf.data = fg::sources::CustomBuffer {5};
    for (auto& v : s["views"]) {
        auto& bv = w.asset.bufferViews.emplace_back();
        bv.bufferIndex = 1;
        bv.byteOffset = v["off"];
        bv.byteLength = v["len"];
        if (v["stride"] != 0) bv.byteStride = std::size_t(v["stride"]);
        std::size_t len = bv.byteLength;
        w.adapter.blocks.emplace_back(new std::byte[len]);
        w.adapter.sizes.push_back(len);
        for (std::size_t i = 0; i < len; ++i) w.adapter.blocks.back()[i] = byte(bv.byteOffset + i);
    }
    const auto& d = s["acc"];
    auto& a = w.asset.accessors.emplace_back();
    a.type = typeOf(d["t"]);
    a.componentType = compOf(d["ct"]);
    a.normalized = d["norm"];
    a.count = d["count"];
    a.byteOffset = d["off"];
    if (!d["base"].empty()) a.bufferViewIndex = std::size_t(d["base"][0]) - 1;
    if (!d["sparse"].empty()) {
        const auto& p = d["sparse"][0];
        fg::SparseAccessor sp {};
        sp.count = p["n"];
        sp.indexComponentType = compOf(p["ict"]);
        sp.indicesBufferView = std::size_t(p["iv"]) - 1;
        sp.indicesByteOffset = p["ioff"];
        sp.valuesBufferView = std::size_t(p["vv"]) - 1;
        sp.valuesByteOffset = p["voff"];
        a.sparse = sp;
    }
    std::string dt = s["fmt"]["dt"];
    if (dt == "s8") return acc::run_s8(w, a, s);
    if (dt == "u8") return acc::run_u8(w, a, s);
    if (dt == "s16") return acc::run_s16(w, a, s);
    if (dt == "u16") return acc::run_u16(w, a, s);
    if (dt == "s32") return acc::run_s32(w, a, s);
    if (dt == "u32") return acc::run_u32(w, a, s);
    if (dt == "f32") return acc::run_f32(w, a, s);
    if (dt == "f64") return acc::run_f64(w, a, s);
    vh::internal("dt");
}
int main(int argc, char** argv) { return vh::run(argc, argv, one); }
