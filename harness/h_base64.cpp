#include "common.hpp"
#include <fastgltf/base64.hpp>
#include <fastgltf/core.hpp>
#include <cstring>
#include <memory>
namespace b64 = fastgltf::base64;
static std::string hex(const std::uint8_t* p, std::size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (std::size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
int main(int argc, char** argv) {
    return vh::run(argc, argv, [](const json& s) -> json {
        std::string t = s["text"].get<std::string>() + std::string(s["pad"].get<int>(), '=');
        // exactly sized copy, so that reads past the text are seen
        std::unique_ptr<char[]> in(new char[t.size() ? t.size() : 1]);
        std::memcpy(in.get(), t.data(), t.size());
        std::string_view sv(in.get(), t.size());
        json r;
        const std::size_t pad = b64::getPadding(sv), size = b64::getOutputSize(sv.size(), pad);
        r["pad"] = pad; r["size"] = size;
        json outs = json::object();
        auto inplace = [&](const char* n, void (*f)(std::string_view, std::uint8_t*, std::size_t)) {
            std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[size ? size : 1]);
            f(sv, exact.get(), pad);
            std::vector<std::uint8_t> guard(size + 64, 0xA5);
            f(sv, guard.data() + 32, pad);
            bool ok = true;
            for (std::size_t i = 0; i < 32; ++i) ok = ok && guard[i] == 0xA5 && guard[32 + size + i] == 0xA5;
            outs[n] = hex(exact.get(), size) + (std::memcmp(exact.get(), guard.data() + 32, size) ? " differs" : "") + (ok ? "" : " wrote outside");
        };
        auto alloc = [&](const char* n, fastgltf::StaticVector<std::uint8_t> v) { outs[n] = hex(v.data(), v.size()); };
        inplace("fallback_inplace", b64::fallback_decode_inplace);
        inplace("decode_inplace", b64::decode_inplace);
        alloc("fallback", b64::fallback_decode(sv));
        alloc("decode", b64::decode(sv));
#if defined(__x86_64__)
        if (__builtin_cpu_supports("sse4.1")) { inplace("sse4_inplace", b64::sse4_decode_inplace); alloc("sse4", b64::sse4_decode(sv)); }
        if (__builtin_cpu_supports("avx2")) { inplace("avx2_inplace", b64::avx2_decode_inplace); alloc("avx2", b64::avx2_decode(sv)); }
#endif
        r["outs"] = outs;
        return r;
    });
}
