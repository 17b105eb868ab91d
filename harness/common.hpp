// Shared main loop of the replay drivers: read scenarios (one JSON per line), run each, write one result per line.
#pragma once
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <unistd.h>
using json = nlohmann::ordered_json;

namespace vh {
inline std::string scratch;
[[noreturn]] inline void internal(const std::string& what) {
    std::fprintf(stderr, "harness internal error: %s\n", what.c_str());
    std::_Exit(77);
}
inline int run(int argc, char** argv, const std::function<json(const json&)>& f) {
    if (argc < 4) internal("usage");
    scratch = argv[3];
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    if (!out) internal("cannot open output");
    const char* t = std::getenv("VH_TIMEOUT");
    unsigned limit = t ? std::atoi(t) : 20;
    std::string line;
    while (std::getline(in, line)) {
        json s = json::parse(line, nullptr, false);
        if (s.is_discarded()) internal("bad scenario");
        alarm(limit);
        json r = f(s);
        alarm(0);
        std::string o = r.dump(-1, ' ', true, json::error_handler_t::replace);
        o.push_back('\n');
        std::fwrite(o.data(), 1, o.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
// floating point numbers are exchanged as text
inline std::string num(double v) {
    char b[64];
    if (v != v) return "nan";
    std::snprintf(b, sizeof b, "%.9g", v);
    if (std::string(b) == "-0") return "0";
    return b;
}
}
