// Helpers shared by the drivers: hex, JSON output, error names, script reading.
#pragma once
#include <atomic>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include "prelude.hpp"
#include <craftpp/error/error.hpp>
#include <craftpp/binary/const_view.hpp>

namespace vf {

using Bytes = std::vector<uint8_t>;

inline std::string hex(const uint8_t *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; ++i) { s.push_back(d[p[i] >> 4]); s.push_back(d[p[i] & 15]); }
    return s;
}
template<typename V> std::string hex(const V& v) { return hex(reinterpret_cast<const uint8_t *>(v.data()), v.size()); }

[[noreturn]] inline void bad_script(const std::string& why) { std::fprintf(stderr, "bad script: %s\n", why.c_str()); std::fflush(stdout); std::_Exit(3); }

// "-" is the empty byte string
inline Bytes unhex(const std::string& s) {
    Bytes r;
    if (s == "-") { return r; }
    auto nib = [&](char c) -> int {
        if (c >= '0' && c <= '9') { return c - '0'; }
        if (c >= 'a' && c <= 'f') { return c - 'a' + 10; }
        bad_script("hex: " + s);
    };
    if (s.size() % 2) { bad_script("hex: " + s); }
    for (size_t i = 0; i < s.size(); i += 2) { r.push_back(nib(s[i]) * 16 + nib(s[i + 1])); }
    return r;
}
inline std::string unhexs(const std::string& s) { auto b = unhex(s); return std::string(b.begin(), b.end()); }

// exact-size heap copy so that ASan sees any read outside of the data
struct Buf {
    explicit Buf(const Bytes& b) : n(b.size()), p(static_cast<uint8_t *>(std::malloc(b.size() ? b.size() : 1))) {
        if (n) { std::memcpy(p, b.data(), n); }
        if (!n) { std::free(p); p = static_cast<uint8_t *>(std::malloc(1)); }
    }
    Buf(const Buf&) = delete;
    ~Buf() { std::free(p); }
    craftpp::binary::ConstView view() const { return craftpp::binary::ConstView(p, n); }
    size_t n;
    uint8_t *p;
};
// heap copy of a string without a terminating zero
struct SBuf {
    explicit SBuf(const std::string& s) : n(s.size()), p(static_cast<char *>(std::malloc(s.size() ? s.size() : 1))) { if (n) { std::memcpy(p, s.data(), n); } }
    SBuf(const SBuf&) = delete;
    ~SBuf() { std::free(p); }
    std::string_view view() const { return std::string_view(p, n); }
    size_t n;
    char *p;
};

inline std::string q(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back(c); }
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r.push_back(c); }
    }
    return r + "\"";
}

// Where the commands of a session come from and its answers go to: stdin and stdout, or those of its thread.
inline thread_local std::istream *t_in = nullptr;
inline thread_local std::string *t_out = nullptr;
inline std::istream& in() { return t_in ? *t_in : std::cin; }

// One JSON object per line.
class J {
public:
    J& s(const char *k, std::string_view v) { key(k); m_s += q(v); return *this; }
    J& i(const char *k, long long v) { key(k); m_s += std::to_string(v); return *this; }
    J& b(const char *k, bool v) { key(k); m_s += v ? "true" : "false"; return *this; }
    J& raw(const char *k, const std::string& v) { key(k); m_s += v; return *this; }
    // byte array as JSON array of numbers
    template<typename V> J& bytes(const char *k, const V& v) {
        key(k);
        m_s += "[";
        for (size_t n = 0; n < v.size(); ++n) { if (n) { m_s += ","; } m_s += std::to_string((unsigned)(uint8_t)v.data()[n]); }
        m_s += "]";
        return *this;
    }
    template<typename V> J& ints(const char *k, const V& v) {
        key(k);
        m_s += "[";
        bool first = true;
        for (auto x : v) { if (!first) { m_s += ","; } first = false; m_s += std::to_string((long long)x); }
        m_s += "]";
        return *this;
    }
    std::string str() const { return "{" + m_s + "}"; }
    void out() const {
        if (t_out) { *t_out += "{" + m_s + "}\n"; } else { std::fputs(("{" + m_s + "}\n").c_str(), stdout); }
    }
    void flush() const { out(); if (!t_out) { std::fflush(stdout); } }
private:
    void key(const char *k) { if (!m_s.empty()) { m_s += ","; } m_s += q(k); m_s += ":"; }
    std::string m_s;
};

inline std::vector<std::string> words(const std::string& l) {
    std::vector<std::string> r;
    std::istringstream is(l);
    std::string w;
    while (is >> w) { r.push_back(w); }
    return r;
}

template<typename T> std::string err_name(const T& e) { return std::string(e.category().name()) + ":" + std::to_string(e.value()); }

// 64-bit value as four 16-bit limbs, most significant first
inline std::vector<unsigned> limbs64(uint64_t v) { return {unsigned(v >> 48), unsigned((v >> 32) & 0xffff), unsigned((v >> 16) & 0xffff), unsigned(v & 0xffff)}; }
inline std::vector<unsigned> limbs32(uint32_t v) { return {unsigned(v >> 16), unsigned(v & 0xffff)}; }

// The program of a driver.  VF_LOCALE names a locale to run in.  With the argument "threads" the input is split
// at lines "%%" and its parts are run at the same time, a thread each; the answers come in the order of the parts.
inline int serve(int (*session)(), int argc, char **argv) {
    if (const char *l = std::getenv("VF_LOCALE")) {
        if (!std::setlocale(LC_ALL, l)) { bad_script(std::string("locale ") + l); }
        try { std::locale::global(std::locale(l)); } catch (const std::exception&) { bad_script(std::string("locale ") + l); }
    }
    if (argc < 2 || std::string(argv[1]) != "threads") { return session(); }
    std::vector<std::string> parts(1);
    for (std::string l; std::getline(std::cin, l);) { if (l == "%%") { parts.emplace_back(); } else { parts.back() += l + "\n"; } }
    std::vector<std::string> outs(parts.size());
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < parts.size(); ++i) {
        th.emplace_back([&, i] {
            std::istringstream is(parts[i]);
            t_in = &is;
            t_out = &outs[i];
            ++ready;
            while (ready < parts.size()) {}
            session();
        });
    }
    for (auto& t : th) { t.join(); }
    for (auto& o : outs) { std::fputs(o.c_str(), stdout); }
    return 0;
}

}
