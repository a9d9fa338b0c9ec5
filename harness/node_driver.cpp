// Drives the Node.js bindings on in-memory JS values.  The steady clock and random()
// are scripted.  One command per line on stdin, one JSON line per command on stdout.
#include "common.hpp"
#include "craftnapi/env.hpp"
#include "util/util_result.hpp"
#include "stun/stun_error.hpp"
#include "net/net_error.hpp"
#include "stun/stun_client_udp.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include <deque>

using namespace freewebrtc;
using namespace vf;
using craftnapi::Value;
namespace js = craftnapi::js;

namespace {
int64_t g_now = 1'000'000'000;
std::deque<uint32_t> g_rand;
uint32_t g_lcg = 12345;
size_t g_drawn = 0;
}

// the code's sources of time and randomness
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    return time_point(duration(g_now));
}
extern "C" long random(void) noexcept {
    ++g_drawn;
    if (g_rand.empty()) { g_lcg = g_lcg * 1664525u + 1013904223u; return g_lcg >> 1; }
    auto v = g_rand.front();
    g_rand.pop_front();
    return v & 0x7fffffff;
}

namespace {

template<typename V> std::string ints(const V& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { s += (i ? "," : "") + std::to_string((unsigned)(uint8_t)v[i]); }
    return s + "]";
}
std::string num(uint64_t v, int n) {
    std::string s = "[";
    for (int i = n - 1; i >= 0; --i) { s += std::to_string((v >> (16 * i)) & 0xffff) + (i ? "," : "]"); }
    return s;
}
// every value is an object with one field, the kind
std::string show(const Value& v) {
    return std::visit([](auto& x) -> std::string {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, js::Undefined>) { return "{\"undefined\":0}"; }
        else if constexpr (std::is_same_v<T, js::Null>) { return "{\"null\":0}"; }
        else if constexpr (std::is_same_v<T, bool>) { return x ? "{\"bool\":true}" : "{\"bool\":false}"; }
        else if constexpr (std::is_same_v<T, js::Num>) { 
            if (x.v >> 32 != 0 && -x.v >> 32 != 0) { return "{\"wide\":" + num(x.v, 4) + "}"; }
            return x.v >= 0 ? "{\"num\":" + num(x.v, 2) + "}" : "{\"neg\":" + num(-x.v, 2) + "}";
        }
        else if constexpr (std::is_same_v<T, js::Big>) { return "{\"big\":" + num(x.v, 4) + "}"; }
        else if constexpr (std::is_same_v<T, std::string>) { return "{\"str\":" + ints(x) + "}"; }
        else if constexpr (std::is_same_v<T, js::Buffer>) { return "{\"buf\":" + ints(x.v) + "}"; }
        else if constexpr (std::is_same_v<T, js::Arr>) {
            std::string s;
            for (auto& e : x.v) { s += (s.empty() ? "" : ",") + show(e); }
            return "{\"arr\":[" + s + "]}";
        } else {
            std::string s = "\"_\":0";
            for (auto& [k, e] : x.props) { s += "," + q(k) + ":" + show(e); }
            return "{\"obj\":{" + s + "}}";
        }
    }, v.cell().v);
}

// the text of a value: s:HEX b:HEX i:N t f n u o(key=value,..)
struct Reader {
    const std::string& s;
    size_t i = 0;
    std::string until(const char *stop) {
        std::string r;
        while (i < s.size() && !std::strchr(stop, s[i])) { r.push_back(s[i++]); }
        return r;
    }
    void take(char c) { if (i >= s.size() || s[i] != c) { bad_script("value " + s); } ++i; }
    Value value() {
        if (i >= s.size()) { bad_script("value " + s); }
        char c = s[i++];
        switch (c) {
        case 's': take(':'); return Value::make(unhexs(until(",)")));
        case 'b': take(':'); return Value::make(js::Buffer{unhex(until(",)"))});
        case 'i': take(':'); return Value::make(js::Num{std::stoll(until(",)"))});
        case 't': return Value::make(true);
        case 'f': return Value::make(false);
        case 'n': return Value::make(js::Null{});
        case 'u': return Value();
        case 'o': {
            take('(');
            js::Obj o;
            while (i < s.size() && s[i] != ')') {
                auto k = until("=");
                take('=');
                o.props[k] = value();
                if (i < s.size() && s[i] == ',') { ++i; }
            }
            take(')');
            return Value::make(std::move(o));
        }
        }
        bad_script("value " + s);
    }
};

template<typename E> std::string errtok(const E& e) {
    using P = stun::ParseError;
    std::error_code c(e.value(), e.category());
    static const std::vector<std::pair<P, const char *>> names = {
#define N(x) {P::x, #x}
        N(ok), N(invalid_message_size), N(not_padded_attributes), N(invalid_message_len), N(invalid_magic_cookie), N(invalid_attr_size),
        N(invalid_mapped_addr), N(invalid_xor_mapped_addr), N(invalid_ipv4_address_size), N(invalid_ipv6_address_size),
        N(integrity_digest_size), N(fingerprint_crc_size), N(fingerprint_is_not_last), N(fingerprint_not_valid), N(priority_attribute_size),
        N(ice_controlled_size), N(ice_controlling_size), N(use_candidate_size), N(error_code_attribute_size),
        N(unknown_attributes_attribute_size), N(unknown_addr_family), N(invalid_message_type)};
#undef N
    for (auto& [p, n] : names) { if (c == stun::make_error_code(p)) { return n; } }
    if (c == net::make_error_code(net::Error::invalid_address_size)) { return "net.invalid_address_size"; }
    if (c == craftnapi::type_error()) { return "type"; }
    return err_name(e);
}

}

int main() {
    craftnapi::Env env;
    node_stun::client_udp_class(env, "ClientUDP").unwrap();
    node_stun::server_stateless_class(env, "StatelessServer").unwrap();
    std::map<std::string, Value> objs;
    std::string l;
    auto out = [&](const craftpp::result::Result<Value>& r) {
        J j;
        j.b("ok", r.is_ok()).i("used", g_drawn);
        if (r.is_ok()) { j.raw("v", show(r.unwrap())).s("err", ""); }
        else { j.raw("v", "{\"none\":0}").s("err", errtok(r.unwrap_err())); }
        j.flush();
    };
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w.empty()) { continue; }
        g_drawn = 0;
        auto args = [&](size_t from) {
            std::vector<Value> a;
            for (size_t i = from; i < w.size(); ++i) { Reader r{w[i]}; a.push_back(r.value()); }
            return a;
        };
        if (w[0] == "T") { g_now = std::stoll(w.at(1)); J().b("ok", true).flush(); }
        else if (w[0] == "R") {
            g_rand.clear();
            for (size_t i = 1; i < w.size(); ++i) { g_rand.push_back(std::stoul(w[i])); }
            J().b("ok", true).flush();
        } else if (w[0] == "new") {       // new NAME CLASS args
            craftnapi::CallbackInfo ci{Value::make(js::Obj{}), args(3)};
            auto c = env.classes.find(w.at(2));
            if (c == env.classes.end()) { bad_script(l); }
            auto r = c->second.ctor(env, ci);
            if (r.is_ok()) { objs[w[1]] = ci.this_arg; } else { objs.erase(w[1]); }
            J().b("ok", r.is_ok()).flush();
        } else if (w[0] == "call") {      // call NAME CLASS METHOD args
            auto o = objs.find(w.at(1));
            auto c = env.classes.find(w.at(2));
            if (o == objs.end() || c == env.classes.end()) { bad_script(l); }
            auto m = c->second.methods.find(w.at(3));
            if (m == c->second.methods.end()) { bad_script(l); }
            craftnapi::CallbackInfo ci{o->second, args(4)};
            out(m->second(env, ci));
        } else if (w[0] == "fn") {        // fn NAME args
            craftnapi::CallbackInfo ci{Value(), args(2)};
            if (w.at(1) == "message_parse") { out(node_stun::message_parse(env, ci)); }
            else if (w[1] == "candidate_parse") { out(node_ice::ice_candidate_parse(env, ci)); }
            else { bad_script(l); }
        } else { bad_script(l); }
    }
    std::fflush(stdout);
    std::_Exit(0);
}
