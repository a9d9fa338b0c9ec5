// Values: equality, ordering, hashes, hash containers, type-erased hashes, wrappers, error codes.
#include <set>
#include "common.hpp"
#include <unordered_map>
#include <atomic>
#include <future>
#include <limits>
#include <thread>
#include <openssl/err.h>
#include "crypto/openssl/openssl_error.hpp"
#include "../node/node_stun/node_stun_error.hpp"
#include "../node/openssl/node_openssl_error.hpp"
#include "ice/candidate/ice_candidate_component_id.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_foundation.hpp"
#include "ice/candidate/ice_candidate_priority.hpp"
#include "ice/candidate/ice_candidate_type.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "net/net_endpoint.hpp"
#include "net/net_error.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_path_hash.hpp"
#include "net/net_port.hpp"
#include "precis/precis_opaque_string_hash.hpp"
#include "rtp/rtp_error.hpp"
#include "rtp/rtp_header.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "stat/stat_counter.hpp"
#include "stun/stun_address.hpp"
#include "stun/stun_attribute_type.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_password.hpp"
#include "stun/stun_attribute.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "util/util_error_code.hpp"
#include "util/util_token_stream.hpp"

using namespace vf;
using namespace freewebrtc;
namespace cand = freewebrtc::ice::candidate;
namespace ip = freewebrtc::net::ip;
namespace {

std::string arr(const void *p, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; ++i) { if (i) { r += ","; } r += std::to_string((unsigned)static_cast<const uint8_t *>(p)[i]); }
    return r + "]";
}
template<typename S> std::string arr(const S& s) { return arr(s.data(), s.size()); }
std::string be(uint64_t v, int n) {
    Bytes b;
    for (int i = n - 1; i >= 0; --i) { b.push_back(uint8_t(v >> (8 * i))); }
    return arr(b);
}
uint64_t num(const Bytes& b) { uint64_t v = 0; for (auto x : b) { v = v << 8 | x; } return v; }

// bytes at a given distance from an 8-byte boundary, followed and preceded by other bytes
struct Mis {
    Mis(const Bytes& b, unsigned off) : v(b.size() + 32, 0xA5 ^ off) {
        auto a = (8 - reinterpret_cast<uintptr_t>(v.data()) % 8) % 8 + off % 8;
        p = v.data() + a;
        if (!b.empty()) { std::memcpy(p, b.data(), b.size()); }
        n = b.size();
    }
    craftpp::binary::ConstView view() const { return craftpp::binary::ConstView(p, n); }
    std::vector<uint8_t> v;
    uint8_t *p;
    size_t n;
};

template<typename T> T need(Result<T>&& r, const char *what) {
    if (r.is_err()) { bad_script(what); }
    return std::move(r.unwrap());
}

// ------------------------------------------------------------ kinds of values
// content: the parts given in the script; route: how the value came about
using Parts = std::vector<Bytes>;
ip::Address mkaddr(const Bytes& b, unsigned route) {
    Mis m(b, route);
    if (route % 5 == 4) {
        ip::Address a = b.size() == 4 ? ip::Address(need(ip::AddressV4::from_view(m.view()), "v4")) : ip::Address(need(ip::AddressV6::from_view(m.view()), "v6"));
        return need(ip::Address::from_string(need(a.to_string(), "to_string")), "from_string");
    }
    if (b.size() == 4) {
        auto a = need(ip::AddressV4::from_view(m.view()), "v4");
        return route % 5 == 0 ? ip::Address(a) : route % 5 == 1 ? ip::Address(std::move(a)) : route % 5 == 2 ? ip::Address::copy_from_v4(a) : ip::Address::move_from_v4(std::move(a));
    }
    auto a = need(ip::AddressV6::from_view(m.view()), "v6");
    return route % 5 == 0 ? ip::Address(a) : route % 5 == 1 ? ip::Address(std::move(a)) : route % 5 == 2 ? ip::Address::copy_from_v6(a) : ip::Address::move_from_v6(std::move(a));
}
struct KAddr {
    using T = ip::Address;
    static T make(const Parts& p, unsigned r) { return mkaddr(p[0], r); }
    static std::string read(const T& t) { return "[" + arr(t.view()) + "]"; }
};
struct KV4 {
    using T = ip::AddressV4;
    static T make(const Parts& p, unsigned r) { Mis m(p[0], r); return need(T::from_view(m.view()), "v4"); }
    static std::string read(const T& t) { return "[" + arr(t.view()) + "]"; }
};
struct KV6 {
    using T = ip::AddressV6;
    static T make(const Parts& p, unsigned r) {
        if (r % 2) { T::Value v; std::copy(p[0].begin(), p[0].end(), v.begin()); return T(std::move(v)); }
        Mis m(p[0], r);
        return need(T::from_view(m.view()), "v6");
    }
    static std::string read(const T& t) { return "[" + arr(t.view()) + "]"; }
};
struct KPath {
    using T = net::Path;
    static T make(const Parts& p, unsigned r) { return T{mkaddr(p[0], r), mkaddr(p[1], r / 5)}; }
    static std::string read(const T& t) { return "[" + arr(t.source.view()) + "," + arr(t.target.view()) + "]"; }
};
struct KTid {
    using T = stun::TransactionId;
    static T make(const Parts& p, unsigned r) {
        Mis m(p[0], r);
        if (r % 3 == 1) { T a(m.view()); return T(a.view()); }
        return T(m.view());
    }
    static std::string read(const T& t) { return "[" + arr(t.view()) + "]"; }
};
struct KOstr {
    using T = precis::OpaqueString;
    static T make(const Parts& p, unsigned r) {
        std::string s(p[0].begin(), p[0].end());
        if (r % 4 == 0) { return T(s); }
        if (r % 4 == 1) { s.reserve(200 + 37 * (r % 11) + s.size()); return T(std::move(s)); }
        if (r % 4 == 2) { return T::copy_from(s); }
        return T::move_from(std::move(s));
    }
    static std::string read(const T& t) { return "[" + arr(t.value) + "]"; }
};
struct KTag {
    struct Tg;
    using T = util::TaggedType<uint32_t, Tg>;
    static T make(const Parts& p, unsigned r) {
        uint32_t v = num(p[0]);
        return r % 4 == 0 ? T(v) : r % 4 == 1 ? T(std::move(v)) : r % 4 == 2 ? T::copy_from(v) : T::move_from(std::move(v));
    }
    static std::string read(const T& t) { return "[" + be(t.value, 4) + "]"; }
};
#define NUMERIC(K, TT, N, MAKE, READ) struct K { using T = TT; \
    static T make(const Parts& p, unsigned) { [[maybe_unused]] uint64_t v = num(p[0]); return MAKE; } \
    static std::string read(const T& t) { return "[" + READ + "]"; } };
NUMERIC(KAttr, stun::AttributeType, 2, T::from_uint16(v), be(t.value(), 2))
rtp::PayloadType mkpt(uint64_t v) { auto r = rtp::PayloadType::from_uint8(v); if (r.is_none()) { bad_script("pt"); } return r.unwrap(); }
NUMERIC(KPt, rtp::PayloadType, 1, mkpt(v), be(t.value(), 1))
NUMERIC(KHandle, stun::client_udp::Handle, 4, (T{(unsigned)v}), be(t.value, 4))
NUMERIC(KSsrc, rtp::SSRC, 4, T::from_uint32(v), be(t.value(), 4))
NUMERIC(KPort, net::Port, 2, T::from_uint16(v), be(t.value(), 2))
NUMERIC(KMethod, stun::Method, 2, T::from_msg_type(v), be(t.to_msg_type(), 2))
NUMERIC(KComp, cand::ComponentId, 2, need(T::from_unsigned(v), "component"), be(t.value(), 2))
NUMERIC(KPrio, cand::Priority, 4, need(T::from_uint32(v), "priority"), std::string("[]"))
stun::Class mkclass(uint64_t v) { return v == 0 ? stun::Class::request() : v == 1 ? stun::Class::indication() : v == 2 ? stun::Class::success_response() : v == 3 ? stun::Class::error_response() : stun::Class::from_msg_type(v); }
NUMERIC(KClass, stun::Class, 1, mkclass(v), be((unsigned)t.value(), 1))
cand::Type mktype(uint64_t v) { return v == 0 ? cand::Type::host() : v == 1 ? cand::Type::server_reflexive() : v == 2 ? cand::Type::peer_reflexive() : cand::Type::relayed(); }
NUMERIC(KType, cand::Type, 1, mktype(v), be((unsigned)t.value(), 1))
#define TEXTUAL(K, TT) struct K { using T = TT; \
    static T make(const Parts& p, unsigned) { SBuf s(std::string(p[0].begin(), p[0].end())); return need(T::from_string(s.view()), #K); } \
    static std::string read(const T& t) { return "[" + arr(t.to_string()) + "]"; } };
TEXTUAL(KFqdn, net::Fqdn)
TEXTUAL(KFound, cand::Foundation)
struct KXor {
    using T = stun::XoredAddress;
    static T make(const Parts& p, unsigned r) { Mis m(p[0], r); return need(T::from_view(p[0].size() == 4 ? stun::Family::ipv4() : stun::Family::ipv6(), m.view()), "xored"); }
    static std::string read(const T& t) { return "[" + arr(t.view()) + "]"; }
};

template<typename H> struct KHash {
    using T = H;
    static T make(const Parts& p, unsigned r) {
        typename H::Value v;
        std::copy(p[0].begin(), p[0].end(), v.begin());
        if (r % 3 == 1) { return T(std::move(v)); }
        if (r % 3 == 2) { return T::move_from(std::move(v)); }
        Mis m(p[0], r);
        auto h = T::from_view(m.view());
        if (h.is_none()) { bad_script("hash"); }
        return h.unwrap();
    }
    static std::string read(const T& t) {
        if (arr(t.view()) != arr(t.value())) { return "[]"; }
        return "[" + arr(t.view()) + "]";
    }
};
// passwords of at most 64 bytes, the last one not zero: read back from the keys made of them
struct KPwd {
    using T = stun::Password;
    static T make(const Parts& p, unsigned) {
        return need(T::short_term(precis::OpaqueString(std::string(p[0].begin(), p[0].end())), [](const auto&) -> crypto::SHA1Hash::Result { bad_script("hash of a short password"); }), "password");
    }
    static std::string read(const T& t) {
        Bytes b, c;
        for (auto x : t.ipad().view()) { b.push_back(x ^ 0x36); }
        for (auto x : t.opad().view()) { c.push_back(x ^ 0x5c); }
        if (b != c) { return "[]"; }
        while (!b.empty() && b.back() == 0) { b.pop_back(); }
        return "[" + arr(b) + "]";
    }
};
struct KXap {
    using T = stun::XorMappedAddressAttribute;
    static T make(const Parts& p, unsigned r) { return T{KXor::make({p[0]}, r), KPort::make({p[1]}, r)}; }
    static std::string read(const T& t) { return "[" + arr(t.addr.view()) + "," + be(t.port.value(), 2) + "]"; }
};
struct KEcode {
    using T = stun::ErrorCodeAttribute;
    static T make(const Parts& p, unsigned) {
        unsigned v = num(p[0]);
        return T{v, v % 2 ? Maybe<std::string>(none()) : Maybe<std::string>(std::string("reason"))};
    }
    static std::string read(const T& t) { return "[" + be(t.code, 2) + "]"; }
};

template<typename F> bool with_kind(const std::string& k, F f) {
#define X(name, K) if (k == name) { f(K{}); return true; }
    X("addr", KAddr) X("v4", KV4) X("v6", KV6) X("path", KPath) X("tid", KTid) X("ostr", KOstr) X("tag", KTag) X("attr", KAttr) X("pt", KPt)
    X("handle", KHandle) X("ssrc", KSsrc) X("port", KPort) X("method", KMethod) X("comp", KComp) X("prio", KPrio) X("class", KClass) X("type", KType)
    X("fqdn", KFqdn) X("found", KFound) X("xor", KXor)
    X("md5", KHash<crypto::MD5Hash>) X("sha1", KHash<crypto::SHA1Hash>) X("sha256", KHash<crypto::SHA256Hash>) X("pwd", KPwd) X("xap", KXap) X("ecode", KEcode)
#undef X
    return false;
}

Parts parts(const std::string& s) {
    Parts r;
    std::string cur;
    for (char c : s + ":") { if (c == ':') { r.push_back(unhex(cur)); cur.clear(); } else { cur.push_back(c); } }
    return r;
}
template<typename K> typename K::T make(const std::string& s, unsigned route) {
    using T = typename K::T;
    T v = K::make(parts(s), route);
    switch ((route / 7) % 4) {
    case 1: { T c(v); return c; }
    case 2: { T m(std::move(v)); return m; }
    case 3: { T c(v); T d(std::move(c)); return T(d); }
    default: return v;
    }
}

// a value at a given distance from an 8-byte boundary, as far as its type allows
template<typename T> struct Placed {
    Placed(T&& t, unsigned off) : raw(new unsigned char[sizeof(T) + 64]) {
        auto a = reinterpret_cast<uintptr_t>(raw.get());
        a = (a + 15) / 16 * 16 + off % 8 / alignof(T) * alignof(T);
        p = new (reinterpret_cast<void *>(a)) T(std::move(t));
    }
    ~Placed() { p->~T(); }
    std::unique_ptr<unsigned char[]> raw;
    T *p;
};

// ------------------------------------------------------------ hash containers
// the seed drawn by the next hash made
thread_local size_t next_seed = 0;
struct SeedNext { size_t operator()() { return next_seed; } };
struct SeedA { size_t operator()() { return 0x0123456789abcdefull; } };
template<typename T, typename H> struct MapOf {
    std::unordered_map<T, int, H> m;
    explicit MapOf(H h) : m(1, h) {}
    size_t hash(const T& t) { auto h = m.hash_function(); return h(t); }
};
struct Maps {
    MapOf<ip::Address, ip::AddressHash> addr{ip::AddressHash{}};
    MapOf<net::Path, net::PathHash> path{net::PathHash{}};
    MapOf<stun::TransactionId, stun::TransactionIdHash> tid{stun::MurmurTransactionIdHash<>::create()};
    MapOf<stun::TransactionId, stun::TransactionIdHash> tids{stun::MurmurTransactionIdHash<SeedA>::create()};
    MapOf<precis::OpaqueString, precis::OpaqueStringHash> ostr{precis::OpaqueStringHash{}};
    MapOf<stun::AttributeType, std::hash<stun::AttributeType>> attr{std::hash<stun::AttributeType>{}};
    MapOf<rtp::PayloadType, std::hash<rtp::PayloadType>> pt{std::hash<rtp::PayloadType>{}};
    MapOf<stun::client_udp::Handle, stun::client_udp::HandleHash> handle{stun::client_udp::HandleHash{}};
};
template<typename F> bool with_map(Maps& m, const std::string& k, F f) {
#define X(n, K) if (k == #n) { f(K{}, m.n); return true; }
    X(addr, KAddr) X(path, KPath) X(tid, KTid) X(tids, KTid) X(ostr, KOstr) X(attr, KAttr) X(pt, KPt) X(handle, KHandle)
#undef X
    return false;
}

// ------------------------------------------------------------ type-erased hashes
struct Key { uint32_t v; };
template<int K> struct Algo : util::hash::dynamic::Algorithm<Key> {
    std::size_t hash(const Key& k) const noexcept override {
        uint64_t h = uint64_t(k.v) * (2 * K + 1) + K;
        return h << 32 | h;
    }
};
// the same algorithm for another type of key
struct Key2 { uint32_t v; };
template<int K> struct Algo2 : util::hash::dynamic::Algorithm<Key2> {
    std::size_t hash(const Key2& k) const noexcept override {
        uint64_t h = uint64_t(k.v) * (2 * K + 1) + K;
        return h << 32 | h;
    }
};
template<typename T, template<int> class A> struct Dyn {
    using H = util::hash::dynamic::Hash<T>;
    std::vector<std::unique_ptr<H>> h = std::vector<std::unique_ptr<H>>(8);
    template<int K> H mk() { return H::template create<util::hash::dynamic::AlgorithmSingleton<T, A<K>>>(); }
    // other: by a thread that is over before the hash is used
    void create(int i, int k, bool other) {
        if (other) { std::thread([&] { create(i, k, false); }).join(); return; }
        H v = k == 0 ? mk<0>() : k == 1 ? mk<1>() : k == 2 ? mk<2>() : mk<3>();
        h[i] = std::make_unique<H>(std::move(v));
    }
    void copy(int i, int j) { auto n = std::make_unique<H>(*h[j]); h[i] = std::move(n); }
    void move(int i, int j) { auto n = std::make_unique<H>(std::move(*h[j])); h[i] = std::move(n); }
    size_t call(int i, uint32_t v) {
        const H& c = *h[i];
        H again = c;
        size_t a = c(T{v}), b = again(T{v});
        // one key object, of another value before
        T key{v + 1};
        size_t o = c(key);
        key.v = v;
        size_t d = c(key);
        return a == b && a == d && o != a ? a : ~size_t(0);
    }
};

// ------------------------------------------------------------ wrappers
struct BTag;
template<typename F> std::string each(uint32_t from, uint32_t n, uint32_t step, F f) {
    std::string r = "[";
    for (uint32_t i = 0; i < n; ++i) { if (i) { r += ","; } r += f(uint32_t(from + i * step)); }
    return r + "]";
}
std::string l32(uint32_t v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]"; }
std::string rtpword(uint32_t v);
std::string sweep(const std::string& k, uint32_t from, uint32_t n, uint32_t step) {
    auto B = [](bool b) { return std::string(b ? "true" : "false"); };
    if (k == "seq") { return each(from, n, step, [](uint32_t v) { return l32(rtp::SequenceNumber::from_uint16(v).value()); }); }
    if (k == "ts") { return each(from, n, step, [](uint32_t v) { auto t = rtp::Timestamp::from_uint32(v, rtp::ClockRate(v ^ 0x55)); auto c = t; return l32(c.value()); }); }
    if (k == "ssrc") { return each(from, n, step, [](uint32_t v) { return l32(rtp::SSRC::from_uint32(v).value()); }); }
    if (k == "rate") { return each(from, n, step, [](uint32_t v) { return l32(rtp::ClockRate(v).count()); }); }
    if (k == "attr") { return each(from, n, step, [&](uint32_t v) { auto t = stun::AttributeType::from_uint16(v); return "[" + l32(t.value()) + "," + B(t.is_comprehension_required()) + "]"; }); }
    if (k == "port") { return each(from, n, step, [](uint32_t v) { return v & 1 ? l32(net::Port(v).value()) : l32(net::Port::from_uint16(v).value()); }); }
    if (k == "pt") { return each(from, n, step, [&](uint32_t v) { auto t = rtp::PayloadType::from_uint8(v); return t.is_some() ? l32(t.unwrap().value()) : std::string("[]"); }); }
    if (k == "handle") { return each(from, n, step, [](uint32_t v) { return l32(stun::client_udp::Handle{v}.value); }); }
    if (k == "family") { return each(from, n, step, [&](uint32_t v) { auto t = stun::Family::from_uint8(v); return t.is_ok() ? "[" + std::to_string(t.unwrap().to_uint8()) + "," + B(t.unwrap().type() == stun::Family::IPv4) + "]" : std::string("[]"); }); }
    if (k == "comp") { return each(from, n, step, [&](uint32_t v) { auto t = cand::ComponentId::from_unsigned(v); return t.is_ok() ? l32(t.unwrap().value()) : std::string("[]"); }); }
    if (k == "mtype") { return each(from, n, step, [&](uint32_t v) {
        auto c = stun::Class::from_msg_type(v);
        auto m = stun::Method::from_msg_type(v);
        return "[" + std::to_string((int)c.value()) + "," + std::to_string(c.to_msg_type()) + "," + std::to_string(m.to_msg_type()) + "," + B(m == stun::Method::binding()) + "]"; }); }
    if (k == "rtp") { return each(from, n, step, rtpword); }
    bad_script("sweep " + k);
}

// a packet of this first word and 19 words of zeroes, the last byte 1: its header and the length of its payload
template<size_t... I> rtp::PayloadMap allmap(std::index_sequence<I...>) {
    return rtp::PayloadMap(rtp::PayloadMap::PairInitializer{{mkpt(I), rtp::PayloadMapItem{rtp::ClockRate(8000 + I)}}...});
}
std::string rtpword(uint32_t v) {
    static const rtp::PayloadMap map = allmap(std::make_index_sequence<128>{});
    Bytes b(80, 0);
    for (int i = 0; i < 4; ++i) { b[i] = uint8_t(v >> (24 - 8 * i)); }
    b[79] = 1;
    Buf buf(b);
    rtp::ParseStat st;
    auto r = rtp::Packet::parse(buf.view(), map, st);
    if (r.is_err()) { return "[]"; }
    const auto& p = r.unwrap();
    std::string o = "[";
    for (long long x : {(long long)(bool)p.header.marker, (long long)p.header.payload_type.value(), (long long)p.header.sequence.value(), (long long)p.header.csrcs.size(),
                        (long long)p.header.maybe_extension.is_some(), (long long)p.payload.count}) { o += (o.size() > 1 ? "," : "") + std::to_string(x); }
    return o + "]";
}

// ------------------------------------------------------------ error codes
struct CatInfo {
    const char *name;
    std::vector<std::pair<std::string, std::error_code>> codes;
    std::vector<int> values;
};
template<typename E, typename M> void add(CatInfo& c, const char *n, E e, M mk) { c.codes.emplace_back(n, mk(e)); c.values.push_back((int)e); }
std::vector<CatInfo> make_cats() {
        std::vector<CatInfo> r;
        auto cat = [&](const char *n) { r.push_back({n, {}, {}}); };
#define X(x) add(r.back(), #x, E::x, [](E e) { return make_error_code(e); });
        { cat("stun parse"); using E = stun::ParseError; X(ok) X(invalid_message_size) X(not_padded_attributes) X(invalid_message_len) X(invalid_magic_cookie) X(invalid_attr_size)
          X(invalid_mapped_addr) X(invalid_xor_mapped_addr) X(invalid_ipv4_address_size) X(invalid_ipv6_address_size) X(integrity_digest_size) X(fingerprint_crc_size)
          X(fingerprint_is_not_last) X(fingerprint_not_valid) X(priority_attribute_size) X(ice_controlled_size) X(ice_controlling_size) X(use_candidate_size)
          X(error_code_attribute_size) X(unknown_attributes_attribute_size) X(unknown_addr_family) X(invalid_message_type) }
        { cat("stun client"); using E = stun::ClientError; X(ok) X(no_integrity_attribute_in_response) X(digest_is_not_valid) X(transaction_not_found) X(no_address_in_response)
          X(no_error_code_in_response) X(no_alternate_server_in_response) }
        { cat("rtp"); using E = rtp::Error; X(ok) X(packet_is_too_short) X(unknown_packet_version) X(invalid_payload_type) X(unknown_rtp_clock) X(invalid_extension_length) X(invalid_packet_padding) }
        { cat("net"); using E = net::Error; X(ok) X(invalid_address_size) X(ip_address_parse_error) X(fqdn_invalid_label_expect_letter) X(fqdn_not_fully_parsed) X(invalid_port_value) }
        { cat("candidate"); using E = cand::Error; X(ok) X(invalid_attr_prefix) X(invalid_candidate_parts_number) X(candidate_type_absent) X(unknown_candidate_type) X(invalid_foundation_length)
          X(invalid_foundation_char) X(invalid_component_id_length) X(invalid_component_id_char) X(invalid_component_id_value) X(unknown_transport_type) X(invalid_priority_length)
          X(invalid_priority_value) X(invalid_type_preference_value) X(invalid_component_preference_value) X(invalid_local_preference_value) }
        { cat("util"); using E = util::ErrorCode; X(ok) X(value_required_in_maybe) }
        { cat("node stun"); using E = node_stun::Error; X(ok) X(unknown_stun_method) X(unknown_stun_class) X(invalid_ip_address) X(invalid_port_number) }
#undef X
        { cat("token stream"); using E = util::TokenStream::Error;
          // errors of token streams are made by streams only: the category comes from one, and must carry what the stream was asked for
          util::TokenStream t{util::TokenStream::Container{}};
          auto e1 = t.required();
          std::error_code c1(e1.unwrap_err().value(), e1.unwrap_err().category());
          util::TokenStream t2{util::TokenStream::Container{"x"}};
          auto e2 = t2.required("y");
          std::error_code c2(e2.unwrap_err().value(), e2.unwrap_err().category());
          auto mk = [](std::error_code c) { return [c](E) { return c; }; };
          add(r.back(), "ok", E::ok, mk(std::error_code(0, c1.category())));
          add(r.back(), "no_required_token", E::no_required_token, mk(c1));
          add(r.back(), "expected_token_missed", E::expected_token_missed, mk(c2)); }
        return r;
}
const std::vector<CatInfo>& cats() {
    static const std::vector<CatInfo> all = make_cats();
    return all;
}
unsigned catid(const std::error_category& c) {
    static thread_local std::vector<const std::error_category *> seen;
    for (unsigned i = 0; i < seen.size(); ++i) { if (*seen[i] == c) { return i; } }
    seen.push_back(&c);
    return seen.size() - 1;
}
std::string str(const char *s) { return arr(s, std::strlen(s)); }
void codes(J& j, const CatInfo& c) {
    const auto& category = c.codes[0].second.category();
    j.s("cat", c.name).raw("name", str(category.name())).i("id", catid(category));
    std::string r = "[";
    for (size_t i = 0; i < c.codes.size(); ++i) {
        const auto& [n, e] = c.codes[i];
        J x;
        x.s("n", n).i("want", c.values[i]).i("v", e.value()).i("cat", catid(e.category())).b("set", static_cast<bool>(e)).raw("msg", arr(e.message())).raw("dec", arr(std::to_string(e.value())))
         .b("same", e.message() == e.category().message(e.value()) && e == std::error_code(c.values[i], category));
        r += (i ? "," : "") + x.str();
    }
    j.raw("codes", r + "]");
}
// OpenSSL's own texts, and a library of ours with long ones: reason n is n characters long
const int our_library = [] {
    OPENSSL_init_crypto(OPENSSL_INIT_LOAD_CRYPTO_STRINGS, nullptr);
    int lib = ERR_get_next_error_library();
    static std::vector<std::string> texts;
    static std::vector<ERR_STRING_DATA> data;
    for (int n = 10; n <= 180; n += 10) {
        std::string t;
        while ((int)t.size() < n) { t += std::to_string(n + t.size()) + " "; }
        texts.push_back(t.substr(0, n));
    }
    for (size_t i = 0; i < texts.size(); ++i) { data.push_back({ERR_PACK(0, 0, (int)(10 + 10 * i)), texts[i].c_str()}); }
    data.push_back({0, nullptr});
    ERR_load_strings(lib, data.data());
    return lib;
}();
unsigned long_error(int n) { return ERR_PACK(our_library, 0, n); }
std::string openssl(unsigned v) {
    char buf[256];
    ERR_error_string_n(v, buf, sizeof(buf));
    return buf;
}

}

static int session() {
    std::unique_ptr<Maps> maps;
    std::unique_ptr<Dyn<Key, Algo>> d1;
    std::unique_ptr<Dyn<Key2, Algo2>> d2;
    stat::Counter counter;
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        J j;
        const auto& op = w[0];
        if (op == "R") {
            maps = std::make_unique<Maps>();
            d1 = std::make_unique<Dyn<Key, Algo>>();
            d2 = std::make_unique<Dyn<Key2, Algo2>>();
            counter = stat::Counter{};
            j.s("e", "reset");
        } else if (op == "cmp") {   // cmp kind routeA partsA routeB partsB
            if (!with_kind(w[1], [&](auto k) {
                using K = decltype(k);
                using T = typename K::T;
                const T a = make<K>(w[3], std::stoul(w[2])), b = make<K>(w[5], std::stoul(w[4]));
                j.s("e", "cmp").b("eq", a == b).b("ne", a != b).b("qe", b == a).b("self", a == a && b == b).raw("ra", K::read(a)).raw("rb", K::read(b));
                if constexpr (std::is_same_v<T, stun::client_udp::Handle>) {
                    j.ints("ord", std::vector<int>{a < b, a <= b, a > b, a >= b, (a <=> b) == 0});
                } else { j.raw("ord", "[]"); }
            })) { bad_script(line); }
        } else if (op == "hash" || op == "put" || op == "emp" || op == "del" || op == "get") {   // op map route parts [value]
            if (!with_map(*maps, w[1], [&](auto k, auto& m) {
                using K = decltype(k);
                Placed<typename K::T> at(make<K>(w[3], std::stoul(w[2])), std::stoul(w[2]) / 3);
                auto& key = *at.p;
                if (op == "hash") { j.s("e", "hash").ints("h", limbs64(m.hash(key))); return; }
                if (op == "put") { m.m.insert_or_assign(key, std::stoi(w[4])); j.s("e", "put"); }
                if (op == "emp") { auto r = m.m.emplace(std::move(key), std::stoi(w[4])); j.s("e", "emp").b("new", r.second); }
                if (op == "del") { j.s("e", "del").i("n", m.m.erase(key)); }
                if (op == "get") { auto it = m.m.find(key); j.s("e", "get").raw("v", it == m.m.end() ? "[]" : "[" + std::to_string(it->second) + "]"); }
                j.i("size", m.m.size());
            })) { bad_script(line); }
        } else if (op == "seeded") {    // seeded seed tid: the hash of an id by an algorithm that draws this seed
            next_seed = std::stoull(w[1], nullptr, 16);
            const stun::MurmurTransactionIdHash<SeedNext> h;
            next_seed = 0;
            j.s("e", "seeded").ints("h", limbs64(h.hash(make<KTid>(w[2], 0))));
        } else if (op == "murmur") {    // murmur seed hex
            Buf b(unhex(w[2]));
            j.s("e", "hash").ints("h", limbs64(util::hash::murmur(b.view(), std::stoull(w[1], nullptr, 16))));
        } else if (op == "dist") {      // dist map content...: how many different hashes they have
            std::set<size_t> hs;
            for (size_t i = 2; i < w.size(); ++i) {
                if (!with_map(*maps, w[1], [&](auto k, auto& m) { hs.insert(m.hash(make<decltype(k)>(w[i], 0))); })) { bad_script(line); }
            }
            j.s("e", "dist").i("contents", w.size() - 2).i("hashes", hs.size());
        } else if (op == "distseed") {  // distseed tid seed...
            std::set<size_t> hs;
            for (size_t i = 2; i < w.size(); ++i) {
                next_seed = std::stoull(w[i], nullptr, 16);
                const stun::MurmurTransactionIdHash<SeedNext> h;
                hs.insert(h.hash(make<KTid>(w[1], 0)));
            }
            j.s("e", "dist").i("seeds", w.size() - 2).i("hashes", hs.size());
        } else if (op == "cnt") {
            j.s("e", "count");
        } else if (op == "dump") {
            if (!with_map(*maps, w[1], [&](auto k, auto& m) {
                std::string r = "[";
                for (auto& [key, v] : m.m) { r += (r.size() > 1 ? ",[" : "[") + decltype(k)::read(key) + "," + std::to_string(v) + "]"; }
                j.s("e", "dump").raw("all", r + "]");
            })) { bad_script(line); }
        } else if (op == "dyn") {   // dyn 1|2 new i k | copy i j | move i j | call i v
            auto go = [&](auto& d) {
                int i = std::stoi(w[3]), x = std::stoi(w[4]);
                j.s("e", "dyn").s("op", w[2]).i("i", i).i("x", x);
                if (w[2] == "new" || w[2] == "newt") { d.create(i, x, w[2] == "newt"); }
                else if (w[2] == "copy") { d.copy(i, x); }
                else if (w[2] == "move") { d.move(i, x); }
                else if (w[2] == "call") { j.ints("h", limbs64(d.call(i, x))); }
                else { bad_script(line); }
            };
            j.i("t", std::stoi(w[1]));
            if (w[1] == "1") { go(*d1); } else { go(*d2); }
        } else if (op == "sweep") {   // sweep kind from n step
            uint32_t from = std::stoul(w[2]), n = std::stoul(w[3]), step = std::stoul(w[4]);
            j.s("e", "sweep").s("k", w[1]).ints("from", limbs32(from)).ints("step", limbs32(step)).raw("v", sweep(w[1], from, n, step));
        } else if (op == "bool") {
            bool v = w[1] == "1";
            util::TypedBool<BTag> b(v);
            rtp::MarkerBit m{util::TypedBool<rtp::MarkerTag>(v)};
            auto c = b;
            util::TypedBool<BTag> o(!v);
            o = c;
            j.s("e", "bool").b("want", v).ints("v", std::vector<int>{bool(b), bool(c), bool(o), bool(m), b ? 1 : 0, !b ? 0 : 1});
        } else if (op == "inc") {
            int n = std::stoi(w[1]);
            for (int i = 0; i < n; ++i) { counter.inc(); }
            auto c = counter;
            if (n % 2) { c.inc(); }
            j.s("e", "inc").i("n", n).i("v", counter.count()).i("c", c.count());
        } else if (op == "ep") {   // ep udp|tcp route addr port how
            auto a = mkaddr(unhex(w[3]), std::stoul(w[2]));
            net::Port p(std::stoul(w[4]));
            auto mk = [&]() -> net::Endpoint {
                if (w[1] == "udp") { net::UdpEndpoint e{a, p}; return w[5] == "c" ? net::Endpoint(e) : net::Endpoint(std::move(e)); }
                net::TcpEndpoint e{a, p};
                return w[5] == "c" ? net::Endpoint(e) : net::Endpoint(std::move(e));
            };
            net::Endpoint e = mk();
            j.s("e", "ep").b("udp", e.is_udp()).raw("a", arr(e.address().view())).i("p", e.port().value());
        } else if (op == "tidgen") {   // tidgen 0|1 words...: generated ids take the words drawn, in order
            struct { std::vector<uint32_t> v; size_t i = 0; uint32_t operator()() { return i < v.size() ? v[i++] : (++i, 0xDEADBEEF); } } g;
            for (size_t i = 2; i < w.size(); ++i) { g.v.push_back(std::stoul(w[i])); }
            auto t = w[1] == "0" ? stun::TransactionId::generate(g) : stun::TransactionId::generate_rfc3489(g);
            j.s("e", "tidgen").i("drawn", g.i).raw("v", arr(t.view()));
        } else if (op == "codes") {
            codes(j.s("e", "codes"), cats().at(std::stoul(w[1])));
        } else if (op == "out") {   // out cat value: messages of values outside the enumeration
            const auto& c = cats().at(std::stoul(w[1]));
            int v = std::stol(w[2]);
            std::error_code e(v, c.codes[0].second.category());
            j.s("e", "out").s("cat", c.name).i("v", e.value()).b("set", static_cast<bool>(e)).raw("msg", arr(e.message())).raw("dec", arr(std::to_string(v)));
        } else if (op == "eqs") {   // all codes of all categories against each other
            std::vector<std::error_code> all;
            std::string ids = "[", m = "[";
            for (auto& c : cats()) { for (auto& [n, e] : c.codes) { all.push_back(e); ids += (ids.size() > 1 ? "," : "") + q(std::string(c.name) + "/" + n); } }
            // the same codes, made in another thread (which is over by now)
            std::vector<std::error_code> there;
            std::thread([&] { for (auto& c : make_cats()) { for (auto& [n, e] : c.codes) { there.push_back(e); } } }).join();
            for (auto& a : all) { m += m.size() > 1 ? ",[" : "["; for (size_t i = 0; i < all.size(); ++i) { m += i ? "," : ""; m += (a == all[i]) != (a != all[i]) && (a == there[i]) == (a == all[i]) && (there[i] == a) == (a == all[i]) ? a == all[i] ? "1" : "0" : "2"; } m += "]"; }
            // against the conditions of all of them, and against everything the standard knows
            std::string cm = "[", foreign = "[";
            for (size_t n = 0; n < all.size(); ++n) {
                const auto& a = all[n];
                cm += n ? ",[" : "[";
                for (size_t i = 0; i < all.size(); ++i) {
                    const std::error_condition c = all[i].default_error_condition(), d(all[i].value(), all[i].category());
                    cm += i ? "," : "";
                    cm += (a == c) == (a == d) && (c == a) == (a == c) && (a != c) != (a == c) ? a == c ? "1" : "0" : "2";
                }
                cm += "]";
                bool f = false;
                for (int v = 0; a && v < 200; ++v) {
                    f = f || a == static_cast<std::errc>(v) || a == std::error_code(v, std::system_category()) || a == std::error_code(v, std::generic_category())
                        || a == std::error_condition(v, std::system_category());
                }
                f = f || a == std::io_errc::stream || a == std::future_errc::broken_promise || a == std::future_errc::no_state;
                if (f) { foreign += (foreign.size() > 1 ? "," : "") + std::to_string(n); }
            }
            j.s("e", "eqs").raw("ids", ids + "]").raw("eq", m + "]").raw("cond", cm + "]").raw("foreign", foreign + "]");
        } else if (op == "talk") {   // talk n: descriptions asked for by several threads at once
            std::vector<std::error_code> all;
            for (auto& c : cats()) { for (auto& [n, e] : c.codes) { all.push_back(e); all.emplace_back(e.value() + 100000, e.category()); } }
            for (unsigned v : {1u, 2u, 0x0308010Cu, 0x1e08010cu, 0x02000079u, 0x80000002u, long_error(40), long_error(150)}) {
                all.push_back(crypto::openssl::make_error_code((int)v));
                all.push_back(crypto::node_openssl::make_error_code((int)v));
            }
            std::vector<std::string> want;
            for (auto& e : all) { want.push_back(e.message() + "/" + e.category().name()); }
            std::atomic<int> wrong{0}, ready{0};
            std::vector<std::thread> th;
            for (int t = 0; t < 4; ++t) {
                th.emplace_back([&, t] {
                    ++ready;
                    while (ready < 4) {}
                    for (size_t n = 0, k = std::stoul(w[1]) * all.size(); n < k; ++n) {
                        // neighbours at the same time, then anything
                        size_t i = n % (2 * all.size()) < all.size() ? (n + t) % all.size() : all.size() - 1 - (n * 7 + t) % 16;
                        if (all[i].message() + "/" + all[i].category().name() != want[i]) { ++wrong; }
                    }
                });
            }
            for (auto& t : th) { t.join(); }
            j.s("e", "talk").i("wrong", wrong);
        } else if (op == "ossl") {   // ossl 0|1 value (0: of the library, 1: of the node bindings)
            uint32_t v = w[2][0] == 'L' ? long_error(std::stoi(w[2].substr(1))) : std::stoul(w[2]);
            auto e = w[1] == "0" ? crypto::openssl::make_error_code((int)v) : crypto::node_openssl::make_error_code((int)v);
            auto o = w[1] == "0" ? crypto::node_openssl::make_error_code((int)v) : crypto::openssl::make_error_code((int)v);
            bool other = e != o;
            for (auto& c : cats()) { other = other && e != std::error_code((int)v, c.codes[0].second.category()) && std::string(e.category().name()) != c.codes[0].second.category().name(); }
            j.s("e", "ossl").ints("v", limbs32((uint32_t)e.value())).ints("want", limbs32(v)).b("set", static_cast<bool>(e)).raw("name", str(e.category().name()))
             .b("other", other).raw("msg", arr(e.message())).raw("oracle", arr(openssl(v)));
        } else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
