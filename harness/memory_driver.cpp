// How much memory the library keeps: long runs of the real client, server and parsers, with the heap in use measured
// at points of the run.  One command per line on stdin, one JSON line per command on stdout.
#include <algorithm>
#include <array>
extern "C" size_t __sanitizer_get_current_allocated_bytes();   // of the address sanitizer
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include "common.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_server_stateless.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "net/net_fqdn.hpp"
#include "net/ip/ip_address.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include <openssl/sha.h>

using namespace freewebrtc;
using namespace vf;
using stun::ClientUDP;

namespace {

crypto::SHA1Hash::Result raw_sha1(const crypto::SHA1Hash::Input& in) {
    SHA_CTX c;
    SHA1_Init(&c);
    for (auto& v : in) { SHA1_Update(&c, v.data(), v.size()); }
    crypto::SHA1Hash::Value out;
    SHA1_Final(out.data(), &c);
    return crypto::SHA1Hash::move_from(std::move(out));
}

long long heap() { return (long long)__sanitizer_get_current_allocated_bytes(); }

// bytes and pieces asked for since the hooks were installed
long long asked = 0, pieces = 0;
void on_malloc(const volatile void *, size_t n) { asked += (long long)n; ++pieces; }
void on_free(const volatile void *) {}

struct Rnd {
    uint64_t x;
    using result_type = uint32_t;
    static constexpr uint32_t min() { return 0; }
    static constexpr uint32_t max() { return 0xffffffffu; }
    uint32_t operator()() { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return uint32_t((z ^ (z >> 31)) >> 16); }
};

net::ip::Address address(uint32_t n, bool six) {
    std::array<uint8_t, 16> b{0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8};
    size_t at = six ? 12 : 0;
    for (int i = 0; i < 4; ++i) { b[at + i] = uint8_t(n >> (24 - 8 * i)); }
    if (six) { return net::ip::AddressV6::from_view(util::ConstBinaryView(b.data(), 16)).unwrap(); }
    return net::ip::AddressV4::from_view(util::ConstBinaryView(b.data(), 4)).unwrap();
}

// STUN messages made by hand
struct Msg {
    Bytes b;
    Msg(unsigned type, const uint8_t *tid) : b{uint8_t(type >> 8), uint8_t(type), 0, 0, 0x21, 0x12, 0xa4, 0x42} { b.insert(b.end(), tid, tid + 12); }
    Msg& attr(unsigned type, const Bytes& v) {
        for (unsigned x : {type >> 8, type & 255, unsigned(v.size() >> 8), unsigned(v.size() & 255)}) { b.push_back(uint8_t(x)); }
        b.insert(b.end(), v.begin(), v.end());
        while (b.size() % 4) { b.push_back(0); }
        size_t n = b.size() - 20;
        b[2] = uint8_t(n >> 8);
        b[3] = uint8_t(n);
        return *this;
    }
    util::ConstBinaryView view() const { return util::ConstBinaryView(b.data(), b.size()); }
};
Bytes str(const char *s) { return Bytes(s, s + std::strlen(s)); }

// the end of each transaction of a run
enum Kind { Sample, Backoff, Refused, Server5xx, Timeout, UnknownAttr, Nowhere, Elsewhere, NoCode, KINDS };
const char *KINDNAMES[] = {"sample", "backoff", "refused", "server", "timeout", "unknown", "nowhere", "elsewhere", "nocode"};

struct Client {
    std::unique_ptr<ClientUDP> cl;
    long long base, t = 0;
    clock::Timepoint now() const { return clock::Timepoint::epoch().advance(std::chrono::microseconds(base + t)); }
    std::string wrong;
    long ended = 0;
    unsigned live = 0;
    void answer(const Bytes& b) { (void)cl->response(now(), util::ConstBinaryView(b.data(), b.size())); }
    void answer(const Msg& m) { (void)cl->response(now(), m.view()); }
    // effects of now, to the last; the requests sent, sleep is the time to wait
    struct Now { std::vector<Bytes> sent; unsigned ends = 0; long long sleep = -1; };
    Now effects() {
        Now r;
        for (int i = 0; i < 100000; ++i) {
            auto ef = cl->next(now());
            if (auto *p = std::get_if<ClientUDP::SendData>(&ef)) { r.sent.emplace_back(p->message_view.begin(), p->message_view.end()); }
            else if (auto *p = std::get_if<ClientUDP::Sleep>(&ef)) { r.sleep = (long long)p->sleep.count(); return r; }
            else if (std::holds_alternative<ClientUDP::Idle>(ef)) { return r; }
            else { ++r.ends; ++ended; --live; }
        }
        wrong = "effects without end";
        return r;
    }
    // time passes until the next request is sent or a transaction ends
    Now wait() {
        for (int i = 0; i < 100000; ++i) {
            auto e = effects();
            if (!e.sent.empty() || e.ends) { return e; }
            if (e.sleep < 0) { wrong = "nothing to wait for"; return e; }
            t += e.sleep > 0 ? e.sleep : 1;
        }
        wrong = "waits without end";
        return {};
    }
    bool create(long i, long paths, bool six, bool auth, Rnd& rnd) {
        const uint32_t p = paths ? uint32_t(i % paths) : uint32_t(i);
        ClientUDP::Request rq{net::Path{address(0x0a000000u, six), address(0x0b000000u + p, six)}, {}, {}, none()};
        if (auth) {
            auto pw = stun::Password::short_term(precis::OpaqueString{std::string("pass")}, raw_sha1);
            rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{std::string("a user")}, stun::IntegrityData{pw.unwrap(), raw_sha1}};
        }
        rq.attrs.emplace_back(stun::SoftwareAttribute{std::string("software of this client, some length")});
        if (cl->create(rnd, now(), std::move(rq)).is_err()) { wrong = "create"; return false; }
        ++live;
        return true;
    }
    // several transactions at once: answered, refused, answered after a retransmission, or left alone
    void wave(long i, long together, long paths, bool six, Rnd& rnd) {
        for (long j = 0; j < together; ++j) { if (!create(i * together + j, paths, six, false, rnd)) { return; } }
        auto e = effects();
        if ((long)e.sent.size() != together) { wrong = "send"; return; }
        auto end = [&](long j) {
            const auto *tid = e.sent[j].data() + 8;
            if (j % 2) { answer(Msg(0x0101, tid).attr(0x0001, {0, 1, 1, 2, 10, 0, 0, 1})); } else { answer(Msg(0x0111, tid).attr(0x0009, {0, 0, 4, 0})); }
        };
        t += 1000;
        for (long j = 0; j < together; ++j) { if (j % 8 < 4) { end(j); } }
        effects();
        if (live) { wait(); }
        for (long j = together; j-- > 0;) { if (j % 8 > 3 && j % 8 < 7) { end(j); } }
        while (wrong.empty() && live) { wait(); }
    }
    void transaction(Kind k, long i, long paths, bool six, bool auth, Rnd& rnd) {
        if (!create(i, paths, six, auth, rnd)) { return; }
        auto e = effects();
        if (e.sent.size() != 1 || e.sent[0].size() < 20) { wrong = "send"; return; }
        const Bytes req = e.sent[0];
        const auto *tid = req.data() + 8;
        auto ok = [&] { return Msg(0x0101, tid).attr(0x0001, {0, 1, 1, 2, 10, 0, 0, 1}).attr(0x8022, str("some server")); };
        auto err = [&](unsigned code) { return Msg(0x0111, tid).attr(0x0009, {0, 0, uint8_t(code / 100), uint8_t(code % 100), 'w', 'h', 'y'}); };
        const auto end = ended + 1;
        // not for this transaction, or not a response, or nothing at all
        Bytes other(12, uint8_t(i));
        answer(Msg(0x0101, other.data()).attr(0x0001, {0, 1, 1, 2, 10, 0, 0, 1}));
        answer(req);
        answer(Bytes(i % 40, uint8_t(i)));
        if (auth && i % 7) {    // responses are not signed: refused, and it times out
            answer(ok());
            while (wrong.empty() && ended < end) { wait(); }
            return;
        }
        t += 1000;
        switch (k) {
        case Backoff: while (wrong.empty() && ended < end && wait().sent.empty()) {} [[fallthrough]];
        case Sample: answer(ok()); break;
        case Refused: answer(err(i % 2 ? 400 : 420)); break;
        case Server5xx: for (int n = 0; n < 1000 && wrong.empty() && ended < end; ++n) { answer(err(500)); wait(); } break;
        case Timeout: break;
        case UnknownAttr: answer(Msg(0x0101, tid).attr(0x0002, {1, 2, 3}).attr(0x0003, {})); break;
        case Nowhere: answer(Msg(0x0101, tid).attr(0x8022, str("x"))); break;
        case Elsewhere: answer(Msg(0x0111, tid).attr(0x0009, {0, 0, 3, 0}).attr(0x8023, {0, 1, 1, 2, 10, 0, 0, 1})); break;
        case NoCode: answer(Msg(0x0111, tid)); break;
        case KINDS: break;
        }
        if (k == Timeout || auth) { while (wrong.empty() && ended < end) { wait(); } } else { effects(); }
        if (ended < end && wrong.empty()) { wrong = "no end"; }
    }
};

// C kind paths n dt rc cap t5 m5 rto0 hdur six auth seed together
std::string client(const std::vector<std::string>& w, long n, std::vector<long long>& at) {
    const auto num = [&](size_t i) { return std::stoll(w[i]); };
    const long paths = num(2);
    auto run = [&](long n, std::vector<long long> *at) {
        const auto before = heap();
        Client c;
        ClientUDP::Settings s{};
        stun::client_udp::Settings::RetransmitDefault d;
        d.request_count = num(5);
        d.retransmission_multiplier = 2;
        d.max_rto = clock::NativeDuration{num(6)};
        d.server_error_timeout = clock::NativeDuration{num(7)};
        d.server_error_max_retransmits = num(8);
        s.retransmit = d;
        s.rto_settings.initial_rto = clock::NativeDuration{num(9)};
        s.rto_settings.history_duration = clock::NativeDuration{num(10)};
        s.allow_unauthenticated_alternate = false;
        c.cl = std::make_unique<ClientUDP>(s);
        c.base = 1000000;
        Rnd rnd{(uint64_t)num(13)};
        size_t q = 0;
        for (long i = 0; i < n && c.wrong.empty(); ++i) {
            int k = 0;
            while (k < KINDS && w[1] != KINDNAMES[k]) { ++k; }
            if (k == KINDS) { k = int(i % KINDS); }    // "all"
            if (num(14) > 1) { c.wave(i, num(14), paths, num(11), rnd); } else { c.transaction(Kind(k), i, paths, num(11), num(12), rnd); }
            c.t += num(4);
            if (at && q < 4 && i + 1 >= long((q + 1) * n / 4)) {
                c.effects();
                at->push_back(heap() - before);
                ++q;
            }
        }
        if (c.wrong.empty() && c.live) { c.wrong = "transactions that do not end"; }
        return c.wrong;
    };
    at.reserve(8);
    auto e = run(50, nullptr);
    return e.empty() ? run(n, &at) : e;
}

// S kind users n
std::string server(const std::vector<std::string>& w, long n, std::vector<long long>& at) {
    using St = stun::server::Stateless;
    const long users = std::stol(w[2]);
    at.reserve(8);
    auto run = [&](long n, std::vector<long long> *at) -> std::string {
        const auto before = heap();
        auto srv = std::make_unique<St>(raw_sha1, St::Settings{});
        auto name = [](long i) { return "user number " + std::to_string(i) + " of this server"; };
        auto add = [&](long i, const std::string& pass) { srv->add_user(precis::OpaqueString{name(i)}, stun::Password::short_term(precis::OpaqueString{pass}, raw_sha1).unwrap()); };
        for (long i = 0; i < users; ++i) { add(i, "first"); }
        size_t q = 0;
        for (long i = 0; i < n; ++i) {
            const std::string kinds[] = {"plain", "signed", "stranger", "unknown", "garbage", "indication", "update"};
            const auto k = w[1] == "all" ? kinds[i % 7] : w[1];
            uint8_t tid[12];
            for (int j = 0; j < 12; ++j) { tid[j] = uint8_t((uint64_t)i * 2654435761u >> (j % 8 * 5)); }
            const net::Endpoint from(net::UdpEndpoint{address(0x0c000000u + uint32_t(i), i % 3 == 0), net::Port::from_uint16(uint16_t(i))});
            auto serve = [&](const Bytes& b) {
                auto r = srv->process(from, util::ConstBinaryView(b.data(), b.size()));
                if (auto *p = std::get_if<St::Respond>(&r)) { return p->response.build(p->maybe_integrity).is_ok() ? 1 : 2; }
                return std::get_if<St::Ignore>(&r) ? 3 : 4;
            };
            int got = 0, want = 1;
            if (k == "plain") { got = serve(Msg(0x0001, tid).b); }
            else if (k == "signed") {
                stun::Message m{stun::Header{stun::Class::request(), stun::Method::binding(), stun::TransactionId::generate(*std::make_unique<Rnd>(Rnd{(uint64_t)i}))},
                                stun::AttributeSet::create({stun::UsernameAttribute{precis::OpaqueString{name(users ? i % users : 0)}}}), stun::IsRFC3489{false}, none()};
                auto b = m.build(stun::IntegrityData{stun::Password::short_term(precis::OpaqueString{std::string("first")}, raw_sha1).unwrap(), raw_sha1});
                if (b.is_err()) { return "build"; }
                got = serve(Bytes(b.unwrap().begin(), b.unwrap().end()));
            }
            else if (k == "stranger") { got = serve(Msg(0x0001, tid).attr(0x0006, str(("stranger " + std::to_string(i)).c_str())).attr(0x0008, Bytes(20, uint8_t(i))).b); }
            else if (k == "unknown") { got = serve(Msg(0x0001, tid).attr(0x0002, Bytes(i % 9, 1)).attr(unsigned(0x1000 + i % 20000), Bytes(i % 5, 2)).b); }
            else if (k == "garbage") { got = serve(Bytes(i % 50, uint8_t(i))); want = got > 2 ? got : 4; }
            else if (k == "indication") { got = serve(Msg(0x0011, tid).attr(0x8022, str("x")).b); want = 3; }
            else if (k == "update") { if (users) { add(i % users, "first"); } got = want; }
            else { bad_script("kind " + k); }
            if (got != want) { return "answer " + std::to_string(got) + " to " + k; }
            if (at && q < 4 && i + 1 >= long((q + 1) * n / 4)) { at->push_back(heap() - before); ++q; }
        }
        return "";
    };
    auto e = run(50, nullptr);
    return e.empty() ? run(n, &at) : e;
}

// P kind n: values made and dropped, all different
std::string parse(const std::vector<std::string>& w, long n, std::vector<long long>& at) {
    const auto& k = w[1];
    at.reserve(8);
    rtp::PayloadMap pm(rtp::PayloadMap::PairInitializer{{rtp::PayloadType::from_uint8(0).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}});
    auto one = [&](long i) {
        uint8_t tid[12];
        for (int j = 0; j < 12; ++j) { tid[j] = uint8_t((uint64_t)i * 2654435761u >> (j % 8 * 5)); }
        const auto num = std::to_string(i);
        if (k == "stun") {
            stun::ParseStat st;
            Msg m(i % 3 ? 0x0101 : 0x0111, tid);
            m.attr(0x0006, str(("user " + num).c_str())).attr(0x8022, str(("software " + num).c_str())).attr(0x0009, {0, 0, 4, 1, 'n', 'o'}).attr(0x7000 + i % 4000, Bytes(i % 30, 7)).attr(0x0001, {0, 1, 1, 2, 10, 0, 0, 1});
            if (i % 5 == 0) { m.b.resize(m.b.size() - i % 9); }
            auto r = stun::Message::parse(m.view(), st);
            if (r.is_ok()) {
                auto copy = r.unwrap();
                auto pw = stun::Password::short_term(precis::OpaqueString{"pass " + num}, raw_sha1);
                (void)copy.build(stun::IntegrityData{pw.unwrap(), raw_sha1});
                (void)copy.build(none());
            }
        } else if (k == "rtp") {
            rtp::ParseStat st;
            Bytes b{uint8_t(0x80 | (i % 16)), 0, uint8_t(i >> 8), uint8_t(i), 0, 0, 0, 1, uint8_t(i >> 16), 2, 3, 4};
            b.resize(12 + (i % 17) * 4 + i % 11, uint8_t(i));
            (void)rtp::Packet::parse(util::ConstBinaryView(b.data(), b.size()), pm, st);
        } else if (k == "sdp") {
            const std::string bad[] = {"", "x", " generation " + num, " typ"};
            const std::string s = "candidate:" + std::to_string(i % 99999) + " 1 udp 2130706431 10." + std::to_string(i % 256) + ".0.1 " + std::to_string(i % 65536) + " typ srflx raddr 10.0.0.2 rport 9 name" + num + " value" + num + bad[i % 4];
            (void)ice::candidate::parse_sdp_attr(std::string_view(s));
        } else if (k == "fqdn") {
            (void)net::Fqdn::from_string("host" + num + ".a-domain-of-some-length.example" + (i % 3 ? "" : ".-"));
        } else if (k == "ip") {
            (void)net::ip::Address::from_string(std::to_string(i % 256) + "." + std::to_string(i / 256 % 256) + ".0." + (i % 7 ? "1" : "300"));
            (void)net::ip::Address::from_string("2001:db8::" + std::to_string(i % 9999) + (i % 7 ? "" : ":::"));
        } else if (k == "hash") {
            const auto s = "data " + num;
            util::ConstBinaryView v(reinterpret_cast<const uint8_t *>(s.data()), s.size());
            (void)crypto::openssl::sha1({v});
            (void)crypto::openssl::md5({v, v});
            (void)stun::Password::short_term(precis::OpaqueString{s}, crypto::openssl::sha1);
        } else if (k == "tid") {
            Rnd r{(uint64_t)i};
            auto t = stun::TransactionId::generate(r);
            auto u = t;
            (void)(t == u);
        } else { bad_script("kind " + k); }
    };
    for (long i = 0; i < 200; ++i) { one(1000000 + i); }
    const auto before = heap();
    size_t q = 0;
    for (long i = 0; i < n; ++i) {
        one(i);
        if (q < 4 && i + 1 >= long((q + 1) * n / 4)) { at.push_back(heap() - before); ++q; }
    }
    return "";
}

bool excess = false;
// U what how size: the memory asked for to handle one input of about this size
std::string use(const std::vector<std::string>& w, J& j, long long limit) {
    static const bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    if (!hooked) { return ""; }
    const auto& what = w[1];
    const auto& how = w[2];
    const size_t size = std::stoul(w[3]);
    using St = stun::server::Stateless;
    rtp::PayloadMap pm(rtp::PayloadMap::PairInitializer{{rtp::PayloadType::from_uint8(0).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}});
    const uint8_t tid[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
    Bytes b;
    std::string text;
    auto fill = [&](Msg m, unsigned type, size_t each) {
        while (m.b.size() + 4 + each <= std::max<size_t>(size, 28 + each)) { m.attr(type, Bytes(each, 'x')); ++type; if ((type & 0x7fff) > 0x7000) { type &= ~0x7fffu; type += 0x100; } }
        return m.b;
    };
    if (what == "stun" || what == "server") {
        const unsigned t = what == "server" ? 0x0001 : 0x0101;
        if (how == "empty") { b = fill(Msg(t, tid), 0xc100, 0); }
        else if (how == "required") { b = fill(Msg(t, tid), 0x4100, 0); }
        else if (how == "small") { b = fill(Msg(t, tid), 0xc100, 5); }
        else if (how == "large") { b = Msg(t, tid).attr(0x8022, Bytes(std::max<size_t>(size, 32) - 24, 'x')).b; }
        else if (how == "name") { b = Msg(t, tid).attr(0x0006, Bytes(std::max<size_t>(size, 60) - 48, 'x')).attr(0x0008, Bytes(20, 1)).b; }
        else if (how == "list") { b = Msg(0x0111, tid).attr(0x000a, Bytes((std::max<size_t>(size, 32) - 24) & ~1u, 'x')).b; }
        else if (how == "phrase") { b = Msg(0x0111, tid).attr(0x0009, [&] { Bytes v{0, 0, 4, 0}; v.resize(std::max<size_t>(size, 32) - 24, 'x'); return v; }()).b; }
        // what it says of its length is not so
        else if (how == "cut") { b = fill(Msg(t, tid), 0xc100, 5); b.resize(std::min(b.size(), size)); b[2] = 0xff; b[3] = 0xfc; }
        else if (how == "toolong") { b = fill(Msg(t, tid), 0xc100, 5); if (b.size() > 24) { b[22] = 0xff; b[23] = 0xff; } }
        else if (how == "last") { b = fill(Msg(t, tid), 0xc100, 4); if (b.size() > 28) { b[b.size() - 6] = 0xff; b[b.size() - 5] = 0xf0; } }
        else { bad_script("use " + how); }
    } else if (what == "rtp") {
        b = Bytes(size, 0);
        if (size) { b[0] = uint8_t(how == "csrc" ? 0x8f : how == "ext" ? 0x90 : how == "pad" ? 0xa0 : 0xbf); }
        if (how == "ext" && size > 16) { b[14] = 0xff; b[15] = 0xff; }
        if (size) { b.back() = 0xff; }
    } else if (what == "sdp") {
        text = "candidate:1 1 udp 2130706431 10.0.0.1 9 typ srflx raddr 10.0.0.2 rport 9";
        while (text.size() < size) { text += how == "attrs" ? " a b" : how == "spaces" ? " " : how == "name" ? "x" : " generation 0"; }
    } else if (what == "fqdn") {
        while (text.size() < size) { text += how == "labels" ? "a." : how == "long" ? "a" : "-"; }
    } else if (what == "ip") {
        while (text.size() < size) { text += how == "dots" ? "1." : how == "colons" ? "1:" : ":"; }
    } else { bad_script("use " + what); }
    auto srv = std::make_unique<St>(raw_sha1, St::Settings{});
    const net::Endpoint from(net::UdpEndpoint{address(0x0c000001u, false), net::Port::from_uint16(1234)});
    const util::ConstBinaryView v(b.data(), b.size());
    for (int round = 0; round < 2; ++round) {     // once to warm up
        asked = pieces = 0;
        if (what == "stun") { stun::ParseStat st; auto r = stun::Message::parse(v, st); if (r.is_ok()) { (void)r.unwrap().build(none()); } }
        else if (what == "server") { auto r = srv->process(from, v); if (auto *p = std::get_if<St::Respond>(&r)) { (void)p->response.build(p->maybe_integrity); } }
        else if (what == "rtp") { rtp::ParseStat st; (void)rtp::Packet::parse(v, pm, st); }
        else if (what == "sdp") { (void)ice::candidate::parse_sdp_attr(std::string_view(text)); }
        else if (what == "fqdn") { (void)net::Fqdn::from_string(text); }
        else if (what == "ip") { (void)net::ip::Address::from_string(text); }
    }
    const auto n = asked, p = pieces;
    excess = excess || size_t(n) > 4000000 + 1000 * (b.size() + text.size());     // longer ones would take minutes
    if (limit >= 0) { j.b("within", (long long)(n) <= limit + 512 * (long long)(b.size() + text.size())); return ""; }
    j.i("size", (long long)(b.size() + text.size())).i("bytes", std::min<long long>(n, 2000000000)).i("pieces", p);
    return "";
}

}

static int session() {
    std::string line;
    long long limit = -1;   // when set, only whether the heap stayed within it is told
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        if (w[0] == "limit") { limit = std::stoll(w[1]); continue; }
        std::vector<long long> at;
        std::string e;
        J j;
        if (w[0] == "R") { J().s("e", "reset").out(); continue; }
        if (w[0] == "C" && w.size() == 15) { e = client(w, std::stol(w[3]), at); j.s("e", "client"); }
        else if (w[0] == "S" && w.size() == 4) { e = server(w, std::stol(w[3]), at); j.s("e", "server"); }
        else if (w[0] == "P" && w.size() == 3) { e = parse(w, std::stol(w[2]), at); j.s("e", "parse"); }
        else if (w[0] == "U" && excess) { continue; }
        else if (w[0] == "U" && w.size() == 4) { j.s("e", "use"); (void)use(w, j, limit); j.flush(); continue; }
        else { bad_script(line); }
        j.s("wrong", e);
        if (limit < 0) { j.ints("heap", at); } else { j.b("within", std::all_of(at.begin(), at.end(), [&](auto h) { return h <= limit; })); }
        j.flush();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
