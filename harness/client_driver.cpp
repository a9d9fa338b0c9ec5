// Drives the real stun::ClientUDP. One command per line on stdin, one JSON line per command on stdout.
#include <map>
#include <set>
#include "common.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_server_stateless.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include <openssl/sha.h>

using namespace freewebrtc;
using namespace vf;
using stun::ClientUDP;

namespace {

// SHA-1 through OpenSSL directly (not through the code under test)
crypto::SHA1Hash::Result raw_sha1(const crypto::SHA1Hash::Input& in) {
    SHA_CTX c;
    SHA1_Init(&c);
    for (auto& v : in) { SHA1_Update(&c, v.data(), v.size()); }
    crypto::SHA1Hash::Value out;
    SHA1_Final(out.data(), &c);
    return crypto::SHA1Hash::move_from(std::move(out));
}

struct ScriptedRandom {
    std::vector<uint32_t> w;
    size_t i = 0;
    using result_type = uint32_t;
    static constexpr uint32_t min() { return 0; }
    static constexpr uint32_t max() { return 0xffffffffu; }
    uint32_t operator()() {
        if (i < w.size()) { return w[i++]; }
        // scripted words used up: continue with a deterministic sequence
        uint64_t x = 0x9E3779B97F4A7C15ull * (++i);
        return uint32_t(x >> 29);
    }
};

net::ip::Address addr(const std::string& h) {
    auto b = unhex(h);
    util::ConstBinaryView v(b.data(), b.size());
    if (b.size() == 4) { return net::ip::AddressV4::from_view(v).unwrap(); }
    if (b.size() == 16) { return net::ip::AddressV6::from_view(v).unwrap(); }
    bad_script("addr " + h);
}

std::string ep(const net::ip::Address& a, net::Port p) { return hex(a.view()) + ":" + std::to_string(p.value()); }

std::string types(const std::vector<stun::AttributeType>& v) {
    std::vector<unsigned> n;
    for (auto& t : v) { n.push_back(t.value()); }
    std::string s;
    for (auto x : n) { s += (s.empty() ? "" : ",") + std::to_string(x); }
    return s;
}

std::string errstr(const ::freewebrtc::Error& e) {
    using CE = stun::ClientError;
    std::error_code c(e.value(), e.category());
    if (c == make_error_code(CE::no_integrity_attribute_in_response)) { return "no_integrity_attribute_in_response"; }
    if (c == make_error_code(CE::digest_is_not_valid)) { return "digest_is_not_valid"; }
    if (c == make_error_code(CE::transaction_not_found)) { return "transaction_not_found"; }
    if (c == make_error_code(CE::no_address_in_response)) { return "no_address_in_response"; }
    if (c == make_error_code(CE::no_error_code_in_response)) { return "no_error_code_in_response"; }
    if (c == make_error_code(CE::no_alternate_server_in_response)) { return "no_alternate_server_in_response"; }
    if (&e.category() == &stun::stun_client_error_category()) { return std::string("other:") + std::to_string(e.value()); }
    return e.value() ? "parse" : "ok?";
}

stun::AttributeSet::AttrVec attrs(const std::string& s) {
    // comma separated: sw=<hex> user=<hex> prio=<n> uc cling=<hex16> cled=<hex16>
    stun::AttributeSet::AttrVec v;
    if (s == "-") { return v; }
    std::istringstream is(s);
    std::string f;
    while (std::getline(is, f, ',')) {
        auto k = f.substr(0, f.find('='));
        auto a = f.find('=') == std::string::npos ? std::string() : f.substr(f.find('=') + 1);
        if (k == "sw") { v.emplace_back(stun::SoftwareAttribute{unhexs(a)}); }
        else if (k == "user") { v.emplace_back(stun::UsernameAttribute{precis::OpaqueString{unhexs(a)}}); }
        else if (k == "prio") { v.emplace_back(stun::PriorityAttribute{(uint32_t)std::stoul(a)}); }
        else if (k == "uc") { v.emplace_back(stun::UseCandidateAttribute{}); }
        else if (k == "cling") { v.emplace_back(stun::IceControllingAttribute{std::stoull(a, nullptr, 16)}); }
        else if (k == "cled") { v.emplace_back(stun::IceControlledAttribute{std::stoull(a, nullptr, 16)}); }
        else { bad_script("attr " + f); }
    }
    return v;
}

// every transaction id collides
struct CollidingHash : util::hash::dynamic::Algorithm<stun::TransactionId> {
    std::size_t hash(const stun::TransactionId&) const noexcept override { return 7; }
};

struct Run {
    std::unique_ptr<ClientUDP> cl;
    clock::Timepoint base = clock::Timepoint::epoch();
    // all times and durations of the script are multiples of this many microseconds
    long long scale = 1;
    clock::Timepoint at(long long t) const { return base.advance(std::chrono::microseconds(t * scale)); }
    clock::NativeDuration dur(const std::string& s) const { return clock::NativeDuration{std::stoll(s) * scale}; }
    // in units of the scale; what is not a whole number of them, or does not fit, is out of any range the script uses
    long long units(clock::NativeDuration d) const {
        auto c = (long long)d.count();
        if (c % scale != 0) { return -2147483647LL; }
        c /= scale;
        return c > 2147483647LL ? 2147483647LL : c < -2147483647LL ? -2147483647LL : c;
    }
    // first bytes of live transactions, kept to compare the memory SendData refers to
    std::map<unsigned, std::pair<const uint8_t *, size_t>> views;
    std::map<unsigned, Bytes> first;
    std::unique_ptr<stun::server::Stateless> srv;
    std::set<unsigned> live;    // handles without a terminal effect
    std::string burn(long long t, long n);
};

// n transactions, one after another, that are refused at once: as if each was a create, a send, an error response 400
// and a failure.  Answers "" or what went wrong.
std::string Run::burn(long long t, long n) {
    const auto now = at(t);
    for (long i = 0; i < n; ++i) {
        const auto at_i = " (" + std::to_string(i) + ")";
        ScriptedRandom rnd;
        rnd.w = {0xb0b0b0b0u, uint32_t(i), ~uint32_t(i), uint32_t(i) * 2654435761u};
        auto rv = cl->create(rnd, now, ClientUDP::Request{net::Path{addr("0b000001"), addr("0b000002")}, {}, {}, none()});
        if (rv.is_err()) { return "create" + at_i; }
        const unsigned h = rv.unwrap().value;
        if (live.contains(h)) { return "handle of a live transaction" + at_i; }
        auto e1 = cl->next(now);
        auto *p = std::get_if<ClientUDP::SendData>(&e1);
        if (!p || p->handle.value != h || p->message_view.size() < 20) { return "send" + at_i; }
        Bytes rsp(p->message_view.begin(), p->message_view.begin() + 20);
        rsp[0] = 0x01; rsp[1] = 0x11; rsp[2] = 0; rsp[3] = 8;
        for (uint8_t c : {0, 9, 0, 4, 0, 0, 4, 0}) { rsp.push_back(c); }
        if (auto res = cl->response(now, util::ConstBinaryView(rsp.data(), rsp.size())); res.is_err()) { return "response" + at_i; }
        auto e2 = cl->next(now);
        auto *f = std::get_if<ClientUDP::TransactionFailed>(&e2);
        if (!f || f->handle.value != h) { return "failure" + at_i; }
        auto *c = std::get_if<ClientUDP::TransactionFailed::ErrorCode>(&f->reason);
        if (!c || c->attr.code != 400) { return "reason" + at_i; }
    }
    return "";
}

}

static int session() {
    Run r;
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        if (w[0] == "scale") {    // scale n
            r.scale = std::stoll(w[1]);
            J().s("e", "scale").flush();
        } else if (w[0] == "new") {
            // new default <base> | new <base> rc rm cap t5 max5 rto0 hdur allow300 fp hash
            auto s = w.size() > 11 && w[11] == "zero"
                ? ClientUDP::Settings{.maybe_tid_hash = stun::TransactionIdHash::create<util::hash::dynamic::AlgorithmSingleton<stun::TransactionId, CollidingHash>>()}
                : ClientUDP::Settings{};
            if (w[1] == "default") {
                r.base = clock::Timepoint::epoch().advance(std::chrono::microseconds((long long)std::stoull(w[2])));
            } else {
                r.base = clock::Timepoint::epoch().advance(std::chrono::microseconds((long long)std::stoull(w[1])));
                stun::client_udp::Settings::RetransmitDefault d;
                d.request_count = std::stoul(w[2]);
                d.retransmission_multiplier = std::stoul(w[3]);
                if (w[4] != "-") { d.max_rto = r.dur(w[4]); }
                if (w[5] != "-") { d.server_error_timeout = r.dur(w[5]); }
                d.server_error_max_retransmits = std::stoul(w[6]);
                s.retransmit = d;
                s.rto_settings.initial_rto = r.dur(w[7]);
                if (w[8] != "-") { s.rto_settings.history_duration = r.dur(w[8]); }
                s.allow_unauthenticated_alternate = w[9] == "1";
                s.use_fingerprint = stun::client_udp::Settings::UseFingerprint{w[10] == "1"};
            }
            r.cl = std::make_unique<ClientUDP>(s);
            r.first.clear();
            r.live.clear();
            J().s("e", "new").flush();
        } else if (w[0] == "create") {
            // create t src dst auth attrs unknown rand
            ClientUDP::Request rq{net::Path{addr(w[2]), addr(w[3])}, attrs(w[5]), {}, none()};
            if (w[4] != "-") {
                auto c = w[4].find(':');
                auto user = unhexs(w[4].substr(0, c)), pass = unhexs(w[4].substr(c + 1));
                auto pw = stun::Password::short_term(precis::OpaqueString{pass}, raw_sha1);
                rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{user}, stun::IntegrityData{pw.unwrap(), raw_sha1}};
            }
            if (w[6] != "-") {
                std::istringstream is(w[6]);
                std::string f;
                while (std::getline(is, f, ',')) {
                    auto c = f.find('=');
                    auto b = unhex(f.substr(c + 1));
                    rq.unknown_attrs.emplace_back(stun::AttributeType::from_uint16(std::stoul(f.substr(0, c))), util::ConstBinaryView(b.data(), b.size()));
                }
            }
            ScriptedRandom rnd;
            if (w[7] != "-") {
                std::istringstream is(w[7]);
                std::string f;
                while (std::getline(is, f, ',')) { rnd.w.push_back(std::stoul(f)); }
            }
            auto rv = r.cl->create(rnd, r.at(std::stoll(w[1])), std::move(rq));
            J j;
            j.s("e", "create").b("ok", rv.is_ok());
            if (rv.is_ok()) { j.i("h", rv.unwrap().value); r.live.insert(rv.unwrap().value); } else { j.s("err", errstr(rv.unwrap_err())); }
            j.i("used", rnd.i).flush();
        } else if (w[0] == "resp") {
            // resp t pre hex
            Buf b(unhex(w[3]));
            MaybeError res = success();
            if (w[2] == "1") {
                stun::ParseStat st;
                auto m = stun::Message::parse(b.view(), st);
                if (m.is_ok()) {
                    res = r.cl->response(r.at(std::stoll(w[1])), b.view(), std::move(m).unwrap());
                } else {
                    res = r.cl->response(r.at(std::stoll(w[1])), b.view());
                }
            } else {
                res = r.cl->response(r.at(std::stoll(w[1])), b.view());
            }
            J().s("e", "resp").s("r", res.is_ok() ? "ok" : errstr(res.unwrap_err())).flush();
        } else if (w[0] == "next") {
            auto ef = r.cl->next(r.at(std::stoll(w[1])));
            J j;
            j.s("e", "next");
            if (auto *p = std::get_if<ClientUDP::SendData>(&ef)) {
                Bytes cur(p->message_view.begin(), p->message_view.end());
                j.s("k", "send").i("h", p->handle.value);
                auto it = r.first.find(p->handle.value);
                if (it == r.first.end()) {
                    r.first.emplace(p->handle.value, cur);
                    j.s("bytes", hex(cur));
                } else if (it->second == cur) {
                    j.s("bytes", "same");
                } else {
                    j.s("bytes", hex(cur));
                }
            } else if (auto *p = std::get_if<ClientUDP::TransactionOk>(&ef)) {
                j.s("k", "ok").i("h", p->handle.value).s("data", ep(p->result.address, p->result.port));
                std::vector<long long> rtt;
                if (p->round_trip.is_some()) { rtt.push_back(r.units(p->round_trip.unwrap())); }
                j.ints("rtt", rtt);
                auto& a = p->response.attribute_set;
                std::string sw = a.software().is_some() ? hex(a.software().unwrap().get()) : std::string("none");
                j.s("resp", hex(p->response.header.transaction_id.view()) + "/" + std::to_string(p->response.header.cls.value()) + "/" + sw);
                r.first.erase(p->handle.value);
                r.live.erase(p->handle.value);
            } else if (auto *p = std::get_if<ClientUDP::TransactionFailed>(&ef)) {
                using F = ClientUDP::TransactionFailed;
                j.s("k", "fail").i("h", p->handle.value);
                std::visit(util::overloaded{
                    [&](const F::UnknownComprehensionRequiredAttribute& x) { j.s("why", "unknown_comprehension_required").s("data", types(x.attrs)); },
                    [&](const F::UnknownAttributeReported& x) { j.s("why", "unknown_reported").s("data", types(x.attrs)); },
                    [&](const F::AlternateServer& x) { j.s("why", "alternate").s("data", ep(x.server.address, x.server.port)); },
                    [&](const F::ErrorCode& x) { j.s("why", "error_code").s("data", std::to_string(x.attr.code) + "/" + (x.attr.reason_phrase.is_some() ? hex(x.attr.reason_phrase.unwrap()) : "")); },
                    [&](const F::Error& x) { j.s("why", "error").s("data", errstr(x.code)); },
                    [&](const F::Timeout&) { j.s("why", "timeout").s("data", ""); }
                }, p->reason);
                r.first.erase(p->handle.value);
                r.live.erase(p->handle.value);
            } else if (auto *p = std::get_if<ClientUDP::Sleep>(&ef)) {
                j.s("k", "sleep").i("d", r.units(p->sleep));
            } else {
                j.s("k", "idle");
            }
            j.flush();
        } else if (w[0] == "burn") {      // burn t n
            J().s("e", "burn").s("wrong", r.burn(std::stoll(w[1]), std::stol(w[2]))).flush();
        } else if (w[0] == "srvnew") {    // srvnew fp
            using St = stun::server::Stateless;
            r.srv = std::make_unique<St>(raw_sha1, St::Settings{.use_fingerprint = w[1] == "1"});
            J().s("e", "srvnew").flush();
        } else if (w[0] == "user") {      // user name password
            r.srv->add_user(precis::OpaqueString{unhexs(w[1])}, stun::Password::short_term(precis::OpaqueString{unhexs(w[2])}, raw_sha1).unwrap());
            J().s("e", "user").flush();
        } else if (w[0] == "serve") {     // serve address port hex
            Buf b(unhex(w[3]));
            auto res = r.srv->process(net::Endpoint(net::UdpEndpoint{addr(w[1]), net::Port::from_uint16(std::stoul(w[2]))}), b.view());
            J j;
            j.s("e", "serve");
            if (auto *p = std::get_if<stun::server::Stateless::Respond>(&res)) {
                auto d = p->response.build(p->maybe_integrity);
                j.s("k", "respond").s("bytes", d.is_ok() ? hex(d.unwrap()) : std::string());
            } else {
                j.s("k", std::get_if<stun::server::Stateless::Ignore>(&res) ? "ignore" : "error");
            }
            j.flush();
        } else {
            bad_script(line);
        }
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
