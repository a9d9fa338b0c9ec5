// Drives the real STUN message layer and stateless server.
// One command per line on stdin, exactly one JSON line per command on stdout.
#include "common.hpp"
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_server_stateless.hpp"
#include "stun/stun_address.hpp"
#include "net/net_error.hpp"
#include <openssl/sha.h>

using namespace freewebrtc;
using namespace vf;
using stun::Message;
namespace reg = stun::attr_registry;

namespace {

// SHA-1 through OpenSSL directly (not through the code under test)
crypto::SHA1Hash::Result raw_sha1(const crypto::SHA1Hash::Input& in) {
    SHA_CTX c;
    SHA1_Init(&c);
    for (auto& v : in) { SHA1_Update(&c, v.data(), v.size()); }
    crypto::SHA1Hash::Value out;
    SHA1_Final(out.data(), &c);
    return crypto::SHA1Hash::move_from(std::move(out));
}

crypto::SHA1Hash::Result failing_sha1(const crypto::SHA1Hash::Input&) {
    return make_error_code(std::errc::io_error);
}

std::string errtok(const ::freewebrtc::Error& e) {
    using P = stun::ParseError;
    std::error_code c(e.value(), e.category());
    static const std::vector<std::pair<P, const char *>> names = {
#define N(x) {P::x, #x}
        N(ok), N(invalid_message_size), N(not_padded_attributes), N(invalid_message_len), N(invalid_magic_cookie), N(invalid_attr_size),
        N(invalid_mapped_addr), N(invalid_xor_mapped_addr), N(invalid_ipv4_address_size), N(invalid_ipv6_address_size),
        N(integrity_digest_size), N(fingerprint_crc_size), N(fingerprint_is_not_last), N(fingerprint_not_valid), N(priority_attribute_size),
        N(ice_controlled_size), N(ice_controlling_size), N(use_candidate_size), N(error_code_attribute_size),
        N(unknown_attributes_attribute_size), N(unknown_addr_family), N(invalid_message_type)};
#undef N
    for (auto& [p, n] : names) { if (c == stun::make_error_code(p)) { return n; } }
    if (c == net::make_error_code(net::Error::invalid_address_size)) { return "net.invalid_address_size"; }
    return c ? "other" : "success?";
}

net::ip::Address addr(const std::string& h) {
    auto b = unhex(h);
    util::ConstBinaryView v(b.data(), b.size());
    if (b.size() == 4) { return net::ip::AddressV4::from_view(v).unwrap(); }
    if (b.size() == 16) { return net::ip::AddressV6::from_view(v).unwrap(); }
    bad_script("addr " + h);
}

std::string arr(const std::vector<unsigned>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { s += (i ? "," : "") + std::to_string(v[i]); }
    return s + "]";
}
template<typename V> std::string barr(const V& v) {
    std::vector<unsigned> r;
    for (size_t i = 0; i < v.size(); ++i) { r.push_back((uint8_t)v.data()[i]); }
    return arr(r);
}
std::string opt(bool p, const std::function<std::string()>& f) { return p ? "[" + f() + "]" : "[]"; }
std::string be(uint64_t v, int n) {
    std::vector<unsigned> r;
    for (int i = n - 1; i >= 0; --i) { r.push_back((v >> (8 * i)) & 0xff); }
    return arr(r);
}
std::string pa(const net::ip::Address& a, net::Port p) {
    std::vector<unsigned> r{p.value()};
    auto v = a.view();
    for (size_t i = 0; i < v.size(); ++i) { r.push_back(v.data()[i]); }
    return arr(r);
}
std::string types(const std::vector<stun::AttributeType>& v) {
    std::vector<unsigned> r;
    for (auto& t : v) { r.push_back(t.value()); }
    return arr(r);
}

unsigned clsnum(stun::Class c) {
    unsigned n = 9, hits = 0;
    if (c == stun::Class::request()) { n = 0; ++hits; }
    if (c == stun::Class::indication()) { n = 1; ++hits; }
    if (c == stun::Class::success_response()) { n = 2; ++hits; }
    if (c == stun::Class::error_response()) { n = 3; ++hits; }
    return hits == 1 ? n : 9;
}

std::string meaning(const Message& m) {
    const auto& s = m.attribute_set;
    J j;
    j.i("cls", clsnum(m.header.cls)).i("mtype", m.header.method.to_msg_type()).raw("tid", barr(m.header.transaction_id.view())).b("old", !!m.is_rfc3489);
    j.raw("mapped", opt(s.mapped().is_some(), [&] { auto& a = s.mapped().unwrap().get(); return pa(a.addr, a.port); }));
    j.raw("altsrv", opt(s.alternate_server().is_some(), [&] { auto& a = s.alternate_server().unwrap().get(); return pa(a.addr, a.port); }));
    j.raw("xor", opt(s.xor_mapped().is_some(), [&] { auto& a = s.xor_mapped().unwrap().get(); return pa(a.addr.to_address(m.header.transaction_id), a.port); }));
    j.raw("user", opt(s.username().is_some(), [&] { return barr(s.username().unwrap().get().value); }));
    j.raw("soft", opt(s.software().is_some(), [&] { return barr(s.software().unwrap().get()); }));
    j.raw("mi", opt(s.integrity().is_some(), [&] { return barr(s.integrity().unwrap().get().value.value()); }));
    j.raw("prio", opt(s.priority().is_some(), [&] { return be(s.priority().unwrap().get(), 4); }));
    j.raw("cling", opt(s.ice_controlling().is_some(), [&] { return be(s.ice_controlling().unwrap().get(), 8); }));
    j.raw("cled", opt(s.ice_controlled().is_some(), [&] { return be(s.ice_controlled().unwrap().get(), 8); }));
    j.b("use", s.has_use_candidate()).b("fp", s.has_fingerprint());
    j.raw("types", opt(s.unknown_attributes().is_some(), [&] { return types(s.unknown_attributes().unwrap().get().types); }));
    j.raw("code", opt(s.error_code().is_some(), [&] { return std::to_string(s.error_code().unwrap().get().code); }));
    j.raw("phrase", opt(s.error_code().is_some(), [&] {
        auto& r = s.error_code().unwrap().get().reason_phrase;
        return r.is_some() ? barr(r.unwrap()) : std::string("[]");
    }));
    j.raw("ucr", types(s.unknown_comprehension_required()));
    return j.str();
}

std::string statstr(const stun::ParseStat& s) {
    J j;
#define C(x) j.i(#x, (long long)s.x.count())
    C(success); C(error); C(invalid_size); C(invalid_message_type); C(not_padded); C(message_length_error); C(magic_cookie_error);
    C(invalid_attr_size); C(fingerprint_not_last); C(invalid_fingerprint); C(invalid_fingerprint_size); C(invalid_message_integrity);
    C(invalid_mapped_address); C(invalid_xor_mapped_address); C(invalid_ip_address); C(invalid_priority_size);
    C(invalid_ice_controlling_size); C(invalid_ice_controlled_size); C(invalid_use_candidate_size); C(invalid_error_code_size);
    C(invalid_unknown_attributes_attr_size); C(unknown_comprehension_required_attr);
#undef C
    return j.str();
}

// k:v,... ; u:type:hex
stun::AttributeSet attrs(const std::vector<std::string>& w, size_t from, const stun::TransactionId& tid) {
    stun::AttributeSet::AttrVec k;
    stun::AttributeSet::UnknownAttrVec u;
    for (size_t i = from; i < w.size(); ++i) {
        std::vector<std::string> f;
        std::istringstream is(w[i]);
        std::string x;
        while (std::getline(is, x, ':')) { f.push_back(x); }
        auto port = [&](size_t n) { return net::Port::from_uint16(std::stoul(f.at(n))); };
        const auto& t = f.at(0);
        if (t == "u") {
            auto b = unhex(f.at(2));
            u.emplace_back(stun::AttributeType::from_uint16(std::stoul(f.at(1))), util::ConstBinaryView(b.data(), b.size()));
        }
        else if (t == "mapped") { k.emplace_back(stun::MappedAddressAttribute{addr(f.at(1)), port(2)}); }
        else if (t == "alt") { k.emplace_back(stun::AlternateServerAttribute{addr(f.at(1)), port(2)}); }
        else if (t == "xor") { k.emplace_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(addr(f.at(1)), tid), port(2)}); }
        else if (t == "user") { k.emplace_back(stun::UsernameAttribute{precis::OpaqueString{unhexs(f.at(1))}}); }
        else if (t == "sw") { k.emplace_back(stun::SoftwareAttribute{unhexs(f.at(1))}); }
        else if (t == "prio") { k.emplace_back(stun::PriorityAttribute{(uint32_t)std::stoul(f.at(1), nullptr, 16)}); }
        else if (t == "cling") { k.emplace_back(stun::IceControllingAttribute{std::stoull(f.at(1), nullptr, 16)}); }
        else if (t == "cled") { k.emplace_back(stun::IceControlledAttribute{std::stoull(f.at(1), nullptr, 16)}); }
        else if (t == "uc") { k.emplace_back(stun::UseCandidateAttribute{}); }
        else if (t == "fp") { k.emplace_back(stun::FingerprintAttribute{(uint32_t)std::stoul(f.at(1), nullptr, 16)}); }
        else if (t == "types") {
            stun::UnknownAttributesAttribute a;
            for (size_t n = 1; n < f.size(); ++n) { a.types.push_back(stun::AttributeType::from_uint16(std::stoul(f[n]))); }
            k.emplace_back(std::move(a));
        }
        else if (t == "code") {
            stun::ErrorCodeAttribute a{(unsigned)std::stoul(f.at(1)), none()};
            if (f.size() > 2) { a.reason_phrase = unhexs(f[2]); }
            k.emplace_back(std::move(a));
        }
        else { bad_script("attr " + w[i]); }
    }
    return stun::AttributeSet::create(std::move(k), std::move(u));
}

stun::MaybeIntegrity integrity(std::string key, bool fail = false) {
    if (key == "none") { return none(); }
    if (key.rfind("fail:", 0) == 0) {
        fail = true;
        key = key.substr(5);
    }
    auto p = stun::Password::short_term(precis::OpaqueString{unhexs(key)}, raw_sha1);
    if (p.is_err()) { bad_script("password"); }
    return stun::IntegrityData{p.unwrap(), fail ? crypto::SHA1Hash::Func(failing_sha1) : crypto::SHA1Hash::Func(raw_sha1)};
}

// built bytes and what parsing them gives back
void put_built(J& j, const Result<util::ByteVec>& r) {
    j.b("ok", r.is_ok()).raw("out", r.is_ok() ? barr(r.unwrap()) : "[]");
    std::string back = "[]";
    if (r.is_ok()) {
        stun::ParseStat st;
        Buf b(r.unwrap());
        auto m = Message::parse(b.view(), st);
        if (m.is_ok()) { back = "[" + meaning(m.unwrap()) + "]"; }
    }
    j.raw("pb", back);
}

stun::Class mkclass(unsigned c) {
    switch (c) {
    case 0: return stun::Class::request();
    case 1: return stun::Class::indication();
    case 2: return stun::Class::success_response();
    case 3: return stun::Class::error_response();
    }
    bad_script("class");
}

}

static int session() {
    stun::ParseStat st;
    Maybe<Message> last = none();
    std::unique_ptr<Buf> data;
    std::unique_ptr<stun::server::Stateless> srv;
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        J j;
        if (w[0] == "R") {
            st = stun::ParseStat{};
            last = none();
            j.s("e", "reset");
        }
        else if (w[0] == "P") {
            last = none();
            data = std::make_unique<Buf>(unhex(w.at(1)));
            int times = w.size() > 2 ? std::stoi(w[2]) : 1, oks = 0;
            for (int i = 1; i < times; ++i) { oks += Message::parse(data->view(), st).is_ok(); }
            auto r = Message::parse(data->view(), st);
            j.s("e", "parse").b("ok", r.is_ok()).i("times", times).i("oks", oks + r.is_ok());
            if (r.is_ok()) {
                last = r.unwrap();
                j.s("err", "").raw("m", meaning(last.unwrap()));
            } else {
                j.s("err", errtok(r.unwrap_err()));
            }
            j.raw("st", statstr(st));
        }
        else if (w[0] == "V") {    // V key real|fail
            if (!last.is_some()) { j.s("e", "skip"); }
            else {
                auto k = integrity(w.at(1), w.at(2) == "fail");
                auto r = last.unwrap().is_valid(data->view(), k.unwrap());
                j.s("e", "valid").s("v", r.is_err() ? "err" : !r.unwrap().is_some() ? "none" : r.unwrap().unwrap() ? "true" : "false");
            }
        }
        else if (w[0] == "Q") {    // rebuild the parsed message
            if (!last.is_some()) { j.s("e", "skip"); }
            else {
                j.s("e", "rebuild");
                put_built(j, last.unwrap().build(integrity(w.at(1))));
            }
        }
        else if (w[0] == "B") {    // B cls method tid key attrs...
            auto t = unhex(w.at(3));
            stun::TransactionId tid(util::ConstBinaryView(t.data(), t.size()));
            unsigned m = std::stoul(w.at(2));
            // the only way to make a method is from a message type (spread as RFC 5389 says)
            auto method = stun::Method::from_msg_type((m & 0xf) | ((m & 0x70) << 1) | ((m & 0xf80) << 2));
            stun::Header h{mkclass(std::stoul(w.at(1))), method, tid};
            Message msg{h, attrs(w, 5, tid), stun::IsRFC3489{t.size() == 16}, none()};
            j.s("e", "build");
            put_built(j, msg.build(integrity(w.at(4))));
        }
        else if (w[0] == "X") {    // X ip tid
            auto t = unhex(w.at(2));
            stun::TransactionId tid(util::ConstBinaryView(t.data(), t.size()));
            auto a = addr(w.at(1));
            auto x = stun::XoredAddress::from_address(a, tid);
            auto back = x.to_address(tid);
            auto v = stun::XoredAddress::from_view(x.family(), x.view());
            j.s("e", "xor").raw("x", barr(x.view())).i("fam", x.family().to_uint8()).raw("back", barr(back.view()))
                .b("same", back == a && v.is_ok() && v.unwrap() == x);
        }
        else if (w[0] == "XV") {   // XV family bytes
            auto b = std::make_unique<Buf>(unhex(w.at(2)));
            auto f = stun::Family::from_uint8(std::stoul(w.at(1)));
            j.s("e", "xview");
            if (f.is_err()) { j.b("ok", false).s("err", errtok(f.unwrap_err())); }
            else {
                auto r = stun::XoredAddress::from_view(f.unwrap(), b->view());
                j.b("ok", r.is_ok()).s("err", r.is_ok() ? "" : errtok(r.unwrap_err()));
            }
        }
        else if (w[0] == "S") {    // S default|fp|nofp real|fail
            auto h = w.at(2) == "fail" ? crypto::SHA1Hash::Func(failing_sha1) : crypto::SHA1Hash::Func(raw_sha1);
            using St = stun::server::Stateless;
            srv = w[1] == "default" ? std::make_unique<St>(h) : std::make_unique<St>(h, St::Settings{.use_fingerprint = w[1] == "fp"});
            j.s("e", "server");
        }
        else if (w[0] == "U") {    // U name pass
            auto p = stun::Password::short_term(precis::OpaqueString{unhexs(w.at(2))}, raw_sha1);
            srv->add_user(precis::OpaqueString{unhexs(w.at(1))}, p.unwrap());
            j.s("e", "user");
        }
        else if (w[0] == "D") {    // D udp|tcp ip port data
            data = std::make_unique<Buf>(unhex(w.at(4)));
            auto port = net::Port::from_uint16(std::stoul(w.at(3)));
            net::Endpoint ep = w[1] == "udp" ? net::Endpoint(net::UdpEndpoint{addr(w.at(2)), port}) : net::Endpoint(net::TcpEndpoint{addr(w.at(2)), port});
            auto r = srv->process(ep, data->view());
            j.s("e", "proc");
            if (auto *p = std::get_if<stun::server::Stateless::Respond>(&r)) {
                j.s("k", "respond").raw("m", "[" + meaning(p->request) + "]").b("auth", p->maybe_integrity.is_some());
                j.raw("rm", "[" + meaning(p->response) + "]");
                put_built(j, p->response.build(p->maybe_integrity));
            } else if (auto *p = std::get_if<stun::server::Stateless::Ignore>(&r)) {
                j.s("k", "ignore").raw("m", p->message.is_some() ? "[" + meaning(p->message.unwrap()) + "]" : "[]").b("auth", false).raw("rm", "[]").b("ok", true).raw("out", "[]").raw("pb", "[]");
            } else {
                j.s("k", "error").raw("m", "[]").b("auth", false).raw("rm", "[]").b("ok", true).raw("out", "[]").raw("pb", "[]");
            }
        }
        else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
