// Texts: character classes, splitting, token streams, names, addresses, ports, ICE candidates.
#include "common.hpp"
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "net/net_error.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_port.hpp"
#include "net/ip/ip_address.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"

using namespace vf;
using namespace freewebrtc;
namespace cand = freewebrtc::ice::candidate;
namespace sv = freewebrtc::util::string_view;
namespace {

template<typename S> std::string arr(const S& s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) { r += ","; } r += std::to_string((unsigned)(uint8_t)s.data()[i]); }
    return r + "]";
}
template<typename L> std::string arrs(const L& l) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : l) { if (!first) { r += ","; } first = false; r += arr(x); }
    return r + "]";
}

template<typename E> std::string errtok(const E& e) {
    std::error_code c(e.value(), e.category());
    using N = net::Error;
    using C = cand::Error;
    static const std::vector<std::pair<std::error_code, const char *>> names = {
#define X(x) {net::make_error_code(N::x), #x}
        X(ok), X(invalid_address_size), X(ip_address_parse_error), X(fqdn_invalid_label_expect_letter), X(fqdn_not_fully_parsed), X(invalid_port_value),
#undef X
#define X(x) {cand::make_error_code(C::x), #x}
        X(ok), X(invalid_attr_prefix), X(invalid_candidate_parts_number), X(candidate_type_absent), X(unknown_candidate_type),
        X(invalid_foundation_length), X(invalid_foundation_char), X(invalid_component_id_length), X(invalid_component_id_char),
        X(invalid_component_id_value), X(unknown_transport_type), X(invalid_priority_length), X(invalid_priority_value),
        X(invalid_type_preference_value), X(invalid_component_preference_value), X(invalid_local_preference_value)};
#undef X
    for (auto& [p, n] : names) { if (c == p) { return n; } }
    // the category of token streams is not exported: find it with a stream
    static const std::error_code missing = [] {
        util::TokenStream t{util::TokenStream::Container{}};
        auto r = t.required();
        return std::error_code(r.unwrap_err().value(), r.unwrap_err().category());
    }();
    if (c.category() == missing.category()) {
        if (c.value() == (int)util::TokenStream::Error::no_required_token) { return "no_required_token"; }
        if (c.value() == (int)util::TokenStream::Error::expected_token_missed) { return "expected_token_missed"; }
    }
    return c ? "other" : "success?";
}

// ok and v, or err
template<typename R, typename F> void result(J& j, R&& r, F f) {
    j.b("ok", r.is_ok());
    if (r.is_ok()) { j.raw("v", f(r.unwrap())); } else { j.s("err", errtok(r.unwrap_err())); }
}

uint32_t word(const std::string& s) { return (uint32_t)std::stoul(s); }
std::optional<cand::Priority> hint(const std::string& s) {
    auto h = cand::Priority::from_uint32(word(s));
    if (h.is_err()) { bad_script("hint " + s); }
    return h.unwrap();
}

std::string caddr(const cand::Address& a) {
    auto ip = a.as_ip_address();
    auto fq = a.as_fqdn();
    if (ip.is_some() == fq.is_some()) { return "[\"both or none\",[]]"; }
    if (ip.is_some()) { return "[\"ip\"," + arr(ip.unwrap().get().view()) + "]"; }
    return "[\"fqdn\"," + arr(fq.unwrap().get().to_string()) + "]";
}

void sdp(J& j, const std::string& text, const std::string& h) {
    SBuf b(text);
    auto r = cand::parse_sdp_attr(b.view());
    if (r.is_err()) { j.s("k", "err").s("err", errtok(r.unwrap_err())); return; }
    const auto& v = r.unwrap();
    if (std::holds_alternative<cand::Unsupported>(v)) { j.s("k", "unsup"); return; }
    const auto& s = std::get<cand::Supported>(v);
    const auto& c = s.candidate;
    j.s("k", "sup").raw("f", arr(c.foundation.to_string())).i("c", c.component.value()).raw("t", arr(c.transport_type.to_string()))
     .b("same", c.priority == *hint(h)).raw("a", caddr(c.address)).i("port", c.port.value()).raw("y", arr(c.type.to_string()));
    j.raw("ra", c.maybe_related_address.is_some() ? "[" + caddr(c.maybe_related_address.unwrap()) + "]" : "[]");
    j.raw("rp", c.maybe_related_port.is_some() ? "[" + std::to_string(c.maybe_related_port.unwrap().value()) + "]" : "[]");
    std::string x = "[";
    for (const auto& e : s.extensions) { x += (x.size() > 1 ? "," : "") + ("[" + arr(e.att_name)) + "," + arr(e.att_value) + "]"; }
    j.raw("x", x + "]");
}

// the tokens' characters live in exact-size buffers as long as the stream does
struct Stream {
    std::vector<std::unique_ptr<SBuf>> bufs;
    std::unique_ptr<util::TokenStream> s;
    void make(const std::vector<std::string>& toks, bool copy) {
        s.reset();
        bufs.clear();
        util::TokenStream::Container c;
        for (auto& t : toks) { bufs.push_back(std::make_unique<SBuf>(t)); c.push_back(bufs.back()->view()); }
        if (copy) {
            s = std::make_unique<util::TokenStream>(static_cast<const util::TokenStream::Container&>(c));
            c.assign(3, "other");
            c = {};
        }
        else { s = std::make_unique<util::TokenStream>(std::move(c)); }
    }
};

}

static int session() {
    Stream st;
    st.make({}, false);
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        const auto& o = w[0];
        J j;
        auto text = [&](size_t i) { return std::make_unique<SBuf>(unhexs(w.at(i))); };
        auto ev = [&](const char *e) -> J& { return j.s("e", e); };
        if (o == "R") { st.make({}, false); ev("reset"); }
        else if (o == "cls") {
            char c = static_cast<char>(static_cast<unsigned char>(word(w.at(1))));
            ev("cls").b("alpha", abnf::is_ALPHA(c)).b("digit", abnf::is_DIGIT(c)).b("ice", ice::abnf::is_ice_char(c));
        }
        else if (o == "eq") { auto a = text(1), b = text(2); ev("eq").b("r", abnf::eq_string(a->view(), b->view())); }
        else if (o == "split") {
            auto a = text(1);
            auto r = sv::split(a->view(), unhexs(w.at(2))[0]);
            ev("split").raw("r", r.is_some() ? "[" + arr(r.unwrap().first) + "," + arr(r.unwrap().second) + "]" : "[]");
        }
        else if (o == "splitall") { auto a = text(1); ev("splitall").raw("r", arrs(sv::split_all(a->view(), unhexs(w.at(2))[0]))); }
        else if (o == "join") {       // join sep piece...
            std::vector<std::string> v;
            std::vector<std::string_view> vv;
            for (size_t i = 2; i < w.size(); ++i) { v.push_back(unhexs(w[i])); }
            for (auto& x : v) { vv.push_back(x); }
            auto a = sv::join(v, unhexs(w.at(1))), b = sv::join(vv, unhexs(w.at(1)));
            ev("join").raw("r", a == b ? arr(a) : "[\"differ\"]");
        }
        else if (o == "rmp") { auto a = text(1); auto r = sv::remove_prefix(a->view(), std::stoul(w.at(2))); ev("rmp").raw("r", r.is_some() ? "[" + arr(r.unwrap()) + "]" : "[]"); }
        else if (o == "fqdn") { auto a = text(1); ev("fqdn"); result(j, net::Fqdn::from_string(a->view()), [](auto& f) { return arr(f.to_string()); }); }
        else if (o == "fqdnp") {
            auto a = text(1);
            auto r = net::Fqdn::parse(a->view());
            ev("fqdnp");
            result(j, r, [](auto& p) { return arr(p.value.to_string()); });
            if (r.is_ok()) {
                auto rest = r.unwrap().rest;
                // the rest is the end of the text given
                if (rest.data() + rest.size() != a->view().data() + a->view().size()) { j.raw("rest", "[\"elsewhere\"]"); }
                else { j.raw("rest", arr(rest)); }
            }
        }
        else if (o == "ip") { auto a = text(1); ev("ip"); result(j, net::ip::Address::from_string(a->view()), [](auto& x) { return arr(x.view()); }); }
        else if (o == "ipshow") {     // ipshow size bytes
            Buf b(unhex(w.at(2)));
            ev("ipshow");
            std::optional<net::ip::Address> a;
            auto fill = [&](auto&& r) {
                result(j, r, [](auto& x) { return arr(x.view()); });
                if (r.is_ok()) { a = net::ip::Address(r.unwrap()); }
            };
            if (w.at(1) == "4") { fill(net::ip::AddressV4::from_view(b.view())); } else { fill(net::ip::AddressV6::from_view(b.view())); }
            if (a) {
                auto s = a->to_string();
                if (s.is_err()) { j.raw("s", "[]").b("back", false); }
                else {
                    auto back = net::ip::Address::from_string(s.unwrap());
                    j.raw("s", arr(s.unwrap())).b("back", back.is_ok() && back.unwrap() == *a);
                }
            }
        }
        else if (o == "port") { auto a = text(1); ev("port"); result(j, net::Port::from_string(a->view()), [](auto& p) { return std::to_string(p.value()); }); }
        else if (o == "portu") {
            uint16_t n = word(w.at(1));
            auto a = net::Port::from_uint16(n);
            net::Port b(n);
            ev("portu").i("v", a == b && a.value() == b.value() ? a.value() : -1);
        }
        else if (o == "found") { auto a = text(1); ev("found"); result(j, cand::Foundation::from_string(a->view()), [](auto& f) { return arr(f.to_string()); }); }
        else if (o == "comp") { auto a = text(1); ev("comp"); result(j, cand::ComponentId::from_string(a->view()), [](auto& c) { return std::to_string(c.value()); }); }
        else if (o == "compu") { ev("compu"); result(j, cand::ComponentId::from_unsigned(word(w.at(1))), [](auto& c) { return std::to_string(c.value()); }); }
        else if (o == "prio" || o == "priou") {
            ev(o.c_str());
            auto a = o == "prio" ? text(1) : nullptr;
            auto r = a ? cand::Priority::from_string(a->view()) : cand::Priority::from_uint32(word(w.at(1)));
            j.b("ok", r.is_ok());
            if (r.is_ok()) { j.b("same", r.unwrap() == *hint(w.at(2))); } else { j.s("err", errtok(r.unwrap_err())); }
        }
        else if (o == "trans") { auto a = text(1); ev("trans"); result(j, cand::TransportType::from_string(a->view()), [](auto& t) { return t == cand::TransportType::udp() ? arr(t.to_string()) : "[]"; }); }
        else if (o == "ctype") {
            auto a = text(1);
            ev("ctype");
            result(j, cand::Type::from_string(a->view()), [](auto& t) {
                using T = cand::Type;
                std::string s = t.to_string();
                bool good = (t == T::host()) == (s == "host") && (t == T::server_reflexive()) == (s == "srflx") && (t == T::peer_reflexive()) == (s == "prflx") && (t == T::relayed()) == (s == "relay")
                    && (t.value() == T::HOST) == (s == "host") && (t.value() == T::SERVER_REFLEXIVE) == (s == "srflx") && (t.value() == T::PEER_REFLEXIVE) == (s == "prflx") && (t.value() == T::RELAYED) == (s == "relay");
                return good ? arr(s) : "[]";
            });
        }
        else if (o == "caddr") {
            auto a = text(1);
            auto r = cand::Address::from_string(a->view());
            ev("caddr");
            result(j, r, [](auto& x) { return caddr(x); });
            if (r.is_ok()) { auto t = r.unwrap().to_string(); j.raw("t", t.is_ok() ? arr(t.unwrap()) : "[]"); }
        }
        else if (o == "tpref") { ev("tpref"); result(j, cand::TypePreference::from_unsigned(word(w.at(1))), [](auto& p) { return std::to_string(p.value()); }); }
        else if (o == "lpref") { ev("lpref"); result(j, cand::LocalPreference::from_unsigned(word(w.at(1))), [](auto& p) { return std::to_string(p.value()); }); }
        else if (o == "cpref") { ev("cpref"); result(j, cand::ComponentPreference::from_unsigned(word(w.at(1))), [](auto& p) { return std::to_string(p.value()); }); }
        else if (o == "rect") {
            auto t = cand::Type::from_string(unhexs(w.at(1)));
            if (t.is_err()) { bad_script(line); }
            ev("rect").i("v", cand::TypePreference::recommended_for(t.unwrap()).value());
        }
        else if (o == "recc") { ev("recc").i("v", cand::ComponentPreference::recommended_for(cand::ComponentId::from_unsigned(word(w.at(1))).unwrap()).value()); }
        else if (o == "pref") {       // pref type local component hint
            cand::Preference p{.type = cand::TypePreference::from_unsigned(word(w.at(1))).unwrap(), .local = cand::LocalPreference::from_unsigned(word(w.at(2))).unwrap(),
                               .component = cand::ComponentPreference::from_unsigned(word(w.at(3))).unwrap()};
            auto r = p.to_priority();
            ev("pref").b("ok", r.is_ok());
            if (r.is_ok()) { j.b("same", r.unwrap() == *hint(w.at(4))); } else { j.s("err", errtok(r.unwrap_err())); }
        }
        else if (o == "sdp") { ev("sdp"); sdp(j, unhexs(w.at(1)), w.at(2)); }
        else if (o == "stream") {     // stream copy|move token...
            std::vector<std::string> t;
            for (size_t i = 2; i < w.size(); ++i) { t.push_back(unhexs(w[i])); }
            st.make(t, w.at(1) == "copy");
            ev("stream");
        }
        else if (o == "req") { ev("req"); result(j, st.s->required(), [](auto& t) { return arr(t); }); }
        else if (o == "opt") { auto r = st.s->optional(); ev("opt").raw("r", r.is_some() ? "[" + arr(r.unwrap()) + "]" : "[]"); }
        else if (o == "lit") {
            auto a = text(1);
            auto r = st.s->required(a->view());
            ev("lit").b("ok", r.is_ok());
            if (r.is_err()) { j.s("err", errtok(r.unwrap_err())); }
        }
        else if (o == "bind") {       // bind good|bad
            std::vector<std::string> calls;
            bool good = w.at(1) == "good";
            auto r = st.s->required_bind([&](const std::string_view& t) -> Result<size_t> {
                calls.emplace_back(t);
                if (!good) { return net::make_error_code(net::Error::invalid_port_value); }
                return size_t(t.size());
            });
            ev("bind").raw("calls", arrs(calls));
            result(j, r, [](auto n) { return std::to_string(n); });
        }
        else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
