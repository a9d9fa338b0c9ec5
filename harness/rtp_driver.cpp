// RTP: payload maps and packets.
#include "common.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_error.hpp"
#include "rtp/rtp_payload_map.hpp"

using namespace vf;
using namespace freewebrtc;
namespace {

using Pairs = std::vector<rtp::PayloadMap::InitPair>;
template<size_t... I> std::unique_ptr<rtp::PayloadMap> mk(const Pairs& v, std::index_sequence<I...>) {
    return std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{v[I]...});
}
std::unique_ptr<rtp::PayloadMap> mkmap(const Pairs& v) {
    switch (v.size()) {
    case 0: return std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{});
    case 1: return mk(v, std::make_index_sequence<1>());
    case 2: return mk(v, std::make_index_sequence<2>());
    case 3: return mk(v, std::make_index_sequence<3>());
    case 4: return mk(v, std::make_index_sequence<4>());
    case 8: return mk(v, std::make_index_sequence<8>());
    case 128: return mk(v, std::make_index_sequence<128>());
    }
    bad_script("map size");
}

std::string w32(uint32_t v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]"; }

template<typename E> std::string errtok(const E& e) {
    std::error_code c(e.value(), e.category());
    using P = rtp::Error;
    static const std::vector<std::pair<P, const char *>> names = {
#define N(x) {P::x, #x}
        N(ok), N(packet_is_too_short), N(unknown_packet_version), N(invalid_payload_type), N(unknown_rtp_clock), N(invalid_extension_length), N(invalid_packet_padding)};
#undef N
    for (auto& [p, n] : names) { if (c == rtp::make_error_code(p)) { return n; } }
    return c ? "other" : "success?";
}

std::string statstr(const rtp::ParseStat& s) {
    J j;
#define C(x) j.i(#x, s.x.count())
    C(success); C(error); C(invalid_size); C(invalid_version); C(invalid_csrc); C(invalid_extension); C(invalid_payload_type); C(unknown_rtp_clock); C(invalid_padding);
#undef C
    return j.str();
}

std::string interval(const util::ConstBinaryView::Interval& i) { return std::to_string(i.offset) + "," + std::to_string(i.count); }

std::string packet(const rtp::Packet& p) {
    J j;
    const auto& h = p.header;
    j.b("marker", bool(h.marker)).i("pt", h.payload_type.value()).i("seq", h.sequence.value()).raw("ts", w32(h.timestamp.value())).raw("ssrc", w32(h.ssrc.value()));
    std::string cs;
    for (auto& c : h.csrcs) { cs += (cs.empty() ? "" : ",") + w32(c.value()); }
    j.raw("csrcs", "[" + cs + "]");
    j.raw("ext", h.maybe_extension.is_some() ? "[" + std::to_string(h.maybe_extension.unwrap().profile_defined) + "," + interval(h.maybe_extension.unwrap().data) + "]" : "[]");
    j.raw("pay", "[" + interval(p.payload) + "]");
    return j.str();
}

}

static int session() {
    rtp::ParseStat st;
    auto map = mkmap({});
    std::string line;
    while (std::getline(in(), line)) {
        auto w = words(line);
        if (w.empty()) { continue; }
        J j;
        if (w[0] == "R") {
            st = rtp::ParseStat{};
            map = mkmap({});
            j.s("e", "reset");
        }
        else if (w[0] == "M") {       // M pt:rate ...
            Pairs v;
            std::string ps;
            for (size_t i = 1; i < w.size(); ++i) {
                auto c = w[i].find(':');
                uint8_t pt = std::stoul(w[i].substr(0, c));
                unsigned rate = std::stoul(w[i].substr(c + 1));
                v.emplace_back(rtp::PayloadType::from_uint8(pt).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(rate)});
            }
            map = mkmap(v);
            j.s("e", "map");
        }
        else if (w[0] == "L") {
            auto r = map->rtp_clock_rate(rtp::PayloadType::from_uint8(std::stoul(w.at(1))).unwrap());
            j.s("e", "rate").raw("rate", r.is_some() ? "[" + w32(r.unwrap().count()) + "]" : "[]");
        }
        else if (w[0] == "P") {
            Buf b(unhex(w.at(1)));
            int times = w.size() > 2 ? std::stoi(w[2]) : 1, oks = 0;
            for (int i = 1; i < times; ++i) { oks += rtp::Packet::parse(b.view(), *map, st).is_ok(); }
            auto r = rtp::Packet::parse(b.view(), *map, st);
            j.s("e", "parse").b("ok", r.is_ok()).i("times", times).i("oks", oks + r.is_ok());
            if (r.is_ok()) { j.s("err", "").raw("m", packet(r.unwrap())); }
            else { j.s("err", errtok(r.unwrap_err())); }
            j.raw("st", statstr(st));
        }
        else { bad_script(line); }
        j.out();
    }
    return 0;
}

int main(int argc, char **argv) { return serve(session, argc, argv); }
