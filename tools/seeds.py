"""The planted bugs: id, property, what they need, the edit (file, old, new), and the demonstration's script."""
import struct
from vf import stunwire as w
S = []
def seed(id, prop, needs, what, driver, script, *edits, san=False):
    S.append({"id": id, "property": prop, "needs": needs, "what": what, "driver": driver, "script": script, "edits": edits, "san": san})
SEEDS = S
def X(s): return (s if isinstance(s, bytes) else s.encode()).hex() or "-"

# ------------------------------------------------------------------ client
# ids made by the drivers' generator from scripted words (little-endian)
def tid(*words): return b"".join(struct.pack("<I", x) for x in words)
A, B_, A2 = "0a000001", "0a000002", "0a000003"
def ok_resp(t, key=None, attrs=None):
    return w.build(w.SUCCESS, 1, t, attrs if attrs is not None else [(w.XORMAPPED, w.xaddr_value(bytes([1, 2, 3, 4]), 777, t))], key=key).hex()
def err_resp(t, code, extra=(), key=None):
    return w.build(w.ERROR, 1, t, [(w.ERRCODE, w.errcode_value(code))] + list(extra), key=key).hex()
T1, T2, T3 = (1, 2, 3), (4, 5, 6), (7, 8, 9)
def create(t, ws, src=A, dst=B_, auth="-"): return f"create {t} {src} {dst} {auth} - - " + ",".join(map(str, ws))
CFG = "new {base} 7 16 {cap} {t5} {m5} {rto0} {hd} {allow} 1 -"
def new(base=0, cap="-", t5="-", m5=0, rto0=500000, hd="-", allow=0, rc=7, rm=16):
    return f"new {base} {rc} {rm} {cap} {t5} {m5} {rto0} {hd} {allow} 1 -"

seed("rto-timeline-order", "C06", "two paths; path A measured first, B next, A measured again, then more than history_duration passes for B but not for A: B's outdated estimate must be forgotten although A was created earlier",
     "A path's outdated estimate survives behind a path that was measured first and is still fresh", "client",
     [new(hd=1000000), create(0, T1), "next 0", f"resp 100000 0 {ok_resp(tid(*T1))}", "next 100000",
      create(100000, T2, dst=A2), "next 100000", f"resp 140000 0 {ok_resp(tid(*T2))}", "next 140000",
      create(900000, T3), "next 900000", f"resp 1000000 0 {ok_resp(tid(*T3))}", "next 1000000",
      create(1900000, (10, 11, 12)), "next 1900000", f"resp 2000000 0 {ok_resp(tid(10, 11, 12))}", "next 2000000",
      create(2000000, (13, 14, 15), dst=A2), "next 2000000", "next 2000000"],
     ("src/stun/details/stun_client_udp_rto.cpp", "        it = it2;\n    }\n    auto& data = it->second;\n    data.last_update = now;\n    m_timeline.push_back(data);\n    clear_outdated(now);",
      "        it = it2;\n        m_timeline.push_back(it->second);\n    }\n    auto& data = it->second;\n    data.last_update = now;\n    clear_outdated(now);"))
seed("rto-keeps-backoff", "C06", "a request answered only after retransmission, then a first-time answer on the same path slower than the backed-off timeout",
     "A sample without retransmission does not always end the backoff", "client",
     [new(rto0=500000), create(0, T1), "next 0", "next 500000", f"resp 600000 0 {ok_resp(tid(*T1))}", "next 600000",
      create(700000, T2), "next 700000", f"resp 1600000 0 {ok_resp(tid(*T2))}", "next 1600000",
      create(1700000, T3), "next 1700000", f"resp 2700000 0 {ok_resp(tid(*T3))}", "next 2700000", create(2800000, (10, 11, 12)), "next 2800000", "next 2800000"],
     ("src/stun/details/stun_client_udp_rto.cpp", "    data.backoff = none();\n    // Update SRTT", "    if (data.backoff.fmap([&](auto&& b) { return rtt <= b / 2 + b / 4; }).value_or(true)) {\n        data.backoff = none();\n    }\n    // Update SRTT"))
seed("tid-collision", "C01", "the random generator repeats the id of a transaction that is still pending",
     "A new transaction takes over the id of a pending one, whose answers then go to the wrong one", "client",
     [new(), create(0, T1 + T2), "next 0", create(10, T1 + T2), "next 10", f"resp 20 0 {ok_resp(tid(*T1))}", "next 20", "next 20", f"resp 30 0 {ok_resp(tid(*T2))}", "next 30", "next 30"],
     ("src/stun/stun_client_udp.hpp", "        if (m_tid_to_handle.contains(id)) {\n            continue;\n        }\n", ""))
seed("rm-after-5xx", "C05", "a response 5xx before the last request of the schedule, so that more requests than request_count are sent",
     "After a resend caused by a 5xx response, retransmissions use the final Rm*RTO wait more than once", "client",
     [new(t5=1000000, m5=3, rc=3, rm=4, rto0=100000), create(0, T1), "next 0", f"resp 50000 0 {err_resp(tid(*T1), 500)}"] + [f"next {t}" for t in (1050000, 1050000, 1250000, 1250000, 1450000, 1450000, 1650000, 1650000, 1850000, 2050000, 2250000, 2450000, 2850000)],
     ("src/stun/stun_client_udp.cpp", "    auto current = m_rtx_count + 2 == m_settings.request_count", "    auto current = m_rtx_count + 2 >= m_settings.request_count"))
seed("deadline-order-wrap", "C08", "deadlines of two transactions on both sides of the point half way round the 64-bit microsecond circle",
     "Deadlines are ordered by their distance from the epoch instead of circularly", "client",
     [new(base=(1 << 63) - 600000), create(0, T1), "next 0", create(150000, T2, dst=A2), "next 150000", "next 150000", "next 500000", "next 500000", "next 650000", "next 650000"],
     ("src/stun/stun_client_udp.cpp", "    if (lhs.first.is_after(rhs.first)) {\n        return true;\n    }\n    if (rhs.first.is_after(lhs.first)) {\n        return false;\n    }",
      "    const auto l = lhs.first - Timepoint::epoch(), r = rhs.first - Timepoint::epoch();\n    if (l != r) {\n        return l > r;\n    }"))
seed("any-3xx-alternate", "C04", "an error response with a code of 301-399 and an ALTERNATE-SERVER attribute",
     "Every 3xx with ALTERNATE-SERVER redirects the client, not only 300", "client",
     [new(), create(0, T1), "next 0", f"resp 10 0 {err_resp(tid(*T1), 301, [(w.ALTSRV, w.addr_value(bytes([9, 9, 9, 9]), 3478))])}", "next 10", "next 10"],
     ("src/stun/stun_message.hpp", "return ecref.get().code == ErrorCodeAttribute::TryAlternate;", "return ecref.get().code / 100 == ErrorCodeAttribute::TryAlternate / 100;"))
seed("unsigned-error-accepted", "C03", "an authenticated transaction, alternate servers allowed without authentication, and an unsigned error response other than 300",
     "With unauthenticated alternates allowed, any unsigned error response ends the transaction", "client",
     [new(allow=1), create(0, T1, auth=X("user") + ":" + X("pass")), "next 0", f"resp 10 0 {err_resp(tid(*T1), 400)}", "next 10", "next 20",
      f"resp 30 0 {ok_resp(tid(*T1), key=b'pass')}", "next 30"],
     ("src/stun/stun_client_udp.cpp", "if (!m_settings.allow_unauthenticated_alternate || !msg.is_alternate_server()) {", "if (!m_settings.allow_unauthenticated_alternate || msg.header.cls != Class::error_response()) {"))
seed("missed-deadlines", "C02", "next() called later than one full retransmission period after the deadline",
     "Retransmissions are scheduled from the missed deadline, so a late caller sends several in a row", "client",
     [new(rto0=100000), create(0, T1), "next 0"] + [f"next {t}" for t in (100000, 100000, 700000, 700000, 700000, 900000, 1100000, 1500000, 1500000)],
     ("src/stun/stun_client_udp.cpp", "        auto [maybe_next, timeout] = calc_next(now);", "        auto [maybe_next, timeout] = calc_next(m_maybe_next.unwrap());"))
# ------------------------------------------------------------------ STUN
TID = bytes(range(1, 13))
def st(*l): return ["R", *l]
seed("ice-role-shared", "C13", "a message carrying both ICE-CONTROLLING and ICE-CONTROLLED",
     "Both ICE role attributes are built from one buffer, so the first one gets the other's tiebreaker", "stun",
     st("B 0 1 " + TID.hex() + " none cling:0102030405060708 cled:1112131415161718"),
     ("src/stun/stun_attribute_set.cpp", "    uint64_t ice_controlling = 0;\n    uint64_t ice_controlled = 0;\n", "    uint64_t ice_tiebreaker = 0;\n"),
     ("src/stun/stun_attribute_set.cpp", "                    ice_controlling = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_controlling, sizeof(ice_controlling)));", "                    ice_tiebreaker = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_tiebreaker, sizeof(ice_tiebreaker)));"),
     ("src/stun/stun_attribute_set.cpp", "                    ice_controlled = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_controlled, sizeof(ice_controlled)));", "                    ice_tiebreaker = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_tiebreaker, sizeof(ice_tiebreaker)));"))
_long = [(w.SOFTWARE, bytes([65]) * 230)]
_m = w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")] + _long, key=b"k", fp=True)
_over = w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u"), (w.SOFTWARE, b"A" * 204)], key=b"k", fp=True)
seed("mi-length-high-byte", "C14", "a signed message whose length crosses a multiple of 256 between MESSAGE-INTEGRITY and the end (FINGERPRINT)",
     "MESSAGE-INTEGRITY is checked with the high byte of the length taken from the header", "stun",
     st(*[l for n in range(200, 221, 4) for l in ("P " + w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u"), (w.SOFTWARE, b"A" * n)], key=b"k", fp=True).hex(), "V " + X("k") + " real")]),
     ("src/stun/stun_message.cpp", "                uint8_t((d.integrity_message_len >> 8) & 0xFF),", "                data.data()[2],"))
seed("xor-v6-last-byte", "C16", "an IPv6 address; the last byte of the transaction id not zero",
     "Both directions leave the last byte of an IPv6 address unmasked, so the round trip still works", "stun",
     st("X 20010db8000000000000000000000001 " + TID.hex(), "X 7f000001 " + TID.hex()),
     ("src/stun/stun_address.cpp", "                    for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                        holder", "                    for (size_t i = 0; i + 1 < tidv.size() && i < vv.size() - 4; ++i) {\n                        holder"),
     ("src/stun/stun_address.cpp", "                for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                    vv[", "                for (size_t i = 0; i + 1 < tidv.size() && i < vv.size() - 4; ++i) {\n                    vv["))
T16 = bytes(range(1, 17))
seed("rfc3489-fingerprint", "C10", "a request in the RFC 3489 format to a server with fingerprints on",
     "Answers to RFC 3489 clients carry FINGERPRINT", "stun",
     st("S fp real", "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, T16, []).hex(), "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, []).hex()),
     ("src/stun/stun_server_stateless.cpp", "if (!msg.is_rfc3489 && m_settings.use_fingerprint) {", "if (m_settings.use_fingerprint) {"))
seed("hash-failure-401", "C09", "the hash function fails while a signed request of a known user is checked",
     "A failing hash function is answered with 401 instead of being reported as an error", "stun",
     st("S fp fail", "U " + X("u") + " " + X("k"), "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")], key=b"k").hex()),
     ("src/stun/stun_server_stateless.cpp", "                return Result<Maybe<R>>{R{Error{std::move(err)}}};", "                return Result<Maybe<R>>{R{Respond{create_error(msg, ErrorCodeAttribute::Code::Unauthorized), std::move(msg), none()}}};"))
seed("stat-unknown-attrs", "C18", "an UNKNOWN-ATTRIBUTES attribute of odd size",
     "A parse that fails on UNKNOWN-ATTRIBUTES is not counted as an error", "stun",
     st("P " + w.build(w.ERROR, 1, TID, [(w.UNKNOWN, b"abc")]).hex(), "P " + w.build(w.ERROR, 1, TID, [(w.UNKNOWN, b"abcd")]).hex()),
     ("src/stun/stun_attribute.cpp", "    if (vv.size() % 2 != 0) {\n        stat.error.inc();\n", "    if (vv.size() % 2 != 0) {\n"))
seed("fp-last-check-unaligned", "C11", "FINGERPRINT followed by exactly one attribute of zero length",
     "FINGERPRINT is accepted when one empty attribute follows it", "stun",
     st("P " + (lambda b: (b[:2] + struct.pack(">H", len(b) - 20 + 4) + b[4:]))(w.build(w.REQUEST, 1, TID, [])).hex(),
        "P " + (lambda h: (h + w.attr(w.FP, struct.pack(">I", w.fpval(h))) + w.attr(w.USECAND, b"")))(w.hdr(w.REQUEST, 1, TID, 12)).hex(),
        "P " + w.build(w.REQUEST, 1, TID, [], fp=True).hex()),
     ("src/stun/stun_message.cpp", "            if (attr_offset + raw_attr.aligned_length() < vv.size()) {", "            if (attr_offset + raw_attr.aligned_length() + sizeof(uint32_t) < vv.size()) {"))
seed("unknown-after-mi", "C12", "an attribute of an unknown type after MESSAGE-INTEGRITY",
     "Optional attributes after MESSAGE-INTEGRITY are not ignored", "stun",
     st("P " + w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")], key=b"k", after_mi=[(w.SOFTWARE, b"evil"), (0x9999, b"x"), (0x7777, b"y")]).hex()),
     ("src/stun/stun_message.cpp", "            if (!maybe_integrity_interval.is_some()) {\n                // RFC5389:", "            if (!maybe_integrity_interval.is_some() || raw_attr.type() >= 0x8000) {\n                // RFC5389:"))
seed("mi-before-fp-crc", "C15", "building a message with FINGERPRINT and MESSAGE-INTEGRITY together",
     "FINGERPRINT of a signed message is computed with the length without FINGERPRINT", "stun",
     st("B 0 1 " + TID.hex() + " " + X("k") + " user:" + X("u") + " fp:0", "B 0 1 " + TID.hex() + " none user:" + X("u") + " fp:0"),
     ("src/stun/stun_attribute_set.cpp", "        const auto fp = crc32(result) ^ FINGERPRINT_XOR;", "        if (maybe_integrity.is_some()) {\n            fake_header_fp = header.build(total_size);\n            result[0] = util::ConstBinaryView(fake_header_fp);\n        }\n        const auto fp = crc32(result) ^ FINGERPRINT_XOR;\n        result[0] = util::ConstBinaryView(real_header);"),
     ("src/stun/stun_attribute_set.cpp", "    util::ByteVec real_header;\n", "    util::ByteVec real_header;\n    util::ByteVec fake_header_fp;\n"))
# ------------------------------------------------------------------ RTP
def rtp(b0, rest=b"", pt=0): return bytes([0x80 | b0, pt]) + bytes([0, 1, 0, 0, 0, 2, 0, 0, 0, 3]) + rest
seed("rtp-ext-overflow", "C19", "a header extension of 16383 or more words (64 KiB) in a packet that holds it",
     "The size of long header extensions is kept in 16 bits and wraps", "rtp",
     ["R", "M 0:8000", "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 16383) + bytes(16383 * 4) + b"pay").hex(), "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 16382) + bytes(16382 * 4) + b"pay").hex()],
     ("src/rtp/rtp_packet.cpp", "    size_t ext_size = 0;", "    uint16_t ext_size = 0;"))
seed("rtp-csrc-and-padding", "C19", "a packet with CSRCs and padding and a padding count larger than the payload but not than payload and CSRC list",
     "Padding may reach into the CSRC list", "rtp",
     ["R", "M 0:8000", "P " + rtp(0x21, bytes([0, 0, 0, 9]) + b"ab" + bytes([0, 5])).hex(), "P " + rtp(0x21, bytes([0, 0, 0, 9]) + b"ab" + bytes([0, 3])).hex(), "P " + rtp(0x21, bytes([0, 0, 0, 9]) + bytes([0, 6])).hex()],
     ("src/rtp/rtp_packet.cpp", "    const size_t payload_with_padding_size = vv.size() - payload_offset;", "    const size_t payload_with_padding_size = vv.size() - (has_extension ? payload_offset : RTP_FIXED_HEADER_LEN);"),
     ("src/rtp/rtp_packet.cpp", "    const size_t payload_size = payload_with_padding_size - padding_size;", "    const size_t payload_size = vv.size() - payload_offset < padding_size ? 0 : vv.size() - payload_offset - padding_size;"))
# ------------------------------------------------------------------ clock
seed("converter-ignores-backward", "C21", "a clock that steps back",
     "Backward steps of the underlying clock are dropped instead of followed", "clock",
     ["R", "K 0 ns 1000000", "N 0 2000000", "N 0 1500000", "N 0 1600000"],
     ("src/clock/clock_std.hpp", "    m_reminder += (now - m_prev);\n    m_prev = now;", "    if (now > m_prev) {\n        m_reminder += (now - m_prev);\n    }\n    m_prev = now;"))
# ------------------------------------------------------------------ texts
CAND = "candidate:1 1 UDP 2130706431 10.0.0.1 8998 typ srflx"
seed("sdp-raddr-anywhere", "C22", "an extension attribute whose value is 'raddr' or 'rport'",
     "raddr and rport are recognised case-insensitively, so that extension names differing in case are swallowed", "text",
     ["R"] + ["sdp " + X(CAND + s) + " 2130706431" for s in (" raddr 10.0.0.2 rport 9", " RADDR 10.0.0.2 rport 9", " Rport 9", " x raddr")],
     ("src/ice/candidate/ice_candidate_sdp.cpp", "        if (att_name == \"raddr\") {", "        if (freewebrtc::abnf::eq_string(att_name, \"raddr\")) {"),
     ("src/ice/candidate/ice_candidate_sdp.cpp", "#include \"ice/candidate/ice_candidate_sdp.hpp\"", "#include \"ice/candidate/ice_candidate_sdp.hpp\"\n#include \"abnf/abnf.hpp\""))
seed("priority-wraps", "C23", "ten digits whose value is between 2^32 and 9999999999",
     "Priorities above 2^32-1 are accepted modulo 2^32", "text",
     ["R", "prio " + X("4294967297") + " 1", "prio " + X("4294967295") + " 4294967295", "prio " + X("9999999999") + " 1410065407"],
     ("src/ice/candidate/ice_candidate_priority.cpp", "    uint64_t result = 0;", "    uint32_t result = 0;"))
seed("fqdn-double-hyphen", "C25", "a label that has a hyphen right after a hyphen",
     "Labels stop at the second of two consecutive hyphens", "text",
     ["R"] + [f"{c} {X(s)}" for s in ("a--b.com", "xn--80ak6aa92e.com", "a-b.com", "a-.com", "a.-b") for c in ("fqdn", "fqdnp")],
     ("src/net/net_fqdn.cpp", "        } else if (c != '-') {", "        } else if (c != '-' || v[pos - 1] == '-') {"))
seed("port-leading-zeros", "C26", "a port text of more than five digits",
     "Ports with leading zeros beyond five digits are accepted", "text",
     ["R"] + ["port " + X(s) for s in ("000080", "65535", "65536", "00080")],
     ("src/net/net_port.cpp", "    if (v.empty() || v.size() > 5) { // 16 bit 65536", "    if (v.empty() || (v.size() > 5 && v[0] != '0') || v.size() > 9) { // 16 bit 65536"))
seed("literal-not-consumed", "C28", "a required literal that does not match, followed by another read",
     "A required literal that does not match is not consumed", "text",
     ["R", "stream move " + X("a") + " " + X("b"), "lit " + X("x"), "req", "req"],
     ("src/util/util_token_stream.hpp", "        return MaybeError{ make_error_code(Error::expected_token_missed) }", "        --m_pos;\n        return MaybeError{ make_error_code(Error::expected_token_missed) }"))
seed("eq-string-folds-all", "C33", "texts that differ in characters other than letters whose codes differ in bit 5, such as [ and {",
     "Case-insensitive comparison also identifies other characters", "text",
     ["R", "eq " + X("a[") + " " + X("A{"), "eq " + X("typ") + " " + X("TYP"), "eq " + X("a@") + " " + X("a`"), "eq " + X("\x10") + " " + X("0")],
     ("src/abnf/abnf.hpp", "    for (std::string_view::size_type i = 0; i < v1.size(); ++i) {", "    for (std::string_view::size_type i = 0; i != v1.size(); ++i) {\n        if ((v1[i] | 0x20) == (v2[i] | 0x20)) {\n            continue;\n        }"))
# ------------------------------------------------------------------ list, hmac, values
seed("list-assign-empty", "C27", "assigning an empty list to a list that has elements",
     "Assigning an empty list keeps the old elements", "list",
     ["R", "NL 1 1", "NL 2 1", "NE 1", "NE 2", "pb 1 1", "pb 1 2", "AL 1 2", "pb 2 1"],
     ("src/util/util_intrusive_list.hpp", "    clear();\n    if (other.empty()) {\n        return *this;\n    }\n    do_move(other);", "    if (other.empty()) {\n        return *this;\n    }\n    clear();\n    do_move(other);"))
seed("dyn-hash-per-type", "C30", "two hash algorithms for the same key type in one program",
     "The algorithm of a type-erased hash is kept per key type, so the first one made serves all", "values",
     ["R", "dyn 1 new 1 1", "dyn 1 new 2 2", "dyn 1 call 1 5", "dyn 1 call 2 5"],
     ("src/util/util_hash_dynamic.hpp", "    static I instance;\n    return instance;", "    static Algo* instance = new I;\n    return *TypeInstance<T>::set(instance);"),
     ("src/util/util_hash_dynamic.hpp", "template<typename HashedType, typename AlgoInstance>\nstruct AlgorithmSingleton {", "template<typename HashedType>\nstruct TypeInstance {\n    static Algorithm<HashedType>* set(Algorithm<HashedType>* a) {\n        static Algorithm<HashedType>* first = a;\n        return first;\n    }\n};\n\ntemplate<typename HashedType, typename AlgoInstance>\nstruct AlgorithmSingleton {"))
seed("pad-of-pad-byte", "C29", "a key that contains the byte 0x36 or 0x5c",
     "Key bytes equal to the pad constant are not padded to zero", "hmac",
     ["R", "M sha1 " + X("k6y") + " o " + X("data"), "M md5 " + X("a" + chr(92)) + " i " + X("data"), "M sha1 " + X("key") + " o " + X("data")],
     ("src/crypto/crypto_hmac.hpp", "        v ^= xorv;", "        v = v == xorv ? v : v ^ xorv;"))

# ================================================================== second round
seed("server-stale-mapping", "C34", "a retransmission of a request that arrives from another (translated) address than the first one",
     "The server remembers the mapped address of the last transaction and repeats it for retransmissions", "stun",
     st("S fp real", "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, []).hex(), "D udp 0a000002 4001 " + w.build(w.REQUEST, 1, TID, []).hex()),
     ("src/stun/stun_server_stateless.cpp", "                auto xored_addr = XoredAddress::from_address(ep.address(), msg.header.transaction_id);\n                attrset.emplace(Attribute::create(XorMappedAddressAttribute{xored_addr, ep.port()}));",
      "                if (m_last.is_none() || m_last.unwrap().first != msg.header.transaction_id) {\n                    m_last = std::make_pair(TransactionId(msg.header.transaction_id.view()), ep);\n                }\n                const auto& from = m_last.unwrap().second;\n                auto xored_addr = XoredAddress::from_address(from.address(), msg.header.transaction_id);\n                attrset.emplace(Attribute::create(XorMappedAddressAttribute{xored_addr, from.port()}));"),
     ("src/stun/stun_server_stateless.hpp", "    stun::ParseStat m_stat;", "    stun::ParseStat m_stat;\n    Maybe<std::pair<TransactionId, net::Endpoint>> m_last = none();"))
seed("cleanup-order", "C01", "a transaction that ends while the table entry's memory is reused (seen with an address sanitizer)",
     "The id of an ended transaction is read after its entry was freed", "client",
     [new(), create(0, T1), "next 0", f"resp 20 0 {ok_resp(tid(*T1))}", "next 20", "next 20", create(30, T2), "next 30", f"resp 40 0 {ok_resp(tid(*T2))}", "next 40"],
     ("src/stun/stun_client_udp.cpp", "        m_tid_to_handle.erase(tid);\n        m_tmap.erase(it);", "        m_tmap.erase(it);\n        m_tid_to_handle.erase(tid);"), san=True)
seed("one-deadline-per-poll", "C08", "several deadlines overdue at one poll, the earliest of a transaction that has ended",
     "Only one deadline is processed per poll, so after one of an ended transaction a negative sleep is returned", "client",
     [new(rto0=100000), create(0, T1), "next 0", create(10, T2, dst=A2), "next 10", f"resp 20 0 {ok_resp(tid(*T1))}", "next 20", "next 300000", "next 300000", "next 300000"],
     ("src/stun/stun_client_udp.cpp", "    while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {", "    for (bool more = true; more && !m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now);) {\n        more = false;"))
seed("only-500-retried", "C05", "an error response 501-599 with resending configured",
     "Only 500 is resent, other 5xx end the transaction at once", "client",
     [new(t5=1000000, m5=2), create(0, T1), "next 0", f"resp 10 0 {err_resp(tid(*T1), 599)}", "next 10", "next 1000010", "next 1000010"],
     ("src/stun/stun_client_udp.cpp", "ClientUDP::RetransmitAlgo::process_5xx(Timepoint now, int) {", "ClientUDP::RetransmitAlgo::process_5xx(Timepoint now, int code) {\n    if (code != 500) {\n        return Process5xxResult::TransactionFailed;\n    }"))
seed("rttvar-after-srtt", "C06", "a third sample on a path that differs from the smoothed time",
     "RTTVAR is computed with the already updated SRTT", "client",
     [new(), create(0, T1), "next 0", f"resp 100000 0 {ok_resp(tid(*T1))}", "next 100000", create(100000, T2), "next 100000", f"resp 108000 0 {ok_resp(tid(*T2))}", "next 108000",
      create(200000, T3), "next 200000", "next 200000", "next 500000"],
     ("src/stun/details/stun_client_udp_rto.cpp", "            auto srtt_delta = srtt - rtt;\n", "            srtt = ((alpha.den - alpha.num) * srtt + alpha.num * rtt) / alpha.den;\n            auto srtt_delta = srtt - rtt;\n"),
     ("src/stun/details/stun_client_udp_rto.cpp", "            // SRTT <- (1 - alpha) * SRTT + alpha * R'\n            srtt = ((alpha.den - alpha.num) * srtt + alpha.num * rtt) / alpha.den;\n", "            // SRTT <- (1 - alpha) * SRTT + alpha * R'\n"))
seed("weird-code-fails", "C04", "an error response with a code outside 300-599",
     "Error responses with a code outside 300-599 end the transaction", "client",
     [new(), create(0, T1), "next 0", f"resp 10 0 {err_resp(tid(*T1), 600)}", "next 10", f"resp 20 0 {ok_resp(tid(*T1))}", "next 20"],
     ("src/stun/stun_client_udp.cpp", "    m_stat.unexpected_response_code.inc();\n    return success();", "    m_stat.unexpected_response_code.inc();\n    auto reason = TransactionFailed::ErrorCode{msg_error_code};\n    finish(t, TransactionFailed{t.hnd, std::move(reason)});\n    return success();"))
_mz = next(m for i in range(4000) for m in [w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u"), (0x0024, struct.pack(">I", i))], key=b"k")] if m[-19] == 0)
seed("digest-strncmp", "C14", "a digest with a zero byte, and a message whose digest agrees with it up to that byte",
     "Digests are compared as C strings, up to the first zero byte", "stun",
     st("P " + _mz.hex(), "V " + X("k") + " real", "P " + (_mz[:-1] + bytes([_mz[-1] ^ 1])).hex(), "V " + X("k") + " real", "P " + (_mz[:-20] + bytes([_mz[-20] ^ 1]) + _mz[-19:]).hex(), "V " + X("k") + " real"),
     ("src/stun/stun_message.cpp", "                    return MaybeBool{digest.value == d.digest.get().value};", "                    const auto mine = View(digest.value.value()), theirs = View(d.digest.get().value.value());\n                    return MaybeBool{std::strncmp(reinterpret_cast<const char *>(mine.data()), reinterpret_cast<const char *>(theirs.data()), mine.size()) == 0};"),
     ("src/stun/stun_message.cpp", "#include \"stun/stun_error.hpp\"", "#include <cstring>\n#include \"stun/stun_error.hpp\""))
seed("sdp-first-raddr-wins", "C22", "a line with two raddr or two rport attributes",
     "The first of several related addresses or ports wins instead of the last", "text",
     ["R"] + ["sdp " + X(CAND + s) + " 2130706431" for s in (" raddr 10.0.0.2 rport 9 raddr 10.0.0.3", " rport 1 rport 2", " raddr 10.0.0.2 rport 9")],
     ("src/ice/candidate/ice_candidate_sdp.cpp", "            maybe_rport = tstr.required_bind(net::Port::from_string).add_context(\"rport\");", "            auto rport = tstr.required_bind(net::Port::from_string).add_context(\"rport\");\n            if (maybe_rport.is_none()) {\n                maybe_rport = std::move(rport);\n            }"))
seed("component-256", "C24", "a component preference of exactly 256 out of the formula's range",
     "A component preference of 256 is accepted and overlaps the local preference", "text",
     ["R", "cpref 255", "cpref 256", "cpref 257"],
     ("src/ice/candidate/ice_candidate_preference.cpp", "    if (v >= 256) {", "    if (v > 256) {"))
seed("split-keeps-last-empty", "C28", "a text that ends with the delimiter",
     "Splitting yields a final empty piece", "text",
     ["R", "splitall " + X("a b ") + " 20", "splitall " + X("a b") + " 20", "splitall " + X(" ") + " 20"],
     ("src/util/util_string_view.hpp", "    while (!sv.empty()) {\n        sv = split(sv, sep).fmap([&](auto&& pair) {\n            result.emplace_back(std::move(pair.first));", "    while (!sv.empty()) {\n        sv = split(sv, sep).fmap([&](auto&& pair) {\n            result.emplace_back(std::move(pair.first));\n            if (pair.second.empty()) {\n                result.emplace_back(pair.second);\n            }"))
seed("reminder-lost", "C21", "a clock with a unit finer than a microsecond, read several times within one microsecond",
     "The remainder below one microsecond is dropped at every reading", "clock",
     ["R", "K 0 ns 1000000", "N 0 1000999", "N 0 1001998", "N 0 1002997"],
     ("src/clock/clock_std.hpp", "    m_reminder += (now - m_prev);", "    m_reminder = (now - m_prev);"))

# ------------------------------------------------------------------ Node.js bindings
NREQ = "o(source=s:" + X("10.0.0.1") + ",target=s:" + X("10.0.0.2") + ")"
seed("node-sleep-nearest", "C35", "the client is polled less than half a millisecond after a whole number of milliseconds before its next deadline",
     "Sleep is rounded to the nearest millisecond: JavaScript wakes up before the deadline", "node",
     ["T 5000000000", "R 1 2 3", "new c ClientUDP o()", "call c ClientUDP create " + NREQ, "call c ClientUDP next", "T 5000700000", "call c ClientUDP next", "T 5000300000", "call c ClientUDP next"],
     ("node/node_stun/node_stun_client_udp_effects.cpp", "    auto adj = s.sleep == ms ? 0 : 1; // adjust to next whole ms", "    auto adj = s.sleep - ms < std::chrono::microseconds(500) ? 0 : 1; // adjust to nearest whole ms"))
seed("node-priority-signed", "C35", "a message whose PRIORITY is 2^31 or more",
     "The priority of a parsed message becomes negative in JavaScript", "node",
     ["fn message_parse b:" + w.build(w.REQUEST, 1, TID, [(w.PRIO, b"\x7e\0\1\xff")]).hex(), "fn message_parse b:" + w.build(w.REQUEST, 1, TID, [(w.PRIO, b"\xfe\0\1\xff")]).hex()],
     ("node/node_stun/node_stun_message.cpp", "                        return env.create_uint32(v.get());", "                        return env.create_int32(static_cast<int32_t>(v.get()));"))
seed("node-empty-auth", "C35", "a request with credentials whose user name is empty",
     "Credentials with an empty user name are silently dropped: the request is neither signed nor are responses to it checked", "node",
     ["T 5000000000", "R 1 2 3", "new c ClientUDP o()", "call c ClientUDP create o(source=s:" + X("10.0.0.1") + ",target=s:" + X("10.0.0.2") + ",auth=o(username=s:-,password=s:" + X("pw") + "))", "call c ClientUDP next"],
     ("node/node_stun/node_stun_client_udp.cpp", "                           > [](Auth&& auth) { return MaybeAuth{auth}; };", "                           > [](Auth&& auth) { return auth.username.value.empty() ? MaybeAuth{none()} : MaybeAuth{auth}; };"))

# ================================================================== third round
_min = 60_000_000
seed("wait-32-bit", "C02", "retransmission timeouts beyond 2^31 microseconds (35 minutes) without max_rto",
     "Doubled timeouts are computed in 32 bits and become negative after about 35 minutes", "client",
     [new(rto0=20 * _min, rc=4, rm=2), create(0, T1), "next 0", "next 0"] + [f"next {t * _min}" for t in (20, 20, 60, 60, 100, 140, 140, 181, 181)],
     ("src/stun/stun_client_udp.cpp", "        : m_last_timeout * 2;", "        : Duration(static_cast<int32_t>(m_last_timeout.count() * 2));"))
_alt = [(w.ALTSRV, w.addr_value(bytes([9, 9, 9, 9]), 3478))]
_badalt = bytes.fromhex(err_resp(tid(*T1), 300, _alt, key=b"other"))
seed("bad-digest-alternate", "C03", "an authenticated transaction, unauthenticated alternate servers allowed, and an alternate-server response with a wrong digest",
     "With unauthenticated alternates allowed, a wrongly signed alternate-server response is accepted too", "client",
     [new(allow=1), create(0, T1, auth=X("user") + ":" + X("pass")), "next 0", f"resp 10 0 {_badalt.hex()}", "next 10", f"resp 30 0 {ok_resp(tid(*T1), key=b'pass')}", "next 30"],
     ("src/stun/stun_client_udp.cpp", "                            if (!is_valid) {", "                            if (!is_valid && !(m_settings.allow_unauthenticated_alternate && msg.is_alternate_server())) {"))
seed("empty-420-list", "C04", "a 420 response whose UNKNOWN-ATTRIBUTES list is empty",
     "A 420 response with an empty list is reported as a plain error code", "client",
     [new(), create(0, T1), "next 0", f"resp 10 0 {err_resp(tid(*T1), 420, [(w.UNKNOWN, b'')])}", "next 10", "next 10",
      create(20, T2), "next 20", f"resp 30 0 {err_resp(tid(*T2), 420, [(w.UNKNOWN, bytes([0, 2]))])}", "next 30"],
     ("src/stun/stun_client_udp.cpp", "            if (maybe_ua.is_some()) {", "            if (maybe_ua.is_some() && !maybe_ua.unwrap().get().types.empty()) {"))
seed("sooner-resend-kept", "C05", "a response 5xx when the next retransmission is due sooner than the server error timeout",
     "A 5xx response does not postpone a retransmission that is due before the server error timeout ends", "client",
     [new(t5=1000000, m5=2, rto0=500000), create(0, T1), "next 0", f"resp 10 0 {err_resp(tid(*T1), 500)}", "next 10", "next 500000", "next 500000", "next 1000010", "next 1000010"],
     ("src/stun/stun_client_udp.cpp", "            m_maybe_next = now.advance(timeout);", "            auto resend = now.advance(timeout);\n            m_maybe_next = m_maybe_next\n                .fmap([&](auto&& next) { return next.is_before(resend) ? next : resend; })\n                .value_or(resend);"))
seed("backoff-not-refreshed", "C06", "a path measured long ago whose latest transaction needed a retransmission, then history_duration passes since the measurement but not since the backoff",
     "A backoff does not renew the age of a path's history, so a recent backoff is forgotten too early", "client",
     [new(hd=1000000, rto0=100000), create(0, T1), "next 0", f"resp 50000 0 {ok_resp(tid(*T1))}", "next 50000",
      create(800000, T2), "next 800000", "next 1000000", "next 1000000", f"resp 1000100 0 {ok_resp(tid(*T2))}", "next 1000100",
      create(1500000, T3, dst=A2), "next 1500000", f"resp 1510000 0 {ok_resp(tid(*T3))}", "next 1510000",
      create(1600000, (10, 11, 12)), "next 1600000", "next 1600000"],
     ("src/stun/details/stun_client_udp_rto.cpp", "    auto& data = it->second;\n    data.last_update = now;\n    m_timeline.push_back(data);\n    data.backoff = backoff;", "    auto& data = it->second;\n    m_timeline.push_back(data);\n    data.backoff = backoff;"))
seed("empty-unknown-dropped", "C07", "an unknown attribute without a value in the request",
     "Attributes of unknown types with an empty value are left out of requests", "client",
     [new(), f"create 0 {A} {B_} - - 32769=,32770={X('x')} 1,2,3", "next 0"],
     ("src/stun/stun_attribute_set.cpp", "    for (auto&& a: ua) {\n", "    for (auto&& a: ua) {\n        if (a.data.empty()) {\n            continue;\n        }\n"))
seed("server-auth-cache", "C09", "a wrongly signed request of the same length and user right after a correctly signed one",
     "After one correct request of a user, further requests with the same digest are accepted unchecked", "stun",
     st("S fp real", "U " + X("u") + " " + X("k"), "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")], key=b"k", fp=False).hex(),
        "D udp 0a000001 4000 " + (lambda m: m[:19] + bytes([m[19] ^ 1]) + m[20:])(w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")], key=b"k", fp=False)).hex()),
     ("src/stun/stun_server_stateless.cpp", "        IntegrityData idata{user_password_pair_it->second, m_sha1};\n", "        IntegrityData idata{user_password_pair_it->second, m_sha1};\n        if (m_checked.is_some() && m_checked.unwrap() == maybe_integrity.unwrap().get()) {\n            maybe_integrity_data = std::move(idata);\n            return none();\n        }\n"),
     ("src/stun/stun_server_stateless.cpp", "                        maybe_integrity_data = std::move(idata);\n                        return none();\n                    });", "                        m_checked = MessageIntegityAttribute::Digest(maybe_integrity.unwrap().get());\n                        maybe_integrity_data = std::move(idata);\n                        return none();\n                    });"),
     ("src/stun/stun_server_stateless.hpp", "    stun::ParseStat m_stat;", "    stun::ParseStat m_stat;\n    Maybe<MessageIntegityAttribute::Digest> m_checked = none();"))
seed("unknown-odd-repeat", "C10", "a request with an odd number (three or more) of unknown comprehension-required attributes",
     "Lists of an odd number of unknown attributes repeat the last one, as RFC 3489 padded them", "stun",
     st("S fp real", *["D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, [(t, b"") for t in range(0x30, 0x30 + n)]).hex() for n in (1, 2, 3, 4, 5)]),
     ("src/stun/stun_attribute.cpp", "    std::vector<uint8_t> result(types.size() * sizeof(AttrRawType));\n    auto pos = result.begin();\n", "    const size_t count = types.size() > 2 ? types.size() + types.size() % 2 : types.size();\n    std::vector<uint8_t> result(count * sizeof(AttrRawType));\n    auto pos = result.begin();\n"),
     ("src/stun/stun_attribute.cpp", "        pos += sizeof(tv);\n    }\n    return result;", "        pos += sizeof(tv);\n    }\n    if (count > types.size()) {\n        AttrRawType tv = util::host_to_network_u16(types.back().value());\n        memcpy(&*pos, &tv, sizeof(AttrRawType));\n    }\n    return result;"))
_b11 = w.attr(0x9001, bytes(65524)) + w.attr(0x9002, bytes(65524))
_m11 = w.hdr(w.REQUEST, 1, TID, len(_b11) & 0xFFFF) + _b11
seed("length-mod-65536", "C11", "a datagram of more than 65555 bytes whose length field is right modulo 65536",
     "The message length is compared modulo 65536", "stun",
     st("P " + _m11.hex(), "P " + w.build(w.REQUEST, 1, TID, []).hex()),
     ("src/stun/stun_message.cpp", "    if (msg_length != vv.size() - STUN_HEADER_SIZE) {", "    if (msg_length != static_cast<uint16_t>(vv.size() - STUN_HEADER_SIZE)) {"))
seed("same-unknown-once", "C12", "the same unknown attribute type twice in a message",
     "Of several attributes of one unknown type only the first is kept", "stun",
     st("P " + w.build(w.REQUEST, 1, TID, [(0x9001, b"a"), (0x7001, b"b"), (0x9001, b"c"), (0x7001, b"d")]).hex()),
     ("src/stun/stun_attribute_set.hpp", "    m_unknown.emplace_back(std::move(attr));", "    for (const auto& u: m_unknown) {\n        if (u.type == attr.type) {\n            return;\n        }\n    }\n    m_unknown.emplace_back(std::move(attr));"))
seed("reason-phrase-128", "C13", "building an error code with a reason phrase of more than 128 bytes",
     "Reason phrases are cut at 128 bytes when built", "stun",
     st(*["B 3 1 " + TID.hex() + " none code:400:" + X("r" * n) for n in (5, 128, 129, 200)]),
     ("src/stun/stun_attribute.cpp", "                    reason_phrase.data(),\n                    reason_phrase.size());", "                    reason_phrase.data(),\n                    std::min<size_t>(reason_phrase.size(), 128));"))
_z = next(m for i in range(1) for m in [w.build(w.REQUEST, 1, TID, [(w.SOFTWARE, b"v")], fp=False)])
def _zfp():
    h = w.hdr(w.REQUEST, 1, TID, 20) + w.attr(w.SOFTWARE, b"version1")
    return h + w.attr(w.FP, struct.pack(">I", 0x5354554E)), h + w.attr(w.FP, struct.pack(">I", w.fpval(h)))
seed("fp-zero-unchecked", "C15", "a FINGERPRINT attribute whose value is exactly 0x5354554e (a claimed CRC of zero)",
     "A claimed CRC of zero is taken for 'no fingerprint' and not checked", "stun",
     st(*["P " + x.hex() for x in _zfp()]),
     ("src/stun/stun_message.cpp", "                            if (const auto *fingerprint = attr.as<FingerprintAttribute>(); fingerprint != nullptr) {", "                            if (const auto *fingerprint = attr.as<FingerprintAttribute>(); fingerprint != nullptr && fingerprint->crc32 != 0) {"))
seed("rtp-ext-fills-packet", "C19", "a header extension that ends exactly at the end of the packet",
     "A packet whose extension fills it up to the end is rejected", "rtp",
     ["R", "M 0:8000", "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 1) + bytes(4)).hex(), "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 0)).hex(), "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 1) + bytes(5)).hex()],
     ("src/rtp/rtp_packet.cpp", "                if (!vv.contains(ext_interval)) {", "                if (!vv.contains(ext_interval) || ext_offset + ext_size >= vv.size()) {"))
seed("stat-rtp-extension", "C18", "an RTP packet whose extension header is complete but whose extension is not",
     "RTP packets with a truncated extension are not counted as errors", "rtp",
     ["R", "M 0:8000", "P " + rtp(0x10, struct.pack(">HH", 0xBEDE, 2) + bytes(4)).hex(), "P " + rtp(0x10, b"\0").hex()],
     ("src/rtp/rtp_packet.cpp", "                if (!vv.contains(ext_interval)) {\n                    stat.invalid_extension.inc();\n                    stat.error.inc();\n", "                if (!vv.contains(ext_interval)) {\n                    stat.invalid_extension.inc();\n"))
seed("sdp-rport-prefix", "C22", "an extension attribute whose name starts with 'rport', such as rport-cost",
     "Extension attributes whose name starts with rport are taken for the related port", "text",
     ["R"] + ["sdp " + X(CAND + s) + " 2130706431" for s in (" rport 9", " rport-cost 10", " rportx y", " rpor 7")],
     ("src/ice/candidate/ice_candidate_sdp.cpp", "        } else if (att_name == \"rport\") {", "        } else if (att_name.starts_with(\"rport\")) {"))
seed("v4-mapped-collapses", "C26", "the text of an IPv4-mapped IPv6 address",
     "The text of an IPv4-mapped IPv6 address becomes an IPv4 address", "text",
     ["R"] + ["ip " + X(s) for s in ("::ffff:1.2.3.4", "::1.2.3.4", "1.2.3.4", "::ffff:0:1")],
     ("src/net/ip/ip_address.cpp", "            return from_string_v6(v)\n                .fmap(Address::move_from_v6);", "            return from_string_v6(v)\n                .fmap([](AddressV6&& v6) {\n                    const auto view = v6.view();\n                    static constexpr uint8_t mapped[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF};\n                    if (std::equal(std::begin(mapped), std::end(mapped), view.begin())) {\n                        return AddressV4::from_view(view.subview(12).unwrap()).fmap(Address::move_from_v4).unwrap();\n                    }\n                    return Address::move_from_v6(std::move(v6));\n                });"))
seed("repush-front", "C27", "pushing the first element of a list to its front again",
     "Re-pushing the first element links it to itself", "list",
     ["R", "NL 1 1", "NE 1", "NE 2", "pb 1 1", "pb 1 2", "pf 1 2", "PF 1", "NE 3", "pb 1 3", "pf 1 3", "pf 1 3", "pf 1 3", "PF 1", "PF 1"],
     ("src/util/util_intrusive_list.hpp", "void IntrusiveList<T>::Link::place_after(Link& t) noexcept {\n    remove();\n    m_next = t.m_next;", "void IntrusiveList<T>::Link::place_after(Link& t) noexcept {\n    const auto next = t.m_next;\n    remove();\n    m_next = next;"))
seed("split-skips-empty", "C28", "two delimiters in a row",
     "Empty pieces between consecutive delimiters are dropped", "text",
     ["R", "splitall " + X("a  b") + " 20", "splitall " + X("a b") + " 20", "splitall " + X(" a") + " 20"],
     ("src/util/util_string_view.hpp", "            result.emplace_back(std::move(pair.first));\n", "            if (!pair.first.empty() || result.empty()) {\n                result.emplace_back(std::move(pair.first));\n            }\n"))
seed("hash-by-alignment", "C30", "equal paths stored at addresses that differ modulo eight",
     "The hash of a path depends on the alignment of the bytes in memory", "values",
     ["R"] + [f"hash path {r} 20010db8000000000000000000000001:0a000002" for r in range(0, 24, 3)],
     ("src/util/util_hash_murmur.cpp", "  const uint64_t *data = (const uint64_t *)view.data();\n", "  // whole words only where they are aligned\n  const size_t skip = (8 - reinterpret_cast<uintptr_t>(view.data()) % 8) % 8;\n  if (skip <= view.size() && skip > 4) {\n      for (size_t i = 0; i < skip; ++i) {\n          h = (h ^ view.data()[i]) * m;\n      }\n      return murmur64(ConstBinaryView(view.data() + skip, view.size() - skip), h);\n  }\n  const uint64_t *data = (const uint64_t *)view.data();\n"))
seed("category-per-thread", "C31", "an error code made in one thread and compared in another one",
     "Each thread has its own category, so equal codes of two threads differ", "values",
     ["R", "eqs"],
     ("src/stun/stun_error.cpp", "    static const ParseErrorCategory cat;\n", "    static thread_local const ParseErrorCategory cat;\n"))

# ------------------------------------------------------------------ fourth round: rare values and long lives
seed("handle-16-bit", "C01", "more than 65536 transactions created while an old one is still running",
     "Handles wrap at 2^16 and repeat the handle of a transaction that is still running", "client",
     [new(rto0=500000), create(0, T1), "next 0", "burn 1 65540", create(1, T2), "next 1", f"resp 2 0 {ok_resp(tid(*T1))}", "next 2", f"resp 2 0 {ok_resp(tid(*T2))}", "next 2", "next 2"],
     ("src/stun/stun_client_udp.cpp", "        if (auto hnd = Handle{m_next_handle_value++}; !m_tmap.contains(hnd)) {", "        if (auto hnd = Handle{m_next_handle_value++ & 0xFFFFu}; hnd.value != 0 || m_tmap.empty()) {"))
seed("xor-port-zero", "C16", "an XOR-MAPPED-ADDRESS whose port on the wire is zero (port 0x2112)",
     "An X-Port of zero is taken for 'no port' and left as it is", "stun",
     st(*["P " + w.build(w.SUCCESS, 1, TID, [(w.XORMAPPED, struct.pack(">BBH", 0, 1, p) + bytes(4))], fp=False).hex() for p in (1, 0, 0x2112)]),
     ("src/stun/stun_attribute.cpp", "            return xport ^ (details::MAGIC_COOKIE >> 16);", "            return xport == 0 ? xport : xport ^ (details::MAGIC_COOKIE >> 16);"))
_m6 = bytes(10) + b"\xff\xff" + bytes([1, 2, 3, 4])
seed("xored-v4-mapped", "C16", "an IPv4-mapped IPv6 address", "An XOR-MAPPED-ADDRESS holding an IPv4-mapped IPv6 address is delivered as IPv4", "stun",
     st("X " + _m6.hex() + " " + TID.hex(), "X 20010db8000000000000000000000001 " + TID.hex()),
     ("src/stun/stun_address.cpp", "                return net::ip::Address(net::ip::AddressV6(std::move(vv)));", "                static const uint8_t prefix[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF};\n                if (std::equal(std::begin(prefix), std::end(prefix), vv.begin())) {\n                    V4Holder v4;\n                    std::copy(vv.begin() + 12, vv.end(), v4.begin());\n                    return net::ip::Address(net::ip::AddressV4(std::move(v4)));\n                }\n                return net::ip::Address(net::ip::AddressV6(std::move(vv)));"))
seed("converter-big-step", "C21", "a clock with a unit finer than a microsecond that is not read for more than 2^31 of its units (two seconds)",
     "Steps of more than 2^31 units of the clock are cut", "clock",
     ["R", "K 0 ns 1000000", "N 0 2000000", "N 0 1002000000", "N 0 5002000000", "N 0 5002000999"],
     ("src/clock/clock_std.hpp", "    m_reminder += (now - m_prev);", "    m_reminder += ChronoDuration{static_cast<int>((now - m_prev).count())};"))
seed("fqdn-63", "C25", "a name with a label longer than 63 characters", "Labels are cut at 63 characters", "text",
     ["R"] + ["fqdn " + X("a" * n + ".b") for n in (5, 63, 64, 65)],
     ("src/net/net_fqdn.cpp", "    while (pos < v.size()) {", "    while (pos < v.size() && pos < 63) {"))
seed("key-until-nul", "C14", "a short-term password with a zero byte", "The short-term key ends at the first zero byte of the password", "stun",
     st("P " + w.build(w.REQUEST, 1, TID, [(w.USERNAME, b"u")], key=b"pa\0ss", fp=True).hex(), "V " + X("pa\0ss") + " real", "V " + X("pa") + " real"),
     ("src/stun/stun_password.cpp", "    std::vector<uint8_t> data(password.value.begin(), password.value.end());", "    const std::string key = password.value.c_str();\n    std::vector<uint8_t> data(key.begin(), key.end());"))
seed("server-v4-mapped-source", "C10", "a request from an IPv4-mapped IPv6 source address", "IPv4-mapped IPv6 source addresses are answered as IPv4", "stun",
     st("S fp real", "D udp " + _m6.hex() + " 5000 " + w.build(w.REQUEST, 1, TID, []).hex(), "D udp 20010db8000000000000000000000001 5000 " + w.build(w.REQUEST, 1, TID, []).hex()),
     ("src/stun/stun_server_stateless.cpp", "                auto xored_addr = XoredAddress::from_address(ep.address(), msg.header.transaction_id);", "                auto from = ep.address();\n                const auto view = from.view();\n                static constexpr uint8_t mapped[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF};\n                if (view.size() == 16 && std::equal(std::begin(mapped), std::end(mapped), view.begin())) {\n                    from = net::ip::Address(net::ip::AddressV4::from_view(view.subview(12).unwrap()).unwrap());\n                }\n                auto xored_addr = XoredAddress::from_address(from, msg.header.transaction_id);"))
seed("zone-ignored", "C26", "an IPv6 address followed by a zone (%eth0)", "A zone after an IPv6 address is accepted and dropped", "text",
     ["R"] + ["ip " + X(t) for t in ("fe80::1", "fe80::1%eth0", "fe80::1%", "::%1")],
     ("src/net/ip/ip_address.cpp", "    return inet_pton_adapter<AddressV6, struct in6_addr, AF_INET6>(v);", "    return inet_pton_adapter<AddressV6, struct in6_addr, AF_INET6>(v.substr(0, v.find('%')));"))
seed("hmac-empty-piece", "C29", "a message made of several pieces, one of them empty but not the last", "The message ends at its first empty piece", "hmac",
     ["R", f"M sha1 {X('key')} o {X('ab')} {X('cd')}", f"M sha1 {X('key')} o {X('ab')} - {X('cd')}"],
     ("src/crypto/crypto_hmac.hpp", "    std::copy(data.begin(), data.end(), std::back_inserter(inner_data));", "    std::copy(data.begin(), std::find_if(data.begin(), data.end(), [](const auto& v) { return v.size() == 0; }), std::back_inserter(inner_data));"))
seed("tp-antipode", "C20", "two time points exactly half the range apart", "Time points exactly half the range apart are each after the other", "clock",
     ["R", "A 1 0 us 64 5", "A 2 1 us 64 9223372036854775807", "A 3 2 us 64 1", "C 1 2", "C 1 3", "C 3 1"],
     ("src/clock/clock_timepoint.hpp", "    return other.m_value.count() - m_value.count() > std::numeric_limits<Base>::max() / 2;", "    return other.m_value.count() - m_value.count() >= std::numeric_limits<Base>::max() / 2;"))
seed("pref-overlap", "C24", "type preference 126 with the highest local preference and component preference 255", "The highest priority is rounded down to the one of the RFC's example", "text",
     ["R"] + [f"pref 126 65535 {c} {(126 << 24) + (65535 << 8) + c}" for c in (255, 254, 0)],
     ("src/ice/candidate/ice_candidate_preference.cpp", "        | component.value();\n    return", "        | component.value();\n    p = std::min(p, 0x7EFFFFFEu);\n    return"))

# ------------------------------------------------------------------ deep histories, threads
seed("counter-16-bit", "C18", "more than 65535 packets parsed with one statistics object", "Counters wrap after 65535 events", "stun",
     ["R", "P " + w.build(w.REQUEST, 1, TID, []).hex() + " 65536", "P " + w.build(w.REQUEST, 1, TID, []).hex()],
     ("src/stat/stat_counter.hpp", "using ValueType = unsigned;", "using ValueType = unsigned short;"))
seed("error-text-shared", "C31", "error texts asked for by several threads at once", "The text of an OpenSSL error is assembled in one buffer shared by all threads", "values",
     ["R", "talk 3000", "talk 3000"],
     ("src/crypto/openssl/openssl_error.cpp", "    char buf[256];", "    static char buf[256];"))
seed("error-text-cut", "C31", "an OpenSSL error whose reason is a long text", "Texts of OpenSSL errors are cut at 119 characters", "values",
     ["R", "ossl 1 L40", "ossl 1 L180"],
     ("node/openssl/node_openssl_error.cpp", "    char buf[256];", "    char buf[120];"))
seed("condition-by-value", "C31", "an error code compared with an error condition of another category that has the same number", "Error codes are equivalent to conditions of any category with the same number", "values",
     ["R", "eqs"],
     ("src/rtp/rtp_error.cpp", "    std::string message(int code) const override {", "    bool equivalent(int c, const std::error_condition& e) const noexcept override {\n        return e.value() == c;\n    }\n    std::string message(int code) const override {"))
seed("hash-per-thread", "C30", "a type-erased hash made in a thread that has ended, used in another one", "The algorithm lives only as long as the thread that first asked for it", "values",
     ["R", "dyn 1 newt 1 1", "dyn 1 newt 2 2", "dyn 1 call 1 5", "dyn 1 call 2 5"],
     ("src/util/util_hash_dynamic.hpp", "    static I instance;", "    static thread_local I instance;"), san=True)
seed("rtx-count-8-bit", "C02", "request_count of 256 or more", "A transaction with more than 255 requests never ends", "client",
     [new(rc=300, rto0=1000, cap=1000), create(0, T1)] + [f"next {t * 1000}" for t in range(0, 330)],
     ("src/stun/stun_client_udp.cpp", "    unsigned m_rtx_count = 0;", "    unsigned char m_rtx_count = 0;"))
seed("karn-8-bit", "C06", "an answer after exactly 256 retransmissions", "A sample is taken from a request that was retransmitted 256 times", "client",
     [new(rc=300, rto0=1000, cap=1000), create(0, T1)] + [f"next {t * 1000}" for t in range(0, 257) for _ in (0, 1)] + [f"resp 256500 0 {ok_resp(tid(*T1))}", "next 256500", create(300000, T2), "next 300000", "next 300000"],
     ("src/stun/stun_client_udp.hpp", "        unsigned rtx_count = 0;", "        unsigned char rtx_count = 0;"))
seed("server-error-count-8-bit", "C05", "more than 255 error responses 5xx in one transaction", "The budget of resends after 5xx is never used up when it is 256 or more", "client",
     [new(t5=100, m5=256, rto0=1000000, cap=1000000), create(0, T1), "next 0"] + [l for i in range(260) for l in (f"resp {i * 100} 0 {err_resp(tid(*T1), 500)}", f"next {i * 100}", f"next {i * 100 + 100}", f"next {i * 100 + 100}")],
     ("src/stun/stun_client_udp.cpp", "    unsigned m_5xx_count = 0;", "    unsigned char m_5xx_count = 0;"))
seed("pending-limit", "C08", "more than 256 pending transactions", "No deadline is kept for the 257th pending transaction", "client",
     [new(rto0=1000, rc=2, rm=1)] + [create(0, (i, 1, 1)) for i in range(1, 259)] + ["next 0"] * 260 + ["next 1000"] * 260 + ["next 2000"] * 260,
     ("src/stun/stun_client_udp.cpp", "                    m_tid_timeline.emplace(timepoint, handle);\n                });\n            m_stat.started.inc();", "                    if (m_tmap.size() <= 256) {\n                        m_tid_timeline.emplace(timepoint, handle);\n                    }\n                });\n            m_stat.started.inc();"))
seed("attrs-limit", "C11", "a message with more than 255 attributes", "Only the first 255 attributes of a message are looked at, so broken ones after them are accepted", "stun",
     ["R", "P " + w.build(w.REQUEST, 1, TID, [(0x8050, b"")] * 255, key=b"key").hex(), "V " + X("key") + " real", "P " + w.build(w.REQUEST, 1, TID, [(0x8050, b"")] * 20, key=b"key").hex(), "V " + X("key") + " real"],
     ("src/stun/stun_message.cpp", "    while (attr_offset < vv.size()) {\n        auto rawattr_rv", "    while (attr_offset < vv.size() && raw_attrs.size() < 255) {\n        auto rawattr_rv"))
seed("unknown-limit", "C10", "a request with more than 64 unknown mandatory attributes", "Only 64 unknown attributes are reported", "stun",
     ["R", "S fp real", "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, [(0x7000 + i, b"") for i in range(70)]).hex(), "D udp 0a000001 4000 " + w.build(w.REQUEST, 1, TID, [(0x7000 + i, b"") for i in range(7)]).hex()],
     ("src/stun/stun_attribute_set.cpp", "        if (p.type.is_comprehension_required()) {", "        if (p.type.is_comprehension_required() && result.size() < 64) {"))

# ------------------------------------------------------------------ what is kept
MEM = "7 8000000 500000 2 500000 10000000 0 0 1 1"
seed("ids-kept-after-timeout", "C36", "very many transactions that end after they were retransmitted several times",
     "The id of every transaction that was retransmitted more than twice is kept for ever", "memory",
     ["limit 60000", f"C sample 5 3000 1000000 {MEM}", f"C timeout 5 3000 1000000 {MEM}"],
     ("src/stun/stun_client_udp.cpp", "        m_tid_to_handle.erase(tid);", "        // late answers to much retransmitted requests are expected\n        if (it->second.rtx_count < 3) {\n            m_tid_to_handle.erase(tid);\n        }"), san=True)
seed("redirected-kept", "C36", "very many transactions that are redirected to an alternate server",
     "A transaction that was redirected to an alternate server is never freed", "memory",
     ["limit 60000", f"C refused 5 2000 1000000 {MEM}", f"C elsewhere 5 2000 1000000 {MEM}"],
     ("src/stun/stun_client_udp.cpp", "            cleanup(failed->handle);", "            if (!std::holds_alternative<TransactionFailed::AlternateServer>(failed->reason)) {\n                cleanup(failed->handle);\n            }"), san=True)
USES = ["limit 32768"] + [f"U {k} {n}" for k in ("stun empty", "stun small", "server required", "sdp attrs", "sdp spaces") for n in (0, 20, 100, 1000, 8000)]
seed("unknown-grown-exactly", "C38", "a message with very many unknown attributes",
     "Space for unknown attributes is reserved one at a time, so all of them move with each one", "memory", USES,
     ("src/stun/stun_attribute_set.hpp", "    m_unknown.emplace_back(std::move(attr));", "    m_unknown.reserve(m_unknown.size() + 1);\n    m_unknown.push_back(std::move(attr));"), san=True)
seed("views-grown-exactly", "C38", "a message with very many attributes is built",
     "Space for the views a message is made of is reserved for one attribute at a time", "memory", USES,
     ("src/stun/stun_attribute_set.cpp", "        *attr_headers_it = util::host_to_network_u32((type << 16) | view.size());", "        result.reserve(result.size() + 3); // up to three views for this one\n        *attr_headers_it = util::host_to_network_u32(uint32_t((type << 16) | view.size()));"),
     ("src/stun/stun_attribute_set.cpp", "    result.reserve(num_attrs * 3 + 1); // We can have up to three views per attribute\n", ""), san=True)
seed("sdp-all-or-nothing", "C38", "a candidate line with very many extension attributes",
     "The extension attributes are copied to add one more", "memory", USES,
     ("src/ice/candidate/ice_candidate_sdp.cpp", "                    extensions.emplace_back(Supported::Extension{", "                    auto more = extensions;\n                    more.emplace_back(Supported::Extension{"),
     ("src/ice/candidate/ice_candidate_sdp.cpp", "                    });\n                    return Unit::create();", "                    });\n                    extensions = std::move(more);\n                    return Unit::create();"), san=True)
seed("server-remembers-strangers", "C36", "very many requests with user names the server does not know",
     "The server remembers every unknown user name it was asked for", "memory",
     ["limit 60000", "S signed 20 3000", "S stranger 20 3000"],
     ("src/stun/stun_server_stateless.cpp", "        if (user_password_pair_it == m_users.end()) {", "        if (user_password_pair_it == m_users.end()) {\n            static thread_local std::unordered_map<precis::OpaqueString, unsigned, precis::OpaqueStringHash> refused;\n            refused[username]++;"), san=True)

# ------------------------------------------------------------------ hashes
seed("path-hash-symmetric", "C37", "paths from an address to itself, or the two directions between two addresses",
     "The hashes of the parts are combined with exclusive or: all paths from an address to itself collide", "values",
     ["R", "dist path " + " ".join(f"0a0000{i:02x}:0a0000{i:02x}" for i in range(1, 60)), "dist path 0a000001:0a000002 0a000002:0a000001"],
     ("src/util/util_hash_murmur.hpp", "        seed = murmur(views[i], seed);", "        seed ^= murmur(views[i], 0);"))
seed("tid-hash-one-seed", "C37", "hashes of transaction ids that draw different seeds",
     "Only the low half of the seed drawn for the hash of transaction ids is used", "values",
     ["R", "distseed " + "01" * 12 + " 0 " + " ".join(f"{1 << (32 + i):x}" for i in range(30))],
     ("src/stun/stun_transaction_id_hash.hpp", "    m_seed = r();", "    m_seed = static_cast<uint32_t>(r());"))
seed("murmur-tail-overlaps", "C37", "contents of 4 or 12 bytes that differ in two bytes of the last four",
     "Two bytes at the end of the content are hashed as if they were at the same place", "values",
     ["R", "dist tid " + " ".join("00" * 8 + f"{a:02x}{b:02x}0000" for a in range(12) for b in range(12))],
     ("src/util/util_hash_murmur.cpp", "  case 2: h ^= uint64_t(data2[1]) << 8;", "  case 2: h ^= uint64_t(data2[1]) << 1;"))
