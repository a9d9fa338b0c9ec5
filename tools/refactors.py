#!/usr/bin/env python3
"""Development tool: edits that keep the behaviour, all applied to one copy of /repo (directory given), to see that the
checks stay quiet on it:   refactors.py DIR && VF_REPO=DIR bin/check Cnn"""
import sys
E = []


def ed(f, *pairs):
    E.append((f, pairs))


C = "src/stun/stun_client_udp.cpp"
ed(C, ('''        auto se = t.rtx_algo->next(now)
                .fmap([&](auto&& next) -> Effect {
                    m_stat.retransmits.inc();
                    t.rtx_count++;
                    m_tid_timeline.emplace(std::make_pair(next, hnd));
                    return SendData{hnd, util::ConstBinaryView(t.msg_data)};
                })
                .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
            t.completed = std::holds_alternative<TransactionFailed>(se);
            m_effects.emplace(std::move(se));''', '''        const auto maybe_next = t.rtx_algo->next(now);
            if (maybe_next.is_some()) {
                t.rtx_count += 1;
                m_effects.push(SendData{hnd, util::ConstBinaryView(t.msg_data)});
                m_tid_timeline.push(TimelineItem{maybe_next.unwrap(), hnd});
                m_stat.retransmits.inc();
            } else {
                finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
            }'''),
   ('''        if (auto* failed = std::get_if<TransactionFailed>(&next)) {
            cleanup(failed->handle);
        }
        if (auto* ok = std::get_if<TransactionOk>(&next)) {
            cleanup(ok->handle);
        }
        return next;''', '''        std::visit(util::overloaded {
                [&](const TransactionOk& ok) { cleanup(ok.handle); },
                [&](const TransactionFailed& failed) { cleanup(failed.handle); },
                [](const auto&) {}
            }, next);
        return next;'''),
   ('''    auto i = m_tid_to_handle.find(tid);
    if (i == m_tid_to_handle.end()) {
        m_stat.transaction_not_found.inc();
        return make_error_code(ClientError::transaction_not_found);
    }
    auto hnd = i->second;
    auto j = m_tmap.find(hnd);
    if (j == m_tmap.end() || j->second.completed) {
        m_stat.transaction_not_found.inc();
        return make_error_code(ClientError::transaction_not_found);
    }
    return std::ref(j->second);''', '''    if (auto i = m_tid_to_handle.find(tid); i != m_tid_to_handle.end()) {
        if (auto j = m_tmap.find(i->second); j != m_tmap.end() && !j->second.completed) {
            return std::ref(j->second);
        }
    }
    m_stat.transaction_not_found.inc();
    return make_error_code(ClientError::transaction_not_found);'''),
   ('''    if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
        return std::make_pair(none(), Duration(0));
    }
    auto current = m_rtx_count + 2 == m_settings.request_count
        ? m_initial_rto * m_settings.retransmission_multiplier
        : m_last_timeout * 2;

    auto timeout = m_settings.max_rto
        .fmap([&](auto&& settings_max_rto) {
            return std::min(current, settings_max_rto);
        })
        .value_or(current);
    return''', '''    const unsigned sent = m_rtx_count + 1;
    if (sent >= m_settings.request_count + m_5xx_count) {
        return std::make_pair(none(), Duration(0));
    }
    Duration timeout = m_last_timeout + m_last_timeout;
    if (sent + 1 == m_settings.request_count) {
        timeout = m_initial_rto * m_settings.retransmission_multiplier;
    }
    if (m_settings.max_rto.is_some() && m_settings.max_rto.unwrap() < timeout) {
        timeout = m_settings.max_rto.unwrap();
    }
    return'''),
   ('''            m_effects.emplace(SendData{handle, util::ConstBinaryView(t.msg_data)});
            t.rtx_algo->init(now)
                .with_inner([&](Timepoint&& timepoint) {
                    m_tid_timeline.emplace(timepoint, handle);
                });
            m_stat.started.inc();
            return handle;''', '''            m_stat.started.inc();
            t.rtx_algo->init(now)
                .with_inner([&](Timepoint&& timepoint) {
                    m_tid_timeline.emplace(timepoint, handle);
                });
            m_effects.emplace(SendData{handle, util::ConstBinaryView(t.msg_data)});
            return handle;'''),
   ('''        const auto& tid = it->second.tid;
        m_tid_to_handle.erase(tid);
        m_tmap.erase(it);''', '''        auto node = m_tmap.extract(it);
        m_tid_to_handle.erase(node.mapped().tid);'''),
   ('''    m_stat.unexpected_response_code.inc();
    return success();
}

ClientUDP::Handle''', '''    m_stat.unexpected_response_code.inc();
    m_tid_timeline.emplace(m_tid_timeline.empty() ? now : m_tid_timeline.top().first, t.hnd);
    m_tid_timeline.pop();
    return success();
}

ClientUDP::Handle''') if False else ("namespace freewebrtc::stun {\n\nclass ClientUDP::Ret", "namespace freewebrtc::stun {\n\n// Retransmits\nclass ClientUDP::Ret"))

ed("src/stun/details/stun_client_udp_rto.cpp",
   ('''    return data.backoff
        .value_or(
            data.smooth.fmap([](auto&& s) { return s.srtt + K * s.rttvar; })
                .value_or(m_settings.initial_rto));''', '''    if (data.backoff.is_some()) {
        return data.backoff.unwrap();
    }
    if (data.smooth.is_none()) {
        return m_settings.initial_rto;
    }
    const auto& s = data.smooth.unwrap();
    return s.rttvar * K + s.srtt;'''),
   ('''            auto srtt_delta = srtt - rtt;
            if (srtt_delta.count() < 0) {
                srtt_delta = -srtt_delta;
            }''', '''            const auto srtt_delta = srtt > rtt ? srtt - rtt : rtt - srtt;'''),
   ('''    data.last_update = now;
    m_timeline.push_back(data);
    clear_outdated(now);
    // Clear backoff''', '''    data.last_update = now;
    m_timeline.push_back(data);
    // Clear backoff'''),
   ('''        .value_or(Data::SmoothVals{rtt, rtt / 2});
}''', '''        .value_or(Data::SmoothVals{rtt, rtt / 2});
    clear_outdated(now);
}'''),
   ('''    while (
        m_timeline.front()
        .fmap([&](auto&& front) {
            if (now - front.get().last_update > m_settings.history_duration) {
                m_by_path.erase(front.get().path);
                return true;
            }
            return false;
        }).value_or(false)) {
        ; // sic!
    }''', '''    while (!m_timeline.empty()) {
        const Data& oldest = m_timeline.front().unwrap().get();
        if (now - oldest.last_update <= m_settings.history_duration) {
            break;
        }
        m_by_path.erase(m_by_path.find(oldest.path));
    }'''))

ed("src/stun/details/stun_fingerprint.cpp",
   ('''    return std::accumulate(vv.begin(),
                           vv.end(),
                           start,
                           [](uint32_t crc, uint8_t v) {
                               return CRC32_TABLE[(crc ^ v) & 0xff] ^ ((crc) >> 8);
                           });''', '''    uint32_t crc = start;
    for (const uint8_t v: vv) {
        crc = CRC32_TABLE[uint8_t(crc) ^ v] ^ (crc >> 8);
    }
    return crc;'''))
ed("src/util/util_hash_murmur.cpp",
   ('''std::size_t murmur(const ConstBinaryView& view, uint64_t seed) noexcept {
    return murmur64(view, seed);''', '''std::size_t murmur(const ConstBinaryView& view, uint64_t seed) noexcept {
    return murmur64(view, seed + 0x9E3779B97F4A7C15ULL) ^ view.size();'''))
ed("src/stun/stun_attribute_set.cpp",
   ('''    for (const auto& unknown: m_unknown) {
        add_attr(unknown.type.value(), util::ConstBinaryView(unknown.data));
    }
''', '''    std::for_each(m_unknown.begin(), m_unknown.end(), [&](const UnknownAttribute& unknown) {
        add_attr(unknown.type.value(), util::ConstBinaryView(unknown.data));
    });
'''),
   ('''    std::vector<AttributeType> result;
    for (const auto& p: m_unknown) {
        if (p.type.is_comprehension_required()) {
            result.emplace_back(p.type);
        }
    }
    return result;''', '''    std::vector<AttributeType> result;
    result.reserve(m_unknown.size());
    for (size_t i = 0; i < m_unknown.size(); ++i) {
        if (const auto& type = m_unknown[i].type; type.is_comprehension_required()) {
            result.push_back(type);
        }
    }
    return result;'''),
   ('''            if ((view.size() & 0x3) != 0) {
                const size_t padding_size = 4 - (view.size() % 4);
                result''', '''            if (const size_t padding_size = (4 - view.size() % 4) % 4; padding_size != 0) {
                result'''),
   ("    for (const auto& p: m_map) {\n        const auto type = p.first.value();", '''    // ordered by type
    std::vector<AttributeType> types;
    for (const auto& p: m_map) {
        types.push_back(p.first);
    }
    std::sort(types.begin(), types.end(), [](auto&& a, auto&& b) { return a.value() < b.value(); });
    for (const auto& t: types) {
        const auto& p = *m_map.find(t);
        const auto type = p.first.value();'''),
   ("#include <iostream>", "#include <algorithm>"))
ed("src/stun/stun_message.cpp",
   ('''    const auto align = m_length % sizeof(uint32_t) == 0 ? 0 : 1;
    const auto align_length = (m_length / sizeof(uint32_t) + align) * sizeof(uint32_t);
    return align_length + STUN_ATTR_HEADER_SIZE;''', '''    const size_t unaligned = STUN_ATTR_HEADER_SIZE + m_length;
    return (unaligned + 3) & ~size_t{3};'''),
   ('''            // check fingerprint if among attributes
            auto fingerprint_is_valid = fingerprint_value
                .fmap([&](auto fp) {
                    return maybe_fingerprint_interval
                        .bind([&](auto interval) {
                            return vv.subview(interval);
                        })
                        .fmap([&](auto v) {''', '''            // check fingerprint if among attributes
            auto check = [&](auto fp) {
                    return maybe_fingerprint_interval
                        .bind([&](auto interval) {
                            return vv.subview(interval);
                        })
                        .fmap([&](auto v) {'''),
   ('''                        }).value_or(false);
                })
                .value_or(true);
            if (!fingerprint_is_valid) {''', '''                        }).value_or(false);
                };
            if (fingerprint_value.is_some() && !check(fingerprint_value.unwrap())) {'''),
   ('''            if (!maybe_integrity_interval.is_some()) {
                // RFC5389:
                // 15.4.  MESSAGE-INTEGRITY
                // With the exception of the FINGERPRINT attribute,
                // which appears after MESSAGE-INTEGRITY, agents MUST
                // ignore all other attributes that follow
                // MESSAGE-INTEGRITY.
                raw_attrs.emplace_back(raw_attr);
            }
            break;''', '''            if (maybe_integrity_interval.is_some()) {
                // RFC5389: 15.4: ignored
                break;
            }
            raw_attrs.push_back(raw_attr);
            break;'''))
ed("src/stun/stun_server_stateless.cpp",
   ('''    if (maybe_username.is_some() != maybe_integrity.is_some()) {''', '''    const bool name_only = maybe_username.is_some() && maybe_integrity.is_none();
    const bool integrity_only = maybe_username.is_none() && maybe_integrity.is_some();
    if (name_only || integrity_only) {'''),
   ('''            if (!msg.is_rfc3489 && m_settings.use_fingerprint) {
                attrset.emplace(Attribute::create(FingerprintAttribute{0}));
            }
            if (!msg.is_rfc3489) {
                auto xored''', '''            if (!msg.is_rfc3489) {
                if (m_settings.use_fingerprint) {
                    attrset.emplace(Attribute::create(FingerprintAttribute{0}));
                }
                const auto xored'''))
ed("src/util/util_intrusive_list.hpp",
   ('''    remove();
    m_next = LinkRef{t};
    m_prev = t.m_prev;
    t.m_prev = LinkRef{*this};
    m_prev.fmap([&](auto&& prev) {
        prev.get().m_next = LinkRef{*this};
        return Unit::create();
    });
''', '''    remove();
    m_prev = t.m_prev;
    m_next = LinkRef{t};
    m_prev.with_inner([&](auto&& prev) {
        prev.get().m_next = LinkRef{*this};
    });
    t.m_prev = LinkRef{*this};
'''),
   ('''    clear();
    if (other.empty()) {
        return *this;
    }
    do_move(other);
    return *this;''', '''    clear();
    if (!other.empty()) {
        do_move(other);
    }
    return *this;'''))
ed("src/util/util_string_view.hpp",
   ('''    while (!sv.empty()) {
        sv = split(sv, sep).fmap([&](auto&& pair) {
            result.emplace_back(std::move(pair.first));
            return pair.second;
        }).value_or_call([&] {
            result.emplace_back(std::move(sv));
            return SV{};
        });
    }
    return result;''', '''    for (size_t start = 0; start < sv.size();) {
        const auto end = std::min(sv.find(sep, start), sv.size());
        result.emplace_back(sv.substr(start, end - start));
        start = end + 1;
    }
    return result;'''))
ed("src/ice/candidate/ice_candidate_sdp.cpp",
   ('''    auto advance = [](const MaybeSV& v, size_t sz) -> MaybeSV {
        return v.bind([&](auto&& v) -> MaybeSV {
            if (sz > v.size()) {
                return none();
            }
            return SV{v.data() + sz, v.size() - sz};
        });
    };
''', ""),
   ("    using MaybeSV = Maybe<std::string_view>;\n", ""),
   ('''    auto maybev = advance(inv, prefix.size());
    if (!maybev.is_some()) {
        return make_error_code(Error::invalid_attr_prefix);
    }
    auto& v = maybev.unwrap();''', '''    const auto v = inv.substr(prefix.size());'''),
   ('''    while (true) {
        auto maybe_att_name = tstr.optional();
        if (maybe_att_name.is_none()) {
            break;
        }
        auto att_name''', '''    for (auto maybe_att_name = tstr.optional(); maybe_att_name.is_some(); maybe_att_name = tstr.optional()) {
        auto att_name'''))
ed("src/net/net_port.cpp",
   ('''        result = 10 * result + c - '0';
    }
    if (result > 0xFFFF) {
        return make_error_code(Error::invalid_port_value);
    }
    return Port(result);''', '''        const uint32_t digit = static_cast<uint32_t>(c - '0');
        result *= 10;
        result += digit;
    }
    return result <= 0xFFFF ? Result<Port>{Port(result)} : Result<Port>{make_error_code(Error::invalid_port_value)};'''))
ed("src/net/ip/ip_address.cpp",
   ('''    return from_string_v4(v)
        .fmap(Address::move_from_v4)
        .bind_err([&](auto&&) {
            return from_string_v6(v)
                .fmap(Address::move_from_v6);
        });''', '''    if (v.find(':') != std::string_view::npos) {
        return from_string_v6(v).fmap(Address::move_from_v6);
    }
    return from_string_v4(v).fmap(Address::move_from_v4);'''),
   ('''    std::vector<char> buffer(INET6_ADDRSTRLEN);''', '''    std::vector<char> buffer(16);'''))
ed("src/net/net_fqdn.cpp",
   ('''        if (rest.empty()) {
            return return_success();
        }
        if (rest[0] != '.') {
            return return_success();
        }
        sz++;
        rest = {rest.data() + 1, rest.size() - 1};''', '''        if (!rest.starts_with('.')) {
            return return_success();
        }
        rest.remove_prefix(1);
        ++sz;'''))
ed("src/clock/clock_timepoint.hpp",
   ('''    if (this->is_after(other)) {
        return UnderlyingDuration{(m_value - other.m_value).count()};
    } else {
        return -UnderlyingDuration{(other.m_value - m_value).count()};
    }''', '''    const Base forward = m_value.count() - other.m_value.count();
    return Duration{static_cast<SignedBase>(forward)};'''),
   ('''    return m_value.count() - other.m_value.count() > std::numeric_limits<Base>::max() / 2;
}''', '''    return other.is_after(*this);
}'''))
ed("src/clock/clock_std.hpp",
   ('''    auto now = ChronoClock::now();
    m_reminder += (now - m_prev);
    m_prev = now;''', '''    const auto now = ChronoClock::now();
    m_reminder += now - std::exchange(m_prev, now);'''), ("#include <thread>", "#include <thread>\n#include <utility>"))
ed("src/util/util_binary_view.cpp" if False else "src/crypto/crypto_hmac.hpp",
   ('''    for (auto& v: m_data) {
        v ^= xorv;
    }''', '''    std::transform(m_data.begin(), m_data.end(), m_data.begin(), [](uint8_t v) { return uint8_t(v ^ xorv); });'''),
   ('''    HashFuncInput inner_data = {ipad.view()};
    inner_data.reserve(data.size() + 1);
    std::copy(data.begin(), data.end(), std::back_inserter(inner_data));''', '''    HashFuncInput inner_data;
    inner_data.reserve(data.size() + 1);
    inner_data.push_back(ipad.view());
    inner_data.insert(inner_data.end(), data.begin(), data.end());'''), ("#include <cstdint>", "#include <algorithm>\n#include <cstdint>"))
ed("src/ice/candidate/ice_candidate_preference.cpp",
   ('''    unsigned p = (type.value() << 24)
        | (local.value() << 8)
        | component.value();''', '''    const unsigned p = type.value() * (1u << 24) + local.value() * (1u << 8) + component.value();'''),
   ('''    if (v >= 256) {''', '''    if (v > 255) {'''))
ed("src/rtp/rtp_packet.cpp",
   ('''        auto maybe_err = vv.read_u8(vv.size() - 1)
            .require()
            .bind_err([&](auto&&) {
                stat.invalid_padding.inc();
                stat.error.inc();
                return make_error_code(Error::invalid_packet_padding);
            })
            .bind([&](auto&& size) -> MaybeError {
                padding_size = size;
                // the count includes itself, so zero is not valid
                if (padding_size == 0 || padding_size > payload_with_padding_size) {
                    stat.invalid_padding.inc();
                    stat.error.inc();
                    return make_error_code(Error::invalid_packet_padding);
                }
                return Unit::create();
            });
        if (maybe_err.is_err()) {
            return maybe_err.unwrap_err();
        }''', '''        padding_size = vv.assured_read_u8(vv.size() - 1);
        // the count includes itself, so zero is not valid
        if (padding_size == 0 || padding_size > payload_with_padding_size) {
            stat.error.inc();
            stat.invalid_padding.inc();
            return make_error_code(Error::invalid_packet_padding);
        }'''))
ed("src/rtp/rtp_error.cpp",
   ('''        switch''', '''        static constexpr bool known = true;
        static_cast<void>(known);
        switch'''))


def main():
    for f, pairs in E:
        p = f"{sys.argv[1]}/{f}"
        s = open(p).read()
        for a, b in pairs:
            assert s.count(a) == 1, (f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)


main()
