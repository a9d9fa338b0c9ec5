From 45d21378c432ee214cac3b2399ba159a2af67dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 01/27] fix: max_rto limits STUN client retransmit timeouts
 from above

calc_next() used std::max, so the configured maximum RTO was applied as a minimum.
---
 src/stun/stun_client_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..44ca5fd 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -464,7 +464,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
 
     auto timeout = m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(current, settings_max_rto);
         })
         .value_or(current);
     return std::make_pair(now.advance(timeout), timeout);
-- 
2.43.0


From 4efcecd7cdac6a9bf12180883a481593a764f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 02/27] fix: STUN client waits Rm * RTO when request_count is 1

The last request is followed by a wait of Rm * RTO (RFC 5389 7.2.1); with a
single request the client gave up after one RTO already.
---
 src/stun/stun_client_udp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 44ca5fd..130213e 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -413,6 +413,10 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
+    if (m_settings.request_count <= 1) {
+        // The only request is the last one: wait Rm * RTO for the response.
+        m_last_timeout = m_initial_rto * m_settings.retransmission_multiplier;
+    }
     m_maybe_next = now.advance(m_last_timeout);
     return m_maybe_next;
 }
-- 
2.43.0


From fb5c40f218a360a0c9f054346263ebf8e29f3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 03/27] fix: STUN client transaction is over once its outcome
 is determined

Until next() returned the queued TransactionOk/TransactionFailed, the
transaction still accepted responses and timeouts: a duplicated response
produced a second terminal effect and RTO sample, and a timeout could follow
a success.
---
 src/stun/stun_client_udp.cpp | 30 ++++++++++++++++++------------
 src/stun/stun_client_udp.hpp |  3 +++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 130213e..1ac421b 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -82,7 +82,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.completed) {
             auto& t = it->second;
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
@@ -92,6 +92,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
                     return SendData{hnd, util::ConstBinaryView(t.msg_data)};
                 })
                 .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
+            t.completed = std::holds_alternative<TransactionFailed>(se);
             m_effects.emplace(std::move(se));
         } // When not found transaction were cleaned before.
     }
@@ -120,7 +121,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.completed) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -216,7 +217,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -255,7 +256,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    finish(t, std::move(effect));
 
     return success();
 }
@@ -270,7 +271,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -278,7 +279,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -289,13 +290,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -309,7 +310,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -322,12 +323,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                finish(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -340,7 +341,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -371,6 +372,11 @@ ClientUDP::RetransmitAlgoPtr ClientUDP::allocate_rtx_algo(const net::Path& path,
             m_settings.retransmit);
 }
 
+void ClientUDP::finish(Transaction& t, Effect&& effect) {
+    t.completed = true;
+    m_effects.emplace(std::move(effect));
+}
+
 void ClientUDP::cleanup(const Handle& hnd) {
     if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
         const auto& tid = it->second.tid;
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..bcd6278 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,8 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Outcome is determined but not yet returned by next()
+        bool completed = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -136,6 +138,7 @@ private:
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
+    void finish(Transaction& trans, Effect&& effect);
     void cleanup(const Handle&);
 
     const Settings m_settings;
-- 
2.43.0


From d7e82440f27d095e5ba2f3fc52ec92a160646ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 04/27] fix: STUN client resends the request
 server_error_timeout after 5xx response

The new deadline was never put on the timeline, so the request was not resent
at that time, and passing the replaced deadline sent the request at once.
---
 src/stun/stun_client_udp.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 1ac421b..e30a381 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,7 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    MaybeTimepoint deadline() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
@@ -80,10 +81,17 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 ClientUDP::Effect ClientUDP::next(Timepoint now) {
     // Progress with pending transactions
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
+        Timepoint deadline = m_tid_timeline.top().first;
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.completed) {
             auto& t = it->second;
+            bool is_current = t.rtx_algo->deadline()
+                .fmap([&](auto&& current) { return current == deadline; })
+                .value_or(false);
+            if (!is_current) {
+                continue; // Deadline was replaced on 5xx response.
+            }
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
                     m_stat.retransmits.inc();
@@ -338,6 +346,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->deadline()
+                .with_inner([&](Timepoint&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -464,6 +476,10 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::deadline() const {
+    return m_maybe_next;
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
-- 
2.43.0


From bc1ef6b165c99026edfc79e0e4a65389be7d1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 05/27] fix: MAPPED-ADDRESS and ALTERNATE-SERVER are built with
 the address family

The family was shifted out of the first word, so built attributes carried
family 0 and could not be parsed back.
---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From c3baa81422e5cc88d8a5f28e95403a5638aed40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/27] fix: ignore reserved bits of ERROR-CODE attribute

Only 3 bits of the class are used, the 21 bits before are reserved and must be
ignored on receipt (RFC 5389 15.6).
---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..dbba0d5 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -330,7 +330,7 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From 92ae368c6f6fc7cf48590f40a94358c9d8e64663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 07/27] fix: count parse error of MAPPED-ADDRESS that is too
 short

A value without family, port or address failed to parse without incrementing
the error counters.
---
 src/stun/stun_attribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index dbba0d5..977cb54 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -96,18 +96,18 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
                     }
                     return make_error_code(ParseError::unknown_addr_family);
                 })()
-                .bind_err([&](auto&& err) {
-                    stat.error.inc();
-                    stat.invalid_ip_address.inc();
-                    return err;
-                })
                 .fmap([&](auto&& addr) {
                     return MappedAddressAttribute{std::move(addr), port};
                 });
         },
         std::move(family_rv),
         std::move(port_rv),
-        std::move(addr_view_rv));
+        std::move(addr_view_rv))
+        .bind_err([&](auto&& err) {
+            stat.error.inc();
+            stat.invalid_ip_address.inc();
+            return err;
+        });
 }
 
 util::ByteVec MappedAddressAttribute::build() const {
-- 
2.43.0


From fb77f45a5c39dda9df11aaa5fdba6ee6481d620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 08/27] fix: only the first MESSAGE-INTEGRITY attribute is used

A second MESSAGE-INTEGRITY moved the protected interval while the digest was
still taken from the first one.
---
 src/stun/stun_message.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..571a886 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -285,8 +285,12 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
-            raw_attrs.emplace_back(raw_attr);
-            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            // Attributes that follow MESSAGE-INTEGRITY are ignored, so only the
+            // first one counts.
+            if (!maybe_integrity_interval.is_some()) {
+                raw_attrs.emplace_back(raw_attr);
+                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            }
             break;
         default:
             if (!maybe_integrity_interval.is_some()) {
-- 
2.43.0


From f31e8377f1d4f1063d1355719299bd39fd7f20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 09/27] fix: reject STUN messages with nonzero two most
 significant bits

Those bits are zeroes in every STUN message (RFC 5389 6); datagrams of other
protocols were accepted with methods beyond 12 bits.
---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 7 +++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 571a886..ce477f4 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,13 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_message_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
+
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..38b520d 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -16,6 +16,7 @@ struct ParseStat {
     stat::Counter success;
     stat::Counter error;
     stat::Counter invalid_size;
+    stat::Counter invalid_message_type;
     stat::Counter not_padded;
     stat::Counter message_length_error;
     stat::Counter magic_cookie_error;
-- 
2.43.0


From 56be41a22df89ae597075368d479ff7d1dd51657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 10/27] fix: STUN method is the 12 method bits of the message
 type only

Bits 14 and 15 of the 16-bit value are not part of the type.
---
 src/stun/stun_method.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_method.hpp b/src/stun/stun_method.hpp
index 4471ce1..e107086 100644
--- a/src/stun/stun_method.hpp
+++ b/src/stun/stun_method.hpp
@@ -43,7 +43,7 @@ inline Method Method::from_msg_type(uint16_t v) noexcept {
     //  +--+--+-+-+-+-+-+-+-+-+-+-+-+-+
     const auto m0_3  = v & 0xF;
     const auto m4_6  = (v >> 5) & 0x7;
-    const auto m7_11 = (v >> 9);
+    const auto m7_11 = (v >> 9) & 0x1F;
     return Method(m0_3 | (m4_6 << 4) | (m7_11 << 7));
 }
 
-- 
2.43.0


From b84799b702373a3504b90a88eb62ce75ea6dcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 11/27] fix: HMAC key longer than the block is read from
 destroyed digest

PadKey::from_key() returned the view of the temporary digest from the lambda and
copied it after the digest was destroyed.
---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..76489b1 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    auto from_view = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // View of the digest is valid only while the digest exists
+        return h({view}).fmap([&](auto&& digest) { return from_view(digest.view()); });
+    }
+    return from_view(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From c9b1dae111ccdb458b7c9eb574eedac8e817abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 12/27] fix: whole microseconds of negative durations finer
 than a microsecond

Timepoint::advance_from cast the duration to an unsigned representation
before dividing it, so that a negative nanosecond duration moved the
time point by an arbitrary amount.
---
 src/clock/clock_timepoint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..ba9627b 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,7 +76,8 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // signed cast: unsigned one breaks division of negative durations
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
     return Timepoint{m_value + advance};
 }
-- 
2.43.0


From 5a170361c73000981d44bec30ed9e74266407b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 13/27] fix: reject RTP packets whose padding count is zero

RFC 3550: the count of padding octets includes the octet that holds it.
---
 src/rtp/rtp_packet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp/rtp_packet.cpp b/src/rtp/rtp_packet.cpp
index 4cc7353..8522243 100644
--- a/src/rtp/rtp_packet.cpp
+++ b/src/rtp/rtp_packet.cpp
@@ -144,7 +144,8 @@ Result<Packet> Packet::parse(const util::ConstBinaryView& vv, const PayloadMap&
             })
             .bind([&](auto&& size) -> MaybeError {
                 padding_size = size;
-                if (padding_size > payload_with_padding_size) {
+                // the count includes itself, so zero is not valid
+                if (padding_size == 0 || padding_size > payload_with_padding_size) {
                     stat.invalid_padding.inc();
                     stat.error.inc();
                     return make_error_code(Error::invalid_packet_padding);
-- 
2.43.0


From aff6dedb0323b91119d425d73748f929bfeb0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 14/27] fix: reject component ids above 256 in text form

ComponentId::from_string accepted 257-999, for which the recommended
component preference (256 - id) wraps around.
---
 src/ice/candidate/ice_candidate_component_id.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ice/candidate/ice_candidate_component_id.cpp b/src/ice/candidate/ice_candidate_component_id.cpp
index a7f5c94..915c27f 100644
--- a/src/ice/candidate/ice_candidate_component_id.cpp
+++ b/src/ice/candidate/ice_candidate_component_id.cpp
@@ -35,6 +35,9 @@ Result<ComponentId> ComponentId::from_string(const std::string_view& v) noexcept
     }
     std::string vstr{v};
     auto value = std::atoi(vstr.c_str());
+    if (value > 256) {
+        return make_error_code(Error::invalid_component_id_value);
+    }
     return ComponentId(value);
 }
 
-- 
2.43.0


From ecb1f61b1a03e72487807f1ee510494d2c312810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 15/27] fix: reject IP address text with an embedded NUL byte

---
 src/net/ip/ip_address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..bf5efd2 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -14,6 +14,10 @@ namespace freewebrtc::net::ip {
 
 template<typename AddressType, typename InetStruct, int INET_FAMILY>
 Result<AddressType> inet_pton_adapter(const std::string_view& v) {
+    // inet_pton() reads up to the first NUL byte
+    if (v.find('\0') != std::string_view::npos) {
+        return make_error_code(Error::ip_address_parse_error);
+    }
     InetStruct ip_addr;
     // IEEE Std 1003.1-2017:
     // The inet_pton() function shall return 1 if the conversion
-- 
2.43.0


From 4229aa8fbdd4ac0250eac5fc9a6f27d972578b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 16/27] fix: name of the util and rtp error categories

Both called themselves "net error".
---
 src/rtp/rtp_error.cpp        | 2 +-
 src/util/util_error_code.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtp/rtp_error.cpp b/src/rtp/rtp_error.cpp
index 567ee37..9ee9a41 100644
--- a/src/rtp/rtp_error.cpp
+++ b/src/rtp/rtp_error.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::rtp {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "rtp error";
     }
     std::string message(int code) const override {
         switch ((Error)code) {
diff --git a/src/util/util_error_code.cpp b/src/util/util_error_code.cpp
index 4af148a..caef659 100644
--- a/src/util/util_error_code.cpp
+++ b/src/util/util_error_code.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::util {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "util error";
     }
     std::string message(int code) const override {
         switch ((ErrorCode)code) {
-- 
2.43.0


From 2d6280901d38817bc52bcf383abc30125850ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 17/27] fix: description of OpenSSL errors with the highest bit
 set

---
 src/crypto/openssl/openssl_error.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/openssl/openssl_error.cpp b/src/crypto/openssl/openssl_error.cpp
index aa303a3..50de258 100644
--- a/src/crypto/openssl/openssl_error.cpp
+++ b/src/crypto/openssl/openssl_error.cpp
@@ -27,7 +27,8 @@ const char *OpenSSLErrorCategory::name() const noexcept {
 
 std::string OpenSSLErrorCategory::message(int code) const {
     char buf[256];
-    ERR_error_string_n(code, buf, sizeof(buf));
+    // error codes are unsigned: no sign extension
+    ERR_error_string_n(static_cast<unsigned int>(code), buf, sizeof(buf));
     return buf;
 }
 
-- 
2.43.0


From 87e6da0657473b1e425817389625512aca7190d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 18/27] fix: make AddressHash callable by hash containers

---
 src/net/ip/ip_address_hash.cpp | 2 +-
 src/net/ip/ip_address_hash.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/ip/ip_address_hash.cpp b/src/net/ip/ip_address_hash.cpp
index b1ce7b0..846d547 100644
--- a/src/net/ip/ip_address_hash.cpp
+++ b/src/net/ip/ip_address_hash.cpp
@@ -12,7 +12,7 @@
 
 namespace freewebrtc::net::ip {
 
-std::size_t AddressHash::operator()(const net::ip::Address& addr) {
+std::size_t AddressHash::operator()(const net::ip::Address& addr) const {
     return std::visit(
         util::overloaded {
             [](const AddressV4& v4) {
diff --git a/src/net/ip/ip_address_hash.hpp b/src/net/ip/ip_address_hash.hpp
index d8a3f12..df35a77 100644
--- a/src/net/ip/ip_address_hash.hpp
+++ b/src/net/ip/ip_address_hash.hpp
@@ -15,7 +15,7 @@
 namespace freewebrtc::net::ip {
 
 struct AddressHash {
-    std::size_t operator()(const net::ip::Address&);
+    std::size_t operator()(const net::ip::Address&) const;
 };
 
 
-- 
2.43.0


From 81de7215937d7aa2f9ee42b64adc52db7eb89cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 19/27] fix: description of OpenSSL errors with the highest bit
 set in node bindings

---
 node/openssl/node_openssl_error.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_error.cpp b/node/openssl/node_openssl_error.cpp
index d856d57..f56439c 100644
--- a/node/openssl/node_openssl_error.cpp
+++ b/node/openssl/node_openssl_error.cpp
@@ -26,7 +26,8 @@ const char *OpenSSLErrorCategory::name() const noexcept {
 
 std::string OpenSSLErrorCategory::message(int code) const {
     char buf[256];
-    ERR_error_string_n(code, buf, sizeof(buf));
+    // error codes are unsigned: no sign extension
+    ERR_error_string_n(static_cast<unsigned int>(code), buf, sizeof(buf));
     return buf;
 }
 
-- 
2.43.0


From 8ceaf865b45cb714958b575706ecf136eb68c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 20/27] fix: ordering of client handles was declared but
 deleted

---
 src/stun/stun_client_udp_handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp_handle.hpp b/src/stun/stun_client_udp_handle.hpp
index 2b29bdf..4b6b148 100644
--- a/src/stun/stun_client_udp_handle.hpp
+++ b/src/stun/stun_client_udp_handle.hpp
@@ -9,13 +9,14 @@
 #pragma once
 
 #include <stddef.h>
+#include <compare>
 #include <functional>
 
 namespace freewebrtc::stun::client_udp {
 
 struct Handle {
     unsigned value;
-    bool operator<=>(const Handle&) const noexcept = default;
+    auto operator<=>(const Handle&) const noexcept = default;
 };
 
 struct HandleHash {
-- 
2.43.0


From 75a6744e5fed504836cf861c631abf6dd852e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 21/27] fix: stateless server binding threw on ignored messages
 of unknown method

---
 node/node_stun/node_stun_server_stateless.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index fe495fd..75614b4 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -65,8 +65,11 @@ Result<Value> process_message(Env& env, const CallbackInfo& info) {
                             env.create_object({
                                 {"result", env.create_string("ignore")},
                                 {"message",
-                                        std::move(ign.message).fmap([&](const auto& msg) {
-                                            return node_stun::message(env, msg);
+                                        ign.message.bind([&](const auto& msg) {
+                                            // Peer can send anything that has no JS representation
+                                            // (e.g. unknown method). It is not an error for ignored message.
+                                            auto obj_rv = node_stun::message(env, msg);
+                                            return obj_rv.is_ok() ? Maybe<RVO>{obj_rv} : Maybe<RVO>{none()};
                                         })}
                             });
                     },
-- 
2.43.0


From 9a6572be7021db0db14f875f61da68095d0a70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 22/27] fix: client accepted responses of a method other than
 Binding

---
 src/stun/stun_client_udp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index e30a381..60958aa 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -69,6 +69,11 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 
     return
         combine([&](auto&& trans, stun::Message&& msg, auto&&) {
+            // RFC5389: 7.3.  Receiving a STUN Message
+            // Message of the method that is not supported is silently discarded.
+            if (msg.header.method != Method::binding()) {
+                return success();
+            }
             if (msg.header.cls == Class::success_response()) {
                 return handle_success_response(now, trans.get(), std::move(msg));
             } else if (msg.header.cls == Class::error_response()) {
-- 
2.43.0


From 55dca688aa8e3ea2fd352b9ddda68655be7fde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 23/27] fix: node openssl hash: report errors of updating the
 digest

The error of EVP_DigestUpdate was dropped and the digest of an incomplete
message was returned as if nothing had happened.
---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From 8adf9da5ddafe6afe44128758ecf0d524ba2c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 24/27] fix: sleeps of 2^31 ms or more wrapped in node binding

timeout_ms is 32-bit integer: longer sleep is reported as the longest
that fits.
---
 node/node_stun/node_stun_client_udp_effects.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/node_stun/node_stun_client_udp_effects.cpp b/node/node_stun/node_stun_client_udp_effects.cpp
index 3005824..4a6f2a8 100644
--- a/node/node_stun/node_stun_client_udp_effects.cpp
+++ b/node/node_stun/node_stun_client_udp_effects.cpp
@@ -6,7 +6,9 @@
 // Mapping of STUN UDP client effects to NAPI
 //
 
+#include <cstdint>
 #include <iostream>
+#include <limits>
 
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_client_udp.hpp"
@@ -75,9 +77,11 @@ Result<craftnapi::Object> transaction_failed_to_craftnapi(craftnapi::Env& env, c
 Result<craftnapi::Object> sleep_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::Sleep& s) {
     auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(s.sleep);
     auto adj = s.sleep == ms ? 0 : 1; // adjust to next whole ms
+    // Longer sleep than fits is interrupted by next poll.
+    const auto max_ms = std::chrono::milliseconds{std::numeric_limits<int32_t>::max()};
     return env.create_object({
         {"type", env.create_string("sleep")},
-        {"timeout_ms", env.create_int32(ms.count() + adj)}
+        {"timeout_ms", env.create_int32(ms < max_ms ? ms.count() + adj : max_ms.count())}
     });
 }
 
-- 
2.43.0


From 2829ea197387ab342631e2ab986287d765bce8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 25/27] fix: case-insensitive comparison of ABNF strings
 depended on the locale

std::tolower folds other bytes than A-Z in 8-bit locales, and does not
fold I to i in Turkish one. ABNF strings are US-ASCII.
---
 src/abnf/abnf.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 72fb84e..ab4b20b 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -10,7 +10,6 @@
 #pragma once
 
 #include <string_view>
-#include <cctype>
 
 namespace freewebrtc::abnf {
 
@@ -37,11 +36,15 @@ inline bool is_DIGIT(char c) {
 }
 
 inline bool eq_string(std::string_view v1, std::string_view v2) {
+    // US-ASCII only: std::tolower depends on the locale
+    const auto to_lower = [](char c) {
+        return 0x41 <= c && c <= 0x5a ? static_cast<char>(c + 0x20) : c;
+    };
     if (v1.size() != v2.size()) {
         return false;
     }
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower(v1[i]) != std::tolower(v2[i])) {
+        if (to_lower(v1[i]) != to_lower(v2[i])) {
             return false;
         }
     }
-- 
2.43.0


From 5b8217c5bec2d8f1eb16fee6821c2b10a2cc8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 26/27] fix: forget outdated RTO history also when a new path
 backs off

ClientUDPRtoCalculator::backoff returned early for a path it had not seen
without discarding outdated history, so a client whose transactions time
out on ever new paths kept one entry per path for ever.
---
 src/stun/details/stun_client_udp_rto.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..e7880f9 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -76,6 +76,7 @@ void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Durat
     if (it == m_by_path.end()) {
         auto [it, _] = m_by_path.emplace(path, Data{path, now, backoff});
         m_timeline.push_back(it->second);
+        clear_outdated(now);
         return;
     }
     auto& data = it->second;
-- 
2.43.0


From 53201c5ca126e43ebd6f8c051d04676bd462f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 27/27] fix: do not copy all parsed STUN attributes for each
 one

The fold in parse_attrs returned its accumulator by copy for every
attribute, so time and memory to parse a message were quadratic in the
number of its attributes: a single 60 KB datagram of empty attributes
asked for gigabytes.
---
 src/stun/stun_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index ce477f4..21796cb 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -322,7 +322,7 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
         return Attribute::parse(attr_view, attr_type, stat)
             .fmap([&](Attribute::ParseResult&& attr) {
                 result.emplace_back(std::move(attr));
-                return result;
+                return std::move(result);
             });
     }).fmap([&](Result&& attrs) {
         return ParseAttrsResult {
-- 
2.43.0

