#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CL = ["src/stun/stun_client_udp.cpp", "src/stun/stun_client_udp.hpp"]
CLOBS = ["ClientUDP::create", "ClientUDP::response", "ClientUDP::next"]
NOT_BUILT = "The client is not even compiled by the stable build; its unit tests replay a few fixed histories."

p("C01", "Each STUN client transaction ends exactly once, and nothing follows its end",
  "For every transaction created on the UDP STUN client, the effects returned by next() contain at most one terminal effect (TransactionOk or TransactionFailed) carrying its handle, and no SendData for that handle after the terminal one. A caller that keeps polling next() at the announced times obtains exactly one terminal effect per transaction. Handles of live transactions are pairwise distinct and every effect names a handle that create() returned; responses that arrive once an outcome has been determined never change it.",
  ["histories", "schedules", "inputs"],
  "every interleaving of create/response/next over any number of concurrent transactions, paths, response kinds (duplicates, late, reordered, several responses before the next poll) and poll times",
  NOT_BUILT + " None of them delivers two responses before polling, or a response racing the timeout that is already queued.",
  CL, [("effect queue and cleanup", "ClientUDP::next / ClientUDP::cleanup"), ("transaction lookup", "ClientUDP::find_transaction")], CLOBS,
  [("m_tmap", "live transactions", "stun_client_udp.hpp"), ("m_effects", "pending effects, FIFO", "stun_client_udp.hpp")])
p("C02", "Retransmission schedule: RTO, doubling, cap, Rc sends, Rm*RTO, then Timeout",
  "A request that gets no usable response is sent at creation and then each time the current wait has elapsed since the poll that performed the previous send; the first wait is the path's RTO, every later wait is twice the previous one, except the wait after the Rc-th send, which is Rm times the initial RTO; when a maximum RTO is configured, no wait after the first exceeds it. Exactly Rc sends take place and the transaction then fails with Timeout at the end of the last wait, not before. Polling early sends nothing; polling late shifts only the later deadlines.",
  ["schedules", "configurations", "histories"],
  "every Rc >= 1, Rm, RTO, cap, poll schedule (early, exact, late) and any number of interleaved transactions",
  NOT_BUILT + " They cover the default Rc=7/Rm=16 and one cap that never binds downward.",
  CL, [("RetransmitAlgo", "ClientUDP::RetransmitAlgo::calc_next/next/init"), ("timeline", "ClientUDP::next")], CLOBS)
p("C03", "Only matching, authentic responses affect a transaction",
  "A datagram influences a transaction only if it parses as a STUN message, is a success or error response of the Binding method, carries that transaction's id and - when the transaction was created with credentials - a MESSAGE-INTEGRITY valid under those credentials; the only exception is an error response 300 without MESSAGE-INTEGRITY when unauthenticated alternate-server responses are explicitly allowed. Every other datagram leaves all transactions, their timers and the RTO history exactly as they were, and response() reports the corresponding error (transaction not found, invalid digest, missing integrity, parse error). A message supplied pre-parsed is judged exactly like one parsed from the bytes.",
  ["inputs", "histories", "configurations"],
  "every datagram, history of live/finished transactions, credentials and settings",
  NOT_BUILT + " They try a handful of forged responses on one fresh transaction.",
  CL + ["src/stun/stun_message.cpp"], [("check_response_auth", "ClientUDP::check_response_auth"), ("find_transaction", "ClientUDP::find_transaction")], CLOBS)
p("C04", "Classification of STUN responses into transaction outcomes",
  "An accepted success response ends the transaction with TransactionOk carrying the XOR-MAPPED-ADDRESS endpoint if present, else the MAPPED-ADDRESS endpoint, and the response message; with unknown comprehension-required attributes it fails listing them, and without any address it fails with no_address_in_response. An accepted error response fails the transaction: unknown comprehension-required attributes listed first, then missing ERROR-CODE, 300 giving the ALTERNATE-SERVER endpoint (or no_alternate_server_in_response), other 3xx and 4xx giving the error code, 420 giving the reported UNKNOWN-ATTRIBUTES when present; codes outside 300-599 do not change the transaction. The outcome, its payload and the round trip time (present exactly when nothing was retransmitted: time of response minus creation) are those of the first accepted final response.",
  ["inputs", "histories", "configurations"],
  "every combination of response class, error code, attributes present, retransmission count and settings",
  NOT_BUILT + " They check one instance of most branches.",
  CL, [("handle_success_response / handle_error_response", "stun_client_udp.cpp")], CLOBS)
p("C05", "5xx responses: bounded, delayed resends, otherwise failure",
  "When a server-error timeout is configured and fewer than the configured maximum of 5xx responses were accepted for a transaction, a 5xx response at time t does not end it; the same request is sent again at the first poll at or after t + timeout (the previously running retransmission wait is replaced), and each accepted 5xx allows one send more than Rc. Without a configured timeout, or once the maximum is reached, a 5xx response fails the transaction with that error code.",
  ["histories", "schedules", "configurations"],
  "every arrival time of 5xx responses relative to the retransmission timer, every maximum and timeout (shorter or longer than the running wait)",
  NOT_BUILT + " Their 5xx timeouts always expire together with the running timer.",
  CL, [("process_5xx", "ClientUDP::RetransmitAlgo::process_5xx"), ("timeline", "ClientUDP::next")], CLOBS)
p("C06", "RTO estimation follows RFC 6298 with Karn's rule, per network path",
  "A new transaction's first wait is the configured initial RTO for a path without history; otherwise the estimate SRTT + 4*RTTVAR of that path (first sample: SRTT=R, RTTVAR=R/2; then RTTVAR=3/4 RTTVAR+1/4|SRTT-R|, SRTT=7/8 SRTT+1/8 R in integer microseconds), overridden by the last used wait if the latest success on the path needed a retransmission. Only responses to never-retransmitted requests contribute samples. Paths (source/destination address pairs) never influence each other, and history not updated within the configured duration is eventually discarded and never survives an update of any path.",
  ["histories", "schedules", "configurations"],
  "every sequence of successes with and without retransmissions over several paths, including expiry of history",
  NOT_BUILT + " The RTO calculator test checks two paths and a few samples.",
  ["src/stun/details/stun_client_udp_rto.cpp", "src/stun/stun_client_udp.cpp"], [("ClientUDPRtoCalculator", "src/stun/details/stun_client_udp_rto.cpp")], CLOBS)
p("C07", "Content of client requests; every retransmission is byte-identical",
  "The bytes of a transaction's first SendData form a well-formed STUN Binding request with the RFC 5389 magic cookie, a transaction id drawn from the supplied random device and different from every live transaction, the caller's attributes with their values, the caller's unknown attributes with their bytes, USERNAME and a valid MESSAGE-INTEGRITY exactly when credentials were given, and a valid final FINGERPRINT exactly when enabled. Each later SendData of the transaction is byte-identical to the first.",
  ["inputs", "configurations", "histories"],
  "every attribute list, credentials, settings and random-device output (including collisions with live ids)",
  NOT_BUILT + " They check a few attribute combinations and never a colliding transaction id.",
  CL + ["src/stun/stun_transaction_id.hpp", "src/stun/stun_message.cpp"], [("create/do_create", "stun_client_udp.hpp, stun_client_udp.cpp")], CLOBS)
p("C08", "Sleep never passes a deadline; Idle only when nothing is pending",
  "next(now) returns Sleep(d) only if no effect is pending and d > 0, and then now + d is never later than the earliest deadline of any live transaction; it returns Idle only if no transaction is live and no effect is pending. Pending effects are returned one per call in the order in which their causes occurred, simultaneous deadlines in deadline order. Following the returned sleeps always reaches the next deadline in finitely many polls.",
  ["schedules", "histories"],
  "every interleaving of create/response/next with any number of live transactions and any poll times",
  NOT_BUILT + " They never have more than two transactions with interleaved deadlines.",
  CL, [("timeline priority queue and effect queue", "ClientUDP::next")], CLOBS)
p("C09", "Stateless STUN server decision table",
  "For every datagram the server answers exactly as follows: unparsable data and anything but a request is ignored (reporting the parsed message, if there is one); a request with unknown comprehension-required attributes gets 420 listing exactly them; exactly one of USERNAME and MESSAGE-INTEGRITY gets 400; an unknown user or a wrong MESSAGE-INTEGRITY gets 401; a non-Binding request that passes is ignored; every other request succeeds. A user is accepted only with a MESSAGE-INTEGRITY valid under the password registered for exactly that user name, a failing hash function makes the server report an error instead of an answer that depends on it, and processing a datagram never changes later answers. The first registration of a user name counts.",
  ["inputs", "histories", "configurations"],
  "every datagram, user database and sequence of datagrams",
  "The server is not compiled by the stable build and its tests exercise one example per row, no sequences.",
  ["src/stun/stun_server_stateless.cpp", "src/stun/stun_server_stateless.hpp"], [("process", "stun::server::Stateless::process")])
p("C10", "Content of STUN server responses",
  "Every response repeats the request's transaction id and method (and RFC 3489 framing) with the success or error class; a success carries the packet's source address and port in XOR-MAPPED-ADDRESS (MAPPED-ADDRESS for RFC 3489 requests), an error the decided ERROR-CODE and, for 420, UNKNOWN-ATTRIBUTES. No other attribute is added, except: FINGERPRINT, last and valid, in success responses exactly when enabled and the request is not RFC 3489, and MESSAGE-INTEGRITY valid under the user's password exactly when the request was authenticated. Except for RFC 3489 requests the bytes parse back to exactly this message.",
  ["inputs", "configurations"],
  "every request, source endpoint (IPv4/IPv6, any port) and server setting",
  "The server is not compiled by the stable build; its tests check a few IPv4 examples.",
  ["src/stun/stun_server_stateless.cpp", "src/stun/stun_message.cpp"], [("Stateless::process and response creation", "src/stun/stun_server_stateless.cpp")])
p("C11", "A datagram is accepted as STUN exactly when its framing is well formed",
  "Parsing succeeds only if the data has a 20-byte header whose two top bits are zero, a length field equal to the remaining size and a multiple of 4, attributes that exactly tile the body (4-byte aligned with padding), known attributes of legal size and content, FINGERPRINT only as the last attribute and matching the data; every such datagram with the magic cookie is accepted, requests without the cookie are accepted as RFC 3489 with a 16-byte transaction id, and other messages without it are rejected. Parsing never reads outside the datagram and every rejection reports the first applicable error of the parser.",
  ["inputs"], "all byte strings of any length",
  "The parser is not compiled by the stable build; the tests feed RFC 5769 vectors and a few truncations.",
  ["src/stun/stun_message.cpp", "src/stun/stun_header.cpp", "src/stun/stun_attribute.cpp"], [("Message::parse", "src/stun/stun_message.cpp"), ("Attribute::parse", "src/stun/stun_attribute.cpp")])
p("C12", "Parsed STUN attributes faithfully reflect the wire",
  "For an accepted message the reported class, method, transaction id and each known attribute's value equal what the bytes encode, for the first occurrence of that attribute; later duplicates are ignored, unknown attributes are preserved with type and raw bytes, and attributes after MESSAGE-INTEGRITY other than FINGERPRINT are ignored. The unknown comprehension-required list contains exactly the unknown types below 0x8000.",
  ["inputs"], "all accepted byte strings (attribute orders, duplicates, sizes, padding values)",
  "The parser is not compiled by the stable build; the tests cover one or two values per attribute.",
  ["src/stun/stun_attribute.cpp", "src/stun/stun_attribute_set.cpp", "src/stun/stun_message.cpp"], [("Attribute::parse", "src/stun/stun_attribute.cpp"), ("AttributeSet", "src/stun/stun_attribute_set.cpp")])
p("C13", "STUN messages survive build and parse unchanged",
  "Building any message (class, method, transaction id, every kind of known attribute, unknown attributes, with or without integrity and fingerprint) yields bytes whose length field is correct, whose padding is zero bytes up to a multiple of 4, and which parse back to the same class, method, id, attribute values and unknown attributes, with FINGERPRINT last and MESSAGE-INTEGRITY directly before it. Rebuilding a parsed message (error code below 800) loses no information.",
  ["inputs"], "all messages whose attribute values fit their 16-bit lengths",
  "Message building is not compiled by the stable build; the tests build a few messages with IPv4 addresses.",
  ["src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_attribute_set.cpp"], [("Message::build", "src/stun/stun_message.cpp"), ("AttributeSet::build", "src/stun/stun_attribute_set.cpp")])
p("C14", "MESSAGE-INTEGRITY accepts exactly the HMAC over the RFC 5389 interval",
  "For an accepted message the integrity verdict is 'absent' exactly when there is no MESSAGE-INTEGRITY attribute, and otherwise true exactly when its 20 bytes equal HMAC (with the supplied hash and key) of the bytes before the first MESSAGE-INTEGRITY attribute with the header length field set to end right after that attribute. A change of any covered byte, of the key or of the digest changes a true verdict to false; bytes after the attribute do not matter; a short-term key is exactly the password's bytes.",
  ["inputs"], "all messages, keys of any length, and single-byte modifications",
  "Not compiled by the stable build; tests check two RFC vectors.",
  ["src/stun/stun_message.cpp", "src/stun/stun_password.cpp", "src/crypto/crypto_hmac.hpp"], [("Message::is_valid", "src/stun/stun_message.cpp"), ("Password::short_term", "src/stun/stun_password.cpp")])
p("C15", "FINGERPRINT is CRC-32 of the preceding message XOR 0x5354554e",
  "A message with a FINGERPRINT attribute is accepted only if the attribute's value equals CRC-32 (ISO 3309) of all bytes before the attribute XOR 0x5354554e, and every built FINGERPRINT has that value. In particular, changing any single bit of a message protected by FINGERPRINT makes it be rejected or be seen as a message without FINGERPRINT.",
  ["inputs"], "all messages and single-byte modifications",
  "Not compiled by the stable build; tests check RFC vectors.",
  ["src/stun/details/stun_fingerprint.cpp", "src/stun/stun_message.cpp"], [("crc32", "src/stun/details/stun_fingerprint.cpp")])
p("C16", "XOR-MAPPED-ADDRESS transform and address attributes are exact",
  "The XOR-MAPPED-ADDRESS of an address is the address XORed with the magic cookie (IPv4) or with cookie followed by transaction id (IPv6), converting back with the same transaction id yields the original address, and the port is XORed with the cookie's upper 16 bits on the wire. MAPPED-ADDRESS and ALTERNATE-SERVER carry family (1 = IPv4, 2 = IPv6), port and address unchanged; a value with another family or a size not matching its family is rejected.",
  ["inputs"], "all IPv4/IPv6 addresses, ports and transaction ids, and all attribute byte values",
  "Not compiled by the stable build; tests check the RFC 5769 examples.",
  ["src/stun/stun_address.cpp", "src/stun/stun_address.hpp", "src/stun/stun_attribute.cpp"], [("XoredAddress", "src/stun/stun_address.cpp"), ("address attributes", "src/stun/stun_attribute.cpp")])
p("C17", "STUN class/method occupy their RFC bit positions, for all 14-bit types",
  "Decoding a 16-bit message type (its two top bits do not matter) gives the 2-bit class from bits 4 and 8 and the 12-bit method from the remaining bits below bit 14; encoding a class and a method gives the unique type whose decoding is that pair, so encoding and decoding are inverse on all classes, methods and types. Exactly the four classes exist, each is recognised as itself only, and Binding is method 1.",
  ["inputs"], "all 4 classes x 4096 methods and all 16384 message types",
  "No stable test touches class or method; the others use Binding only, whose high method bits are zero.",
  ["src/stun/stun_class.hpp", "src/stun/stun_method.hpp"], [("Class::from_msg_type/to_msg_type", "src/stun/stun_class.hpp"), ("Method::from_msg_type/to_msg_type", "src/stun/stun_method.hpp")])
p("C18", "Each parse increments exactly one of the success and error counters",
  "Every STUN or RTP parse increments exactly one of the 'success' and 'error' counters of the statistics it was given, by one, success exactly when it returns a packet; on failure the specific cause counters are incremented consistently with the returned error, and nothing else changes. Counters only ever grow, and reading one does not change it.",
  ["inputs", "histories"], "all byte strings and any sequence of parses sharing one statistics object",
  "Parsers are not compiled by the stable build; the tests check a few counters for a few errors.",
  ["src/stun/stun_parse_stat.hpp", "src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/rtp/rtp_packet.cpp", "src/stat/stat_counter.hpp"], [("ParseStat counters", "Message::parse, rtp Packet::parse")])
p("C19", "RTP packets are accepted exactly when well formed, with exact geometry",
  "A datagram parses as RTP exactly when it is version 2, long enough for the fixed header, CSRC list and (when flagged) extension header with its stated length, its padding count (when flagged) is between 1 and the space left, and its payload type is in the payload map; otherwise the first applicable error is reported and nothing outside the datagram is read. Header fields, CSRCs, extension bytes and payload of an accepted packet are exactly those at their RFC 3550 positions, padding excluded, and clock rate is the mapped one.",
  ["inputs", "configurations"], "all byte strings and all payload maps",
  "The packet parser is not compiled by the stable build; its tests parse a few hand-written packets.",
  ["src/rtp/rtp_packet.cpp", "src/rtp/rtp_payload_map.cpp", "src/rtp/details/rtp_header_details.hpp"], [("Packet::parse", "src/rtp/rtp_packet.cpp")])
p("C20", "Timepoints form a circular microsecond clock with lossless advance",
  "Advancing a time point by a duration and subtracting gives exactly that duration for every distance below half the 64-bit range, in both directions and across wrap-around; is_after, is_before and == are mutually exclusive, mirror each other, agree with the sign of the difference, and exactly one holds except at the antipode. Splitting off whole microseconds from any signed duration moves the time point by exactly the removed amount and leaves the remainder (same sign, below one microsecond) in the argument, so no time is gained or lost over any sequence of steps.",
  ["inputs", "histories"], "all time points, durations of every std::chrono unit (positive, negative, zero) and sequences of operations",
  "The 17 stable tests check some small positive and wrap-around examples, no negative sub-microsecond durations and no sequences.",
  ["src/clock/clock_timepoint.hpp"], [("Timepoint::advance/advance_from/operator-", "src/clock/clock_timepoint.hpp")])
p("C21", "The chrono clock converter never loses, gains or reorders time",
  "For every sequence of readings of the underlying clock (tick a whole multiple or whole fraction of a microsecond, any starting value, steps forward or backward) every converted reading differs from the underlying time since the clock's epoch by less than one microsecond, and equals it rounded down while the clock is non-negative and never steps back: conversion error does not accumulate. A reading not below the previous one converts to a time point not before the previous one, and an equal reading to an equal one. Converters, and threads using the library's steady clock, do not disturb one another.",
  ["histories", "configurations"], "all clocks whose tick is a whole multiple or fraction of a microsecond, and all sequences of readings",
  "No stable test uses the converter (clock_std.hpp is only syntax-checked).",
  ["src/clock/clock_std.hpp", "src/clock/clock_timepoint.hpp"], [("ChronoClockConverter", "src/clock/clock_std.hpp")])
p("C22", "ICE candidate SDP attribute lines are parsed exactly per RFC 8839",
  "A text is accepted as candidate attribute exactly when it is 'candidate:' followed by foundation, component, transport, priority, address, port, 'typ' and type, separated by single spaces, then any number of name/value pairs (raddr and rport being address and port, the last of each counting; one trailing space is tolerated); every parsed field equals its token and the other pairs are kept, in order. A line whose only fault is a transport, candidate type or address that is not recognised is reported as unsupported rather than as an error. Any other text is not accepted: without the prefix the error is invalid_attr_prefix, and where only foundation, component, priority, port, raddr or rport are malformed it is the error of the first malformed one in that order.",
  ["inputs"], "all strings",
  "Not compiled by the stable build; the tests parse a few example lines.",
  ["src/ice/candidate/ice_candidate_sdp.cpp", "src/util/util_token_stream.cpp"], [("parse_sdp_attr", "src/ice/candidate/ice_candidate_sdp.cpp")])
p("C23", "ICE candidate tokens accept exactly their grammar and keep their value",
  "Foundation accepts exactly 1-32 ice-char strings, component-id 1-3 digits with value at most 256, priority 1-10 digits with value from 1 to 2^32-1, transport exactly 'udp' and candidate type exactly host, srflx, prflx or relay, both ASCII-case-insensitively. Accepted values equal, and where printable print as, the value the text denotes; all other strings are rejected with the specific error (length, character, value or unknown).",
  ["inputs"], "all strings (any bytes, any length)",
  "Not compiled by the stable build; a few strings per token are tested.",
  ["src/ice/candidate/ice_candidate_foundation.cpp", "src/ice/candidate/ice_candidate_component_id.cpp", "src/ice/candidate/ice_candidate_priority.cpp", "src/ice/candidate/ice_candidate_transport_type.cpp", "src/ice/candidate/ice_candidate_type.cpp", "src/ice/ice_abnf.hpp"], [("from_string of each token", "src/ice/candidate")])
p("C24", "ICE candidate priority follows the RFC 8445 formula and order",
  "The priority computed from type, local and component preferences is exactly 2^24*type + 2^8*local + component, so different preferences give different priorities; it is an error exactly when that value is 0. Preferences are constructible exactly inside their ranges (type 0-126, local 0-65535, component 0-255) and component ids inside 1-256; the recommended type preferences are host 126, peer reflexive 110, server reflexive 100, relayed 0, and the recommended component preference is 256 minus the component id.",
  ["inputs"], "all type (0-126), local (0-65535) and component preferences",
  "Not compiled by the stable build; tests check a handful of values.",
  ["src/ice/candidate/ice_candidate_preference.cpp", "src/ice/candidate/ice_candidate_preference.hpp", "src/ice/candidate/ice_candidate_priority.cpp"], [("Priority computation", "src/ice/candidate/ice_candidate_preference.cpp")])
p("C25", "FQDN recognition matches the domain-name grammar",
  "A string is accepted as FQDN exactly when it consists of dot-separated labels, each of letters, digits, underscores and hyphens and neither starting nor ending with a hyphen, optionally followed by one final dot; an accepted name keeps its text. Parsing a prefix returns the longest such name at the start of the text together with the exact rest. Every other string is rejected with the error telling whether no label could start or text was left over.",
  ["inputs"], "all strings",
  "Not compiled by the stable build; a dozen examples are tested.",
  ["src/net/net_fqdn.cpp"], [("Fqdn::from_string", "src/net/net_fqdn.cpp")])
p("C26", "IP addresses and ports convert between text and value without loss",
  "An address string is accepted exactly when it is textual IPv4 (four decimal octets) or IPv6 (RFC 4291 forms); the stored bytes are those the text denotes, printing an address and parsing it back gives an equal address, and any trailing or embedded foreign byte is rejected. A port is accepted exactly when it is 1-5 decimal digits of value 0-65535.",
  ["inputs"], "all strings, all IPv4 and IPv6 values, all ports",
  "Not compiled by the stable build; few examples are tested.",
  ["src/net/ip/ip_address.cpp", "src/net/net_port.cpp"], [("Address::from_string/to_string", "src/net/ip/ip_address.cpp"), ("Port::from_string", "src/net/net_port.cpp")])
p("C27", "The intrusive list behaves as a sequence with self-unlinking nodes",
  "For any sequence of pushing at both ends, popping, clearing, unlinking elements, move-constructing or destroying elements, and moving or destroying lists, every list's front, back and emptiness - and so the order in which repeated popping returns its elements - equal those of the abstract sequence. An element is in at most one position (pushing a linked element again moves it, also between lists), reports whether it is in a list, is unlinked when destroyed, and hands its position to the element move-constructed from it. A moved-from list is empty and usable.",
  ["histories"], "all operation sequences over any number of elements and lists",
  "Not run by the stable tests; its own tests run short fixed sequences.",
  ["src/util/util_intrusive_list.hpp"], [("IntrusiveList / Link", "src/util/util_intrusive_list.hpp")])
p("C28", "Token stream and string split/join are exact",
  "A token stream yields its tokens exactly once each, in order: every read (required, required-and-transform, required literal, optional) takes exactly the next token, whether or not the token then matches or transforms, and at the end every read reports the absence and changes nothing. Splitting at a delimiter cuts at its first occurrence; splitting at all yields the pieces between delimiters in order (a final empty piece is omitted), so joining the pieces with the delimiter gives the text back up to one final delimiter. Removing a prefix longer than the text is reported as absence.",
  ["inputs", "histories"], "all strings and all sequences of stream operations",
  "Not compiled by the stable build; small examples only.",
  ["src/util/util_token_stream.cpp", "src/util/util_token_stream.hpp", "src/util/util_string_view.hpp"], [("TokenStream", "src/util/util_token_stream.cpp"), ("split/join", "src/util/util_string_view.hpp")])
p("C29", "HMAC follows RFC 2104 for every hash, key and message length",
  "The digest is H((K xor opad) || H((K xor ipad) || message)) where K is the key zero-padded to the block size, or the hash of a key longer than the block; the hash function supplied is the one used, over the whole message and in order. The OpenSSL hash back ends (of the library and of the Node.js module) return exactly the standard SHA-1 and MD5 digest for every input, and errors of the hash function, or of OpenSSL, are propagated. Digests computed by several threads at once are those computed alone.",
  ["inputs", "fault_sequences"], "all keys (0 to several blocks), messages and hash functions, including failing ones",
  "Not compiled by the stable build; RFC vectors only.",
  ["src/crypto/crypto_hmac.hpp", "src/crypto/crypto_hash.hpp", "src/crypto/openssl/openssl_hash.cpp", "node/openssl/node_openssl_hash.cpp"], [("hmac::digest, PadKey", "src/crypto/crypto_hmac.hpp")])
p("C30", "Equality, ordering and hashing of value types are coherent",
  "For addresses, paths, transaction ids, opaque strings, attribute types, payload types, handles and tagged values, equality (and ordering, where offered) holds exactly as on their observable contents, and equal values have equal hashes. Hash containers keyed by them therefore hold exactly the entries inserted last. A type-erased (dynamic) hash and all its copies return precisely what the wrapped algorithm returns, each instance keeping its own algorithm.",
  ["inputs", "histories"], "all pairs and sequences of values",
  "Stable tests never hash or compare these types.",
  ["src/net/net_path_hash.hpp", "src/net/ip/ip_address_hash.cpp", "src/stun/stun_transaction_id_hash.hpp", "src/precis/precis_opaque_string_hash.hpp", "src/util/util_hash_dynamic.hpp", "src/stun/stun_attribute_type.hpp", "src/stun/stun_client_udp_handle.hpp"], [("hash functors", "src/util, src/net, src/stun, src/precis")])
p("C31", "Error codes are distinct, categorised, and described",
  "Each library error enumerator converts to an error_code of its own subsystem's category carrying its own value; only 'ok' means success, and no two enumerators, nor codes of two subsystems, compare equal. Each subsystem's category has its own name, and every enumerator a non-empty message of its own that is not the one for unknown values. Values outside an enumeration still give a message without failing; the OpenSSL category carries the OpenSSL error unchanged and describes it as OpenSSL does, from any thread. A code of the library is equivalent to no error condition but the one of its own category and value.",
  ["inputs"], "all enumerators of all error categories and all out-of-range values",
  "No stable test looks at an error code.",
  ["src/stun/stun_error.cpp", "src/rtp/rtp_error.cpp", "src/net/net_error.cpp", "src/ice/candidate/ice_candidate_error.cpp", "src/crypto/openssl/openssl_error.cpp", "src/util/util_error_code.cpp"], [("std::error_category subclasses", "*_error.cpp")])
p("C32", "Value wrappers keep their value and honour their ranges",
  "RTP sequence number, timestamp, SSRC, marker, clock rate and payload type, typed booleans, tagged types, counters, opaque strings, endpoints, generated transaction ids and STUN attribute types return exactly the value they were built from, compare as those values, and reject exactly the values outside their documented range. RTP header accessors return exactly the bits of the header word assigned to the field, for all header words.",
  ["inputs"], "all values of each type; all 2^32 first header words (sampled densely plus all bit patterns per field)",
  "One stable test constructs one RTP timestamp.",
  ["src/rtp/rtp_sequence.hpp", "src/rtp/rtp_timestamp.hpp", "src/rtp/rtp_ssrc.hpp", "src/rtp/rtp_marker.hpp", "src/rtp/rtp_payload_type.hpp", "src/rtp/rtp_clock_rate.hpp", "src/rtp/details/rtp_header_details.hpp", "src/util/util_typed_bool.hpp", "src/util/util_tagged_type.hpp", "src/stat/stat_counter.hpp", "src/precis/precis_opaque_string.hpp"], [("wrapper classes", "src/rtp, src/util, src/stat, src/precis")])
p("C33", "ABNF character classes are exact on all 256 bytes",
  "Each character-class predicate (ALPHA, DIGIT, ice-char) is true for exactly the bytes of the corresponding RFC rule, including bytes above 127 passed as negative char values. Case-insensitive comparison equates exactly the strings of equal length that differ at most in the case of ASCII letters, whatever the locale of the process.",
  ["inputs"], "all 256 byte values; all pairs of strings",
  "No stable test calls the predicates.",
  ["src/abnf/abnf.hpp", "src/ice/ice_abnf.hpp"], [("is_* predicates", "src/abnf/abnf.hpp, src/ice/ice_abnf.hpp")])
p("C34", "A client and a server interoperate over any network",
  "When the client of this library talks to its server through a network that may lose, duplicate, reorder, delay, damage and translate addresses of datagrams, a transaction succeeds only with a source address under which the server received one of that very transaction's requests, and only if it used no credentials or credentials the server knows. Unsigned refusals of the server (400, 401, 420) never end a transaction with credentials, which then times out; without credentials the first answer arriving in time decides. Damaged and foreign datagrams change neither side. The server's answer depends on the request, its source address and the known users only.",
  ["inputs", "schedules", "histories"], "all interleavings of requests, deliveries (any delay, order, multiplicity, translated source), answers, polls and time, over any number of transactions",
  "No test connects the client to the server.",
  ["src/stun/stun_client_udp.cpp", "src/stun/stun_server_stateless.cpp", "src/stun/stun_message.cpp"], [("ClientUDP::create/next/response", "src/stun/stun_client_udp.cpp"), ("Stateless::process", "src/stun/stun_server_stateless.cpp")])
p("C35", "The Node.js bindings show exactly what the library does",
  "Driven from JavaScript, the client (create, next, response), the stateless server (addUser, process), the STUN parser and the candidate parser behave as the library does: every effect, message, candidate and mapped address becomes a JS value with exactly the documented properties and the same contents, datagrams sent are those of the library (with FINGERPRINT according to the settings), sleeps are rounded up to milliseconds (one too long for a JS timer may be cut to the longest a timer can take), arguments of a wrong type or shape and data that does not parse raise an exception and change no state, and nothing else raises one: in particular process() never throws on the contents of a datagram.",
  ["inputs", "schedules", "histories"], "all sequences of calls with all JS arguments (strings, buffers, numbers, objects with missing, odd and additional properties), all datagrams",
  "The bindings have no tests.",
  ["node/node_stun", "node/node_ice", "node/openssl"], [("client_udp_class", "node/node_stun/node_stun_client_udp.cpp"), ("server_stateless_class", "node/node_stun/node_stun_server_stateless.cpp"), ("message_to_craftnapi", "node/node_stun/node_stun_message.cpp"), ("candidate", "node/node_ice/node_ice_candidate.cpp")])
p("C36", "What is kept is bounded by what is pending",
  "However long a client or server runs and however many transactions, paths, datagrams and outcomes it has seen, the memory it holds is bounded by what it still has to remember: the transactions live at once, the deadlines they armed that have not passed, the paths learnt of within the history duration, and the users added. A transaction that ended, in whatever way, leaves nothing; refused, foreign and damaged datagrams leave nothing. Parsing, building, hashing and printing keep nothing at all.",
  ["histories"], "all histories of any length: all outcomes of transactions, one at a time or together, on the same or ever new paths, with all settings; all requests to a server; all inputs of parsers",
  "Tests run a handful of transactions on a few paths and never look at memory.",
  ["src/stun/stun_client_udp.cpp", "src/stun/details/stun_client_udp_rto.cpp", "src/stun/stun_server_stateless.cpp", "src/crypto/openssl/openssl_hash.cpp"], [("ClientUDP::cleanup", "src/stun/stun_client_udp.cpp"), ("ClientUDPRtoCalculator::clear_outdated", "src/stun/details/stun_client_udp_rto.cpp")])
p("C37", "Hashes use all of the content",
  "Distinct addresses, paths, transaction ids, opaque strings, attribute types, payload types and handles have distinct hashes but for rare accidents, also in families whose members differ in one byte at any place, in length, in the order of their parts, or count up: so containers keyed by them do not degrade, whatever the peers choose. The hash of transaction ids depends on all of the seed it draws, so that ids which collide for one seed cannot be prepared for another; it stays the same for one instance.",
  ["inputs"], "all families of values, all lengths, all seeds",
  "No stable test computes a hash; a poor hash passes every functional test.",
  ["src/util/util_hash_murmur.cpp", "src/util/util_hash_murmur.hpp", "src/net/net_path_hash.hpp", "src/net/ip/ip_address_hash.cpp", "src/stun/stun_transaction_id_hash.hpp", "src/precis/precis_opaque_string_hash.hpp"], [("murmur", "src/util/util_hash_murmur.cpp"), ("hash functors", "src/net, src/stun, src/precis")])
p("C38", "Handling a datagram takes memory in proportion to its size",
  "The memory asked for to parse a STUN message, an RTP packet, a candidate line, a domain name or an address, to build the message again, or to answer a request, is at most proportional to the size of the input, whatever it contains and whatever it claims of its own lengths: no datagram is amplified. (A peer that may send anything could otherwise exhaust a receiver with one datagram.)",
  ["inputs"], "all inputs of all sizes up to a datagram's, including many small attributes, wrong lengths, long names and lists",
  "Tests parse short valid messages; a copy per attribute passes all of them.",
  ["src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_attribute_set.cpp", "src/stun/stun_server_stateless.cpp", "src/rtp/rtp_packet.cpp", "src/ice/candidate/ice_candidate_sdp.cpp"], [("parse_attrs", "src/stun/stun_message.cpp"), ("AttributeSet", "src/stun/stun_attribute_set.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
