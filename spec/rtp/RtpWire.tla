------------------------------ MODULE RtpWire ------------------------------
(* RTP packets (RFC 3550 section 5.1) as the repository reads them: which      *)
(* datagrams are packets under a payload map, what they say and where their    *)
(* parts are, which error and which statistics a rejected one produces.        *)
EXTENDS Words, FiniteSets, TLC

\* a payload map: function from payload types (0..127) to clock rates (words)
HeaderLen == 12
Version(d) == d[1] \div 64
PFlag(d) == (d[1] \div 32) % 2 = 1
XFlag(d) == (d[1] \div 16) % 2 = 1
CC(d) == d[1] % 16
Marker(d) == d[2] >= 128
PT(d) == d[2] % 128

Err(e, c) == [ok |-> FALSE, err |-> e, ctr |-> {"error", c}]

ExtOffset(d) == HeaderLen + 4 * CC(d)
\* bytes taken by the extension header and its data, -1 if they do not fit
ExtSize(d) ==
    IF ~XFlag(d) THEN 0
    ELSE IF ExtOffset(d) + 4 > Len(d) THEN -1
    ELSE LET n == 4 * (U16(d, ExtOffset(d) + 3) + 1)
         IN IF ExtOffset(d) + n > Len(d) THEN -1 ELSE n
Padding(d, room) == IF ~PFlag(d) THEN 0 ELSE IF room = 0 \/ d[Len(d)] = 0 \/ d[Len(d)] > room THEN -1 ELSE d[Len(d)]

Parse(d, map) ==
    IF Len(d) < HeaderLen THEN Err("packet_is_too_short", "invalid_size")
    ELSE IF Version(d) # 2 THEN Err("unknown_packet_version", "invalid_version")
    ELSE IF Len(d) < ExtOffset(d) THEN Err("any", "invalid_csrc")
    ELSE IF PT(d) \notin DOMAIN map THEN Err("unknown_rtp_clock", "unknown_rtp_clock")
    ELSE LET xs == ExtSize(d) IN
         IF xs < 0 THEN Err("invalid_extension_length", "invalid_extension")
         ELSE LET off == ExtOffset(d) + xs
                  pad == Padding(d, Len(d) - off)
              IN IF pad < 0 THEN Err("invalid_packet_padding", "invalid_padding")
                 ELSE [ok |-> TRUE, err |-> "", ctr |-> {"success"},
                       m |-> [marker |-> Marker(d), pt |-> PT(d), seq |-> U16(d, 3), ts |-> WOf(d, 5), ssrc |-> WOf(d, 9),
                              csrcs |-> [i \in 1..CC(d) |-> WOf(d, HeaderLen + 4 * i - 3)],
                              ext |-> IF XFlag(d) THEN << U16(d, ExtOffset(d) + 1), ExtOffset(d) + 4, xs - 4 >> ELSE <<>>,
                              pay |-> << off, Len(d) - off - pad >>]]
=============================================================================
