"""Which property is decided by which check (lib/vf/<module>.py)."""
T_CLIENT = ("TLA+ state machine of the UDP STUN client (spec/client/ClientUDP.tla) model-checked with TLC; histories of the real client "
            "(TLC-generated and randomised stimuli) validated against it as behaviours")
T_STUN = ("TLA+ specification of the STUN wire format (spec/stun/StunWire.tla, with SHA-1/HMAC/CRC-32 in spec/lib) model-checked with TLC; "
          "TLC-enumerated and randomised datagrams and messages replayed into the real code, every answer validated against the specification")
T_SERVER = ("TLA+ state machine of the stateless STUN server (spec/stun/StunServer.tla over StunWire.tla) model-checked with TLC against a "
            "token-level decision table; TLC-generated and randomised histories of the real server validated against it")
CHECKS = {}
for _n in range(1, 9):
    CHECKS[f"C0{_n}"] = {"module": "client", "technique": T_CLIENT, "note": ""}
for _n in range(9, 18):
    CHECKS[f"C{_n:02}"] = {"module": "stun", "func": f"run_c{_n:02}", "technique": T_SERVER if _n < 11 else T_STUN, "note": ""}
CHECKS["C18"] = {"module": "stun", "func": "run_c18", "technique": "TLA+ specifications of the STUN and RTP parsers including their statistics (spec/stun, spec/rtp), model-checked with TLC; TLC-enumerated and randomised parse sequences on one statistics object replayed into the real parsers and validated as behaviours", "note": ""}
CHECKS["C19"] = {"module": "rtp", "func": "run_c19", "technique": "TLA+ specification of RTP packets (spec/rtp/RtpWire.tla) model-checked with TLC; TLC-enumerated and randomised packets and payload maps replayed into the real parser, every answer validated against the specification", "note": ""}
CHECKS["C20"] = {"module": "clock", "func": "run_c20", "technique": "TLA+ specification of circular time (spec/clock): laws proved by Apalache for the 2^64 circle and model-checked by TLC on small ones; TLC-generated and randomised operation sequences on real time points validated as behaviours", "note": ""}
CHECKS["C21"] = {"module": "clock", "func": "run_c21", "technique": "TLA+ state machine of the clock converter (spec/clock/Converter.tla): inductive invariant proved by Apalache for all readings and resolutions; TLC-generated and randomised reading sequences replayed into real converters and validated as behaviours", "note": ""}
T_TEXT = ("TLA+ specification of the texts (spec/text: Text, Net, Ice, token-stream state machine), its laws model-checked with TLC (and, for the priority formula, proved by "
          "Apalache); TLC-enumerated and randomised texts replayed into the real code, every answer validated against the specification")
for _n in (22, 23, 24, 25, 26, 28, 33):
    CHECKS[f"C{_n}"] = {"module": "text", "func": f"run_c{_n}", "technique": T_TEXT, "note": ""}
CHECKS["C27"] = {"module": "ilist", "func": "run_c27", "technique": "TLA+ state machine of intrusive lists and links (spec/list/IList.tla, refining abstract sequences) model-checked with TLC; TLC-enumerated and randomised operation histories on real lists validated as behaviours", "note": ""}
CHECKS["C29"] = {"module": "hmac", "func": "run_c29", "technique": "TLA+ specification of RFC 2104 over an abstract incremental hash and of SHA-1/MD5 (spec/hmac, spec/lib/Hashes) model-checked with TLC; TLC-enumerated (with failures) and randomised digests computed by the real code and validated against it", "note": ""}
T_VALUES = ("TLA+ specification of value types: hash as a function of content, hash containers as abstract maps (bucketed refinement model-checked with TLC), type-erased hashes, wrappers, error "
            "categories (spec/values); TLC-generated and randomised uses of the real types recorded and validated against it")
for _n in (30, 31, 32):
    CHECKS[f"C{_n}"] = {"module": "values", "func": f"run_c{_n}", "technique": T_VALUES, "note": ""}
CHECKS["C34"] = {"module": "binding", "func": "run_c34", "technique": "TLA+ composition of the UDP client's state machine, the server and an unreliable network (spec/client/Binding.tla) model-checked with TLC; histories of a real client and a real server exchanging real datagrams (TLC-generated and randomised loss, duplication, reordering, damage, address translation) validated as behaviours", "note": ""}
CHECKS["C35"] = {"module": "node", "func": "run_c35", "technique": "TLA+ specification of the Node.js bindings (spec/node: JS values, mapping of arguments and results) over the client's and server's state machines and the STUN and candidate parsers; model-generated and randomised JS-level histories of the real bindings (in-memory JS values) validated as behaviours", "note": ""}
CHECKS["C36"] = {"module": "memory", "func": "run_c36", "technique": "TLA+ specification of what a client has to remember (spec/memory/Residue.tla), its bounds model-checked with TLC; the heap of the real client, server and parsers, measured during long randomised runs, validated against them", "note": ""}
CHECKS["C37"] = {"module": "values", "func": "run_c37", "technique": "TLA+ specification of the hash scheme (spec/values/Murmur.tla): that it loses nothing of the content or seed is model-checked with TLC for small words; hashes the real code gives to families of nearly equal contents recorded and validated against that (spec/values/SpreadTrace.tla)", "note": ""}
CHECKS["C38"] = {"module": "memory", "func": "run_c38", "technique": "TLA+ specification of what appending pieces of an input to growing containers asks for (spec/memory/Use.tla), model-checked with TLC; the memory the real parsers, builder and server ask for, measured over inputs of all sizes and worst-case shapes, validated against it", "note": ""}
NOT_APPLICABLE = {}
