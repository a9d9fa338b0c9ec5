"""C30, C31, C32: value types, hash containers, error codes against spec/values."""
import ipaddress
from . import core, stunwire as sw
from .stun import hx, run_steps, group

RESET = ("R", {})
MORE = ["node/node_stun/node_stun_error.cpp", "node/openssl/node_openssl_error.cpp"]
KINDS = ["addr", "v4", "v6", "path", "tid", "ostr", "tag", "attr", "pt", "handle", "ssrc", "port", "method", "comp", "prio", "class", "type", "fqdn", "found", "xor", "md5", "sha1", "sha256", "pwd", "xap", "ecode"]
HASHES = {"md5": 16, "sha1": 20, "sha256": 32}
MAPS = {"addr": "addr", "path": "path", "tid": "tid", "tids": "tid", "ostr": "ostr", "attr": "attr", "pt": "pt", "handle": "handle"}


def enc(c):
    return ":".join(hx(p) for p in c)


def js(c):
    return [list(p) for p in c]


def raddr(r):
    if r.random() < 0.2:
        return sw.special_ip(r)
    return r.choice([bytes([r.choice([0, 1, 10, 127, 255])]) * 4, r.randbytes(4), bytes([10, 0, 0, r.randrange(4)]), bytes(16), bytes(15) + bytes([r.randrange(3)]), r.randbytes(16),
                     ipaddress.ip_address("2001:db8::1").packed, bytes(10) + b"\xff\xff" + bytes([10, 0, 0, r.randrange(4)]), b"\0\0\0\x01" * 4])


def content(r, k):
    """A random content (tuple of byte strings) of kind k"""
    n4 = lambda: r.choice([0, 1, 2, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, r.randrange(1 << 32)])
    if k in ("addr", "xor"):
        return (raddr(r),)
    if k == "v4":
        return (r.choice([bytes(4), r.randbytes(4)]),)
    if k == "v6":
        return (r.choice([bytes(16), r.randbytes(16), b"\0\0\0\x01" * 4]),)
    if k == "path":
        return (raddr(r), raddr(r))
    if k == "tid":
        return (r.choice([bytes(12), bytes(16), r.randbytes(12), r.randbytes(12), r.randbytes(16), bytes(11) + bytes([r.randrange(4)])]),)
    if k == "ostr":
        return (r.choice([b"", b"a", b"a\0", b"A", b"user", "pässword".encode(), r.randbytes(r.randrange(40)), b"x" * r.choice([15, 16, 17, 31, 200, 255, 256, 600]), r.randbytes(r.choice([60, 255, 300, 513]))]),)
    if k in ("tag", "handle", "ssrc"):
        return (n4().to_bytes(4, "big"),)
    if k == "prio":
        return (r.choice([1, 2, 256, 65536, (1 << 31) - 1, r.randrange(1, 1 << 31)]).to_bytes(4, "big"),)
    if k in ("attr", "port"):
        return (r.choice([0, 1, 0x7FFF, 0x8000, 65535, r.randrange(65536)]).to_bytes(2, "big"),)
    if k == "pt":
        return (bytes([r.choice([0, 1, 63, 64, 127, r.randrange(128)])]),)
    if k == "method":
        return ((r.choice([0, 1, 2, 0x20, 0x3EEF, r.randrange(1 << 14)]) & 0x3EEF).to_bytes(2, "big"),)
    if k == "comp":
        return (r.choice([1, 2, 255, 256, r.randrange(1, 257)]).to_bytes(2, "big"),)
    if k in ("class", "type"):
        return (bytes([r.randrange(4)]),)
    if k == "fqdn":
        return (b".".join(r.choice([b"a", b"A", b"b", b"example", b"com", b"x-1", b"EXAMPLE", b"a1"]) for _ in range(r.randrange(1, 4))),)
    if k == "found":
        return (bytes(r.choice(b"abAB01+/") for _ in range(r.choice([1, 2, 5, 32]))),)
    if k in HASHES:
        return (r.choice([bytes(HASHES[k]), r.randbytes(HASHES[k]), bytes(HASHES[k] - 1) + bytes([r.randrange(3)])]),)
    if k == "pwd":
        b = r.choice([b"", b"a", b"password", b"VOkJxbRl1RmTxUk/WvJxBt", r.randbytes(r.randrange(65)), b"x" * r.choice([20, 63, 64]), b"\0\0a"])
        return (b.rstrip(b"\0"),)
    if k == "xap":
        return (raddr(r), r.choice([0, 1, 3478, 0x8000, 65535, r.randrange(65536)]).to_bytes(2, "big"))
    if k == "ecode":
        return (r.choice([300, 400, 401, 420, 438, 500, 699, r.randrange(700)]).to_bytes(2, "big"),)
    raise core.CheckError(k)


def near(r, k, c):
    """Another content of the same kind, often one that differs by little"""
    if k in ("addr", "v4", "v6", "path", "tid", "ostr", "tag", "handle", "ssrc", "attr", "port", "xor", "pwd", "xap", "ecode", *HASHES) and r.random() < 0.7:
        c = list(c)
        i = r.randrange(len(c))
        b = bytearray(c[i])
        x = r.random()
        if k == "path" and x < 0.25:
            return (c[1], c[0])
        if k == "tid" and x < 0.2:
            return (c[0][:12] if len(b) == 16 else c[0] + bytes(4),)
        if k in ("addr", "xor") and x < 0.1:
            return (c[0][:4] if len(b) == 16 else r.choice([c[0] + bytes(12), bytes(12) + c[0], bytes(10) + b"\xff\xff" + c[0]]),)
        if k == "ostr" and x < 0.3:
            return (c[0] + r.choice([b"\0", b"a", b" "]),) if x < 0.2 else (c[0].swapcase(),)
        if b:
            j = r.choice([0, len(b) - 1, r.randrange(len(b))])
            b[j] ^= 1 << r.randrange(8)
        c[i] = bytes(b)
        if k == "pwd":
            c[i] = c[i].rstrip(b"\0")
        return tuple(c)
    return content(r, k)


def route(r):
    return r.randrange(28 * 5)


def s_cmp(r, k, a, b):
    return (f"cmp {k} {route(r)} {enc(a)} {route(r)} {enc(b)}", {"k": k, "a": js(a), "b": js(b)})


def s_key(r, op, m, c, v=None):
    return (f"{op} {m} {route(r)} {enc(c)}" + ("" if v is None else f" {v}"), {"k": m, "c": js(c), **({} if v is None else {"val": v})})


def s_dump(m):
    return (f"dump {m}", {"k": m})


def s_dyn(t, op, i, x):
    return (f"dyn {t} {op} {i} {x}", {})


def exe(ctx):
    if not getattr(ctx, "values_exe", None):
        ctx.values_exe = ctx.build("values_driver.cpp", more=MORE)
    return ctx.values_exe


def run(ctx, beh, what):
    ev = run_steps(ctx, exe(ctx), beh, what)
    ctx.validate("values/ValuesTrace.tla", ev, what=what, scripts=[[c for c, _ in b] for b in beh])


def run_c30(ctx):
    r = ctx.rng
    ctx.model_check("values/MCHashMap.tla", "MCHashMap.cfg")
    hist = ctx.model_emit("values/MCHashMap.tla", "MCHashMapGen.cfg", workers=core.NPROC)
    beh = []
    # histories of the model on real containers: contents 1 and 2, in two representations each
    hist.sort()
    for h in r.sample(hist, min(len(hist), ctx.scale(700, 8000))):
        m = r.choice(list(MAPS))
        a = content(r, MAPS[m])
        b = near(r, MAPS[m], a)
        if a == b:
            continue
        n = [None, a, b]
        st = [RESET]
        for op, (c, _), v in h:
            st += [s_key(r, op, m, n[c], None if op == "del" else v), s_key(r, "hash", m, n[c])]
        beh.append(st + [s_key(r, "get", m, a), s_key(r, "get", m, b), s_key(r, "hash", m, a), s_dump(m)])
    # longer random histories, many keys (containers grow and rehash)
    for _ in range(ctx.scale(160, 2500)):
        m = r.choice(list(MAPS))
        keys = [content(r, MAPS[m]) for _ in range(r.choice([3, 8, 30]))]
        keys += [near(r, MAPS[m], r.choice(keys)) for _ in range(len(keys))]
        st = [RESET]
        for _ in range(r.choice([30, 80])):
            op = r.choice(["put", "put", "emp", "emp", "del", "get", "get", "hash"])
            st.append(s_key(r, op, m, r.choice(keys), r.randrange(1000) if op in ("put", "emp") else None))
        beh.append(st + [s_dump(m)])
    big = [RESET]
    for i in range(300):
        big.append(s_key(r, "put", "addr", (bytes([10, 0, i >> 8, i & 255]),), i))
    beh.append(big + [s_key(r, "get", "addr", (bytes([10, 0, i >> 8, i & 255]),)) for i in range(300)] + [s_dump("addr")])
    # equal and nearly equal values of every kind
    st = []
    for k in KINDS:
        for _ in range(ctx.scale(150, 2500)):
            a = content(r, k)
            st.append(s_cmp(r, k, a, r.choice([a, near(r, k, a), near(r, k, a), content(r, k)])))
    for a in range(8):
        for k in ("handle", "ssrc", "tag"):
            st += [s_cmp(r, k, ((1 << (4 * a)).to_bytes(4, "big"),), ((1 << (4 * b)).to_bytes(4, "big"),)) for b in range(8)]
    beh += [[RESET, *b] for b in group(st, 80)]
    # the hash of a content does not depend on how, where or when the value was made
    for m in MAPS:
        for _ in range(ctx.scale(12, 200)):
            cs = [content(r, MAPS[m]) for _ in range(3)]
            beh.append([RESET] + [s_key(r, "hash", m, r.choice(cs)) for _ in range(25)])
    # type-erased hashes
    for _ in range(ctx.scale(80, 1500)):
        st, live = [RESET], {1: set(), 2: set()}
        for _ in range(60):
            t = r.choice([1, 2])
            i = r.randrange(8)
            x = r.random()
            if x < 0.25 or not live[t]:
                st.append(s_dyn(t, r.choice(["new", "new", "newt"]), i, r.randrange(4)))
                live[t].add(i)
            elif x < 0.5:
                j = r.choice(sorted(live[t]))
                st.append(s_dyn(t, r.choice(["copy", "copy", "move"]), i, j))
                live[t].add(i)
            else:
                st.append(s_dyn(t, "call", r.choice(sorted(live[t])), r.choice([0, 1, 65535, 1 << 20, r.randrange(1 << 24)])))
        beh.append(st)
    run(ctx, beh, "values")


def w32(v):
    v %= 1 << 32
    return [v >> 16, v & 0xFFFF]


CATS = {"stun parse": 22, "stun client": 7, "rtp": 7, "net": 6, "candidate": 16, "util": 2, "node stun": 5, "token stream": 3}


def run_c31(ctx):
    r = ctx.rng
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    beh = []
    names = list(CATS)
    for rnd in range(ctx.scale(6, 30)):
        order = list(range(len(names)))
        r.shuffle(order)
        st = [RESET] + [(f"codes {i}", {}) for i in order] + [("eqs", {})]
        for i in order:
            n = CATS[names[i]]
            vs = [-1, n, n + 1, n + 2, n + 10, 255, 256, 1 << 16, (1 << 31) - 1, -(1 << 31), -2] + [r.randrange(n, 1 << 31) for _ in range(6)] + [-r.randrange(1, 1 << 31) for _ in range(4)]
            # TLC has no -2^31 in its text form
            st += [(f"out {i} {v}", {"want": v}) for v in vs if v != -(1 << 31)]
        st += [(f"codes {i}", {}) for i in order]
        beh.append(st)
    vs = [0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 0x0308010C, 0x80000002] + list(range(3, 200)) + [(lib << 23) | reason for lib in range(0, 64) for reason in (0, 1, 2, 100, 101, 110, 200)]
    vs += [r.randrange(1 << 32) for _ in range(ctx.scale(500, 20000))] + [1 << i for i in range(32)]
    vs += [f"L{n}" for n in range(10, 181, 10)] * 3
    r.shuffle(vs)
    st = [(f"ossl {w} {v}", {}) for v in vs for w in (0, 1)]
    beh.append([RESET] + [(f"talk {ctx.scale(60, 400)}", {})] * 4)
    beh += [[RESET, *b] for b in group(st, 100)]
    run(ctx, beh, "error codes")


def s_sweep(k, a, n, step=1):
    return (f"sweep {k} {a % (1 << 32)} {n} {step}", {})


def run_c32(ctx):
    r = ctx.rng
    st = []
    for k in ("seq", "port", "attr"):
        st += [s_sweep(k, a, 256) for a in range(0, 65536, 256)]
    st += [s_sweep("mtype", a, 256) for a in range(0, 1 << 14, 256)]
    st += [s_sweep(k, 0, 256) for k in ("pt", "family")] + [s_sweep("comp", a, 256) for a in (0, 200, 256, 512, 65536, (1 << 31) - 128, -256, -128)]
    st += [s_sweep("comp", 0, 256, (1 << 22) - 3)]
    for k in ("ts", "ssrc", "rate", "handle"):
        st += [s_sweep(k, a, 64) for a in (0, 65500, (1 << 24) - 32, (1 << 31) - 32, -64, -32, 90000)]
        st += [s_sweep(k, r.randrange(1 << 32), 64, r.randrange(1, 1 << 22)) for _ in range(ctx.scale(20, 1000))]
    for k in ("seq", "port", "attr"):
        st += [s_sweep(k, r.randrange(65536), 1) for _ in range(10)]
    # every version, flag, csrc count, marker and type, with a random sequence number; every bit on its own
    for b0 in range(256) if ctx.thorough else sorted({*range(0, 256, 3), *range(128, 192), 0, 64, 192, 255}):
        st.append((f"sweep rtp {(b0 << 24) + r.randrange(65536)} 256 {1 << 16}", {}))
    st += [(f"sweep rtp {0x80000000 + a} 256 256", {}) for a in range(0, 256)]
    st += [(f"sweep rtp {(0x80 << 24) ^ (1 << i)} 1 1", {}) for i in range(32)]
    st += [("bool 0", {}), ("bool 1", {})] * 3
    for _ in range(200):
        a, p, u = raddr(r), r.choice([0, 1, 80, 65535, r.randrange(65536)]), r.random() < 0.5
        st.append((f"ep {'udp' if u else 'tcp'} {route(r)} {hx(a)} {p} {r.choice('cm')}", {"isudp": u, "addr": list(a), "port": p}))
        old = r.random() < 0.4
        ws = [r.choice([0, 1, 0x01020304, (1 << 32) - 1, r.randrange(1 << 32), r.randrange(1 << 32)]) for _ in range(6)]
        st.append((f"tidgen {int(old)} " + " ".join(map(str, ws)), {"old": old, "words": [w32(w) for w in ws]}))
    r.shuffle(st)
    beh = [[RESET, *b] for b in group(st, 60)]
    for _ in range(40):
        beh.append([RESET] + [(f"inc {r.choice([0, 1, 1, 2, 3, 100, 70000])}", {}) for _ in range(10)])
    beh.append([RESET, ("inc 1000000", {}), ("inc 1", {}), ("inc 20000000", {}), ("inc 3", {}), ("inc 300000000", {}), ("inc 2", {})])
    # values of every kind hold what they were made from, however made
    st = []
    for k in KINDS:
        for _ in range(ctx.scale(60, 1000)):
            st.append(s_cmp(r, k, content(r, k), content(r, k)))
    beh += [[RESET, *b] for b in group(st, 80)]
    run(ctx, beh, "wrapped values")


def families(r):
    """(map, contents): families of different contents, in parts or little different"""
    res = []
    for k, n in (("addr", 4), ("addr", 16), ("tid", 12), ("tid", 16), ("tids", 12), ("tids", 16), ("ostr", 7), ("ostr", 40), ("ostr", 300)):
        base = r.choice([bytes(n), r.randbytes(n), b"\xff" * n])
        # one byte, at any place
        for at in [range(0, n)] if n < 20 else [range(0, 20), range(n - 20, n), r.sample(range(n), 20)]:
            res.append((k, [(base[:i] + bytes([base[i] ^ x]) + base[i + 1:],) for i in at for x in r.sample(range(1, 256), 24)] + [(base,)]))
        # all values of one byte; counting in either byte order; any
        i = r.randrange(n)
        res.append((k, [(base[:i] + bytes([x]) + base[i + 1:],) for x in range(256)]))
        res += [(k, [((r.choice([0, 1 << 16]) + x).to_bytes(min(n, 8), o) + base[8:] if o == "big" else base[:max(0, n - 8)] + x.to_bytes(min(n, 8), o),) for x in range(300)]) for o in ("big", "little")]
        res.append((k, [(r.randbytes(n),) for _ in range(300)]))
        # one piece at different places
        res.append((k, [(base[:i] + b"abcd"[:n - i] + base[i + 4:],) for i in range(n)]))
    # lengths
    res += [("ostr", [(c * n,) for n in range(300)]) for c in (b"\0", b"a", b"\xff")]
    res += [(k, [(bytes(n),) for n in (12, 16)] + [(bytes([x]) + bytes(n - 1),) for n in (12, 16) for x in range(1, 100)]) for k in ("tid", "tids")]
    # paths: either end, both, in either order, from an address to itself, of both families
    for n in (4, 16):
        a = [r.randbytes(n - 1) + bytes([i]) for i in range(20)]
        b = bytes(n - 1)
        seq = [b + bytes([i]) for i in range(1, 21)]
        for x in (a, seq):
            res.append(("path", [(p, q) for p in x for q in x]))
        res += [("path", [(b + bytes([i]), r0) for i in range(256)]) for r0 in (b + b"\1", r.randbytes(16))]
        res += [("path", [(r0, bytes([i]) + b) for i in range(256)]) for r0 in (b + b"\1", r.randbytes(4))]
        res.append(("path", [(p, p) for p in (r.randbytes(n) for _ in range(300))]))
        res.append(("path", [(p[:n - 1] + bytes([p[n - 1] ^ x]), q[:n - 1] + bytes([q[n - 1] ^ x])) for p, q in [(r.randbytes(n), r.randbytes(n))] for x in range(256)]))
    # small values
    res += [("attr", [(x.to_bytes(2, "big"),) for x in r.sample(range(65536), 400)]), ("attr", [(x.to_bytes(2, "big"),) for x in range(300)]), ("attr", [((x << 8).to_bytes(2, "big"),) for x in range(256)]),
            ("pt", [(bytes([x]),) for x in range(128)]), ("handle", [(x.to_bytes(4, "big"),) for x in range(400)]), ("handle", [((x << 24).to_bytes(4, "big"),) for x in range(256)]),
            ("handle", [((x << 12).to_bytes(4, "big"),) for x in range(300)])]
    return res


def run_c37(ctx):
    r = ctx.rng
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    exe = ctx.build("values_driver.cpp", more=MORE)
    ctx.model_check("values/Murmur.tla", "Murmur.cfg")
    beh = []
    for _ in range(ctx.scale(1, 12)):
        for m, cs in families(r):
            cs = list(dict.fromkeys(cs))
            beh.append([RESET] + [s_key(r, "hash", m, c) for c in cs] + [("cnt", {})])
        # the hash of bytes itself, of any length
        for n in (*range(1, 18), 23, 31, 64, 200):
            base = r.choice([bytes(n), r.randbytes(n), b"\xff" * n])
            sd = r.choice([0, 1, r.randrange(1 << 64)])
            cs = {base} | {base[:i] + bytes([base[i] ^ x]) + base[i + 1:] for i in range(n) for x in r.sample(range(1, 256), max(2, 200 // n))}
            cs |= {base[:i] + r.randbytes(2) + base[i + 2:] for i in range(n - 1) for _ in range(max(1, 60 // n))}
            beh.append([RESET] + [(f"murmur {sd:x} {hx(c)}", {"c": list(c)}) for c in sorted(cs)] + [("cnt", {})])
        z = r.choice([b"\0", b"a", b"\xff"])
        beh.append([RESET] + [(f"murmur 0 {hx(z * n)}", {"c": [n]}) for n in range(300)] + [("cnt", {})])
        # seeds of the hash of transaction ids
        for _ in range(4):
            t = content(r, "tid")
            seeds = {0, 1, (1 << 64) - 1} | {1 << i for i in range(64)} | {r.randrange(1 << 64) for _ in range(60)} | {r.randrange(1 << 32) for _ in range(30)}
            st = [(f"seeded {x:x} {hx(t[0])}", {"s": str(x)}) for x in sorted(seeds)]
            beh.append([RESET] + st + r.sample(st, 20) + [("cnt", {})])
    ev = run_steps(ctx, exe, beh, "hashes")
    ctx.validate("values/SpreadTrace.tla", ev, what="hashes", scripts=[[c for c, _ in b] for b in beh])
