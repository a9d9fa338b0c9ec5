"""C22-C26, C28, C33: texts against spec/text."""
import ipaddress
from . import core, stunwire as sw
from .stun import hx, run_steps, group

RESET = ("R", {})
PRINT = bytes(range(32, 127))
ICE = b"abcxyzABCXYZ0189+/"


def w32(v):
    return [v >> 16, v & 0xFFFF]


def s1(cmd, s, extra=""):
    """a call with one text"""
    return (f"{cmd} {hx(s)}{extra}", {"s": list(s)})


def s_prio(s, r):
    v = int(s) if s.isdigit() and len(s) < 12 else 1
    h = v if r.random() < 0.6 else v + r.choice([1, -1, 10, 1 << 16, 1 << 31, 1 << 24, 256])
    h = h % (1 << 32) or 1
    return (f"prio {hx(s)} {h}", {"s": list(s), "hint": w32(h)})


def s_u(cmd, n):
    return (f"{cmd} {n}", {"n": w32(n)})


def s_priou(n, r):
    h = (n if r.random() < 0.6 else n + r.choice([1, -1, 1 << 31])) % (1 << 32) or 1
    return (f"priou {n} {h}", {"n": w32(n), "hint": w32(h)})


def s_pref(t, l, c, r):
    h = (t << 24) + (l << 8) + c
    if r.random() < 0.3:
        h += r.choice([1, -1, 256, 1 << 16, 1 << 24, -256])
    h = h % (1 << 32) or 1
    return (f"pref {t} {l} {c} {h}", {"t": t, "l": l, "c": c, "hint": w32(h)})


def s_sdp(s, r):
    tk = s.split(b" ")
    v = int(tk[3]) % (1 << 32) if len(tk) > 3 and tk[3].isdigit() and len(tk[3]) < 11 else 1
    h = (v if r.random() < 0.8 else v ^ r.choice([1, 1 << 16, 1 << 31])) or 1
    return (f"sdp {hx(s)} {h}", {"s": list(s), "hint": w32(h)})


def texts(ctx, cfg, limit=None, module="text/MCStr.tla"):
    ts = sorted(bytes(x) for x in ctx.model_emit(module, cfg, workers=core.NPROC))
    if limit and len(ts) > limit:
        ts = ctx.rng.sample(ts, limit)
    return ts


def mutate(r, s):
    b = bytearray(s)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(5)
        i = r.randrange(len(b) + 1)
        c = r.choice([0, 9, 10, 32, 45, 46, 47, 48, 57, 58, 64, 65, 90, 91, 95, 96, 97, 102, 103, 122, 123, 127, 128, 0xB2, 0xC1, 255, r.randrange(256)])
        if k == 0 and b:
            b[i % len(b)] = c
        elif k == 1:
            b.insert(i, c)
        elif k == 2 and b:
            del b[i % len(b)]
        elif k == 3:
            b += bytes([c])
        elif b:
            j = i % len(b)
            b[j:j + 1] = b[j:j + 1] * 2
    return bytes(b)


def run(ctx, beh, what):
    exe = getattr(ctx, "text_exe", None) or ctx.build("text_driver.cpp")
    ctx.text_exe = exe
    ev = run_steps(ctx, exe, beh, what)
    ctx.validate("text/TextTrace.tla", ev, what=what, scripts=[[c for c, _ in b] for b in beh])


def beh(steps, n=150):
    return [[RESET, *g] for g in group(steps, n)]


# ------------------------------------------------------------------ C22
def rtoken(r):
    return bytes(r.choice(b"abcdefgXYZ019-_.!%*+`'~") for _ in range(r.choice([1, 2, 3, 6, 12])))


def rname(r):
    if r.random() < 0.04:   # many labels, long labels
        ls = [bytes(r.choice(b"abzAZ09") for _ in range(r.choice(n))) for n in [r.choice([[1], [1, 2], [1, 5, 62, 63, 64, 70]])] for _ in range(r.choice([1, 2, 4, 5, 9, 40 if len(n) < 3 else 9, 130 if len(n) == 1 else 5]))]
        return b".".join(ls) + r.choice([b"", b"."])
    return b".".join(bytes(r.choice(b"abzAZ09_") for _ in range(1)) + bytes(r.choice(b"abzAZ09_-") for _ in range(r.randrange(4))) + b"q" for _ in range(r.randrange(1, 4))) + r.choice([b"", b"", b"."])


def raddr(r):
    if r.random() < 0.2:
        return str(ipaddress.ip_address(sw.special_ip(r))).encode()
    k = r.randrange(5)
    if k < 2:
        return str(ipaddress.IPv4Address(r.choice([0, 0xFFFFFFFF, r.randrange(1 << 32)]))).encode()
    if k < 4:
        a = ipaddress.IPv6Address(r.choice([0, 1, (1 << 128) - 1, r.randrange(1 << 128), r.randrange(1 << 32) | 0xFFFF00000000, r.randrange(1 << 40) << 70]))
        return (a.compressed if r.random() < 0.7 else a.exploded if r.random() < 0.5 else a.compressed.upper()).encode()
    return rname(r)


def rcase(r, s):
    return bytes(c ^ 32 if r.random() < 0.5 and 97 <= c <= 122 else c for c in s)


def rline(r):
    f = bytes(r.choice(ICE) for _ in range(r.choice([1, 1, 2, 8, 31, 32])))
    t = [f, b"%d" % r.choice([1, 2, 9, 10, 99, 100, 255, 256, r.randrange(1, 257)]), rcase(r, b"udp"),
         b"%d" % r.choice([1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1, 1 << 32)]), raddr(r), b"%d" % r.choice([0, 1, 9, 65535, r.randrange(65536)]),
         b"typ", rcase(r, r.choice([b"host", b"srflx", b"prflx", b"relay"]))]
    p = []
    if r.random() < 0.5:
        p += [(b"raddr", raddr(r)), (b"rport", b"%d" % r.randrange(65536))]
    for _ in range(r.choice([0, 0, 1, 2, 5]) if r.random() < 0.98 else r.choice([8, 16, 17, 33])):
        p.append((r.choice([b"generation", b"ufrag", b"network-cost", b"tcptype", b"typ", b"candidate:", rtoken(r), mutate(r, r.choice([b"raddr", b"rport"])).replace(b" ", b"_"),
                             rcase(r, r.choice([b"raddr", b"rport"]))]), r.choice([b"0", b"", rtoken(r), b"raddr", b"rport", raddr(r), b"%d" % r.randrange(70000)])))
    if r.random() < 0.3:
        r.shuffle(p)
    if r.random() < 0.03 and p:   # names given repeatedly, long names and values
        p += [r.choice([q, (q[0], rtoken(r)), (q[0] * r.choice([1, 20, 90]), q[1]), (q[0], q[1] * r.choice([2, 60])), (q[0], r.choice(p)[1])]) for q in [r.choice(p) for _ in range(r.choice([1, 3, 12]))]]
        if r.random() < 0.5:
            r.shuffle(p)
    if r.random() < 0.1:
        p += [(b"raddr", raddr(r)), (b"rport", b"%d" % r.randrange(65536))]
    return t, p


BADS = [[b"", b"a" * 33, b"a-b", b"a_"], [b"", b"257", b"1000", b"-1", b"999", b"1a", b"+1"], [b"tcp", b"ud", b"udpx", b"", b"UDP/"], [b"0", b"", b"4294967296", b"99999999999", b"1x", b"-1"],
        [b"-x", b"1.2.3", b"1:2:3", b"", b"a..b", b"fe80::1%eth0", b"host!"], [b"65536", b"", b"123456", b"99999", b"-1", b"0x1"], [b"TYP", b"ty", b"type", b""], [b"hos", b"hostx", b"", b"tcp", b"srflx6"]]


def sdp_lines(ctx, n):
    r = ctx.rng
    out = []
    while len(out) < n:
        t, p = rline(r)
        x = r.random()
        if x < 0.35:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                i = r.randrange(8)
                t[i] = r.choice(BADS[i])
        flat = t + [y for q in p for y in q]
        if 0.35 < x < 0.42:
            del flat[r.randrange(len(flat))]
        elif 0.42 < x < 0.47:
            flat.insert(r.randrange(len(flat) + 1), r.choice([b"", b"x", b"typ", b"raddr", b"rport"]))
        elif 0.47 < x < 0.52:
            flat = flat[:r.randrange(len(flat) + 1)]
        elif 0.52 < x < 0.56:
            i, j = r.randrange(8), r.randrange(8)
            flat[i], flat[j] = flat[j], flat[i]
        elif 0.56 < x < 0.6:
            flat += [r.choice([b"raddr", b"rport"]), r.choice([b"", b"x!", b"70000"])][:r.choice([1, 2])]
        s = b"candidate:" + b" ".join(flat)
        if 0.6 < x < 0.68:
            s = mutate(r, s)
        elif 0.68 < x < 0.72:
            s += b" " * r.choice([1, 1, 2, 3])
        elif 0.72 < x < 0.74:
            s = r.choice([s[1:], b"a=" + s, s.replace(b":", b" ", 1), b"C" + s[1:], s[:r.randrange(12)], b"candidate:" + s])
        out.append(s)
    return out


def run_c22(ctx):
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    r = ctx.rng
    ts = texts(ctx, "MCSdp.cfg", ctx.scale(9000, None), "text/MCSdp.tla")
    ts += sdp_lines(ctx, ctx.scale(14000, 150000))
    for _ in range(ctx.scale(4, 20)):
        t, p = rline(r)
        s = b"candidate:" + b" ".join(t + [y for q in p for y in q])
        ts += [s[:i] for i in range(len(s) + 1)]
    ts.append(b"candidate:" + b" ".join(rline(r)[0]) + b"".join(b" n%d v%d" % (i, i) for i in range(200)))
    run(ctx, beh([s_sdp(s, r) for s in ts]), "candidate attributes")


# ------------------------------------------------------------------ C23
def run_c23(ctx):
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    r = ctx.rng
    st = [s1("found", s) for s in texts(ctx, "MCStr_found.cfg")]
    nums = texts(ctx, "MCStr_num.cfg", ctx.scale(4000, None))
    st += [s1("comp", s) for s in nums] + [s_prio(s, r) for s in nums]
    for i in range(1100):
        st += [s1("comp", b"%d" % i), s1("comp", b"%03d" % i)]
    for v in [0, 1, 9, 10, 99, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 2 * (1 << 32) + 5, 9999999999, 5000000000]:
        for f in (b"%d", b"%010d", b"%011d"):
            st += [s_prio(f % v, r) for _ in range(3)]
    for _ in range(ctx.scale(2500, 30000)):
        st.append(s_prio(b"%0*d" % (r.choice([1, 1, 10]), r.randrange(1 << r.randrange(1, 35))), r))
    for n in [0, 1, 2, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 1 << 31, (1 << 32) - 1]:
        st += [s_u("compu", n), s_priou(n, r), s_priou(n, r)]
    # each byte alone, at the start, in the middle, at the end of a valid token
    for c in range(256):
        b = bytes([c])
        st += [s1("found", x) for x in (b, b + b"aZ9", b"a" + b + b"/", b"aZ+" + b)]
        st += [s1("comp", x) for x in (b, b + b"2", b"1" + b + b"2", b"1" + b)]
        st += [s_prio(x, r) for x in (b, b + b"2", b"1" + b + b"2", b"1" + b)]
        for w, cmd in ((b"udp", "trans"), (b"host", "ctype"), (b"srflx", "ctype"), (b"prflx", "ctype"), (b"relay", "ctype")):
            i = r.randrange(len(w))
            st += [s1(cmd, b + w[1:]), s1(cmd, w[:i] + b + w[i + 1:]), s1(cmd, w + b), s1(cmd, w[:i] + b + w[i:])]
    for w, cmd in ((b"udp", "trans"), (b"host", "ctype"), (b"srflx", "ctype"), (b"prflx", "ctype"), (b"relay", "ctype")):
        for m in range(1 << len(w)):
            st.append(s1(cmd, bytes(c - 32 if m >> i & 1 else c for i, c in enumerate(w))))
        st += [s1(cmd, w[:i]) for i in range(len(w))] + [s1(cmd, w[i:]) for i in range(len(w) + 1)] + [s1(cmd, w + w), s1(cmd, w + b"\0"), s1(cmd, b"\0" + w)]
    for n in list(range(0, 40)) + [64, 255, 256, 257, 300, 1000]:
        st += [s1("found", bytes(r.choice(ICE) for _ in range(n))), s1("found", mutate(r, bytes(r.choice(ICE) for _ in range(n)))), s1("comp", b"1" * n), s1("comp", b"0" * n), s1("ctype", b"h" * n)]
        st += [s_prio(b"1" * n, r), s_prio(b"0" * n, r)]
    for _ in range(ctx.scale(3000, 40000)):
        a = raddr(r)
        st.append(s1("caddr", mutate(r, a) if r.random() < 0.4 else a))
    run(ctx, beh(st), "candidate tokens")


# ------------------------------------------------------------------ C24
def run_c24(ctx):
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    r = ctx.rng
    ctx.apalache("text/PrefProof.tla", "Laws", "Init", "Next")
    st = []
    for n in list(range(0, 140)) + [254, 255, 256, 257, 258, 511, 512, 65534, 65535, 65536, 65537, 65536 + 126, 1 << 24, 1 << 31, (1 << 32) - 1, (1 << 32) - 126]:
        st += [s_u("tpref", n), s_u("lpref", n), s_u("cpref", n), s_u("compu", n)]
    for n in range(300):
        st += [s_u("cpref", n), s_u("compu", n)]
    for n in range(1, 257):
        st.append((f"recc {n}", {"id": n}))
    for t in (b"host", b"srflx", b"prflx", b"relay"):
        st += [(f"rect {hx(t)}", {"t": list(t)}), (f"rect {hx(t.upper())}", {"t": list(t)})]
    ts, ls, cs = [0, 1, 2, 63, 64, 100, 110, 125, 126], [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535], [0, 1, 127, 128, 254, 255]
    st += [s_pref(t, l, c, r) for t in ts for l in ls for c in cs]
    st += [s_pref(t, 0, 0, r) for t in range(127)] + [s_pref(0, 0, c, r) for c in range(256)] + [s_pref(0, 1 << i, 0, r) for i in range(16)]
    for _ in range(ctx.scale(8000, 150000)):
        st.append(s_pref(r.randrange(127), r.randrange(65536), r.randrange(256), r))
    run(ctx, beh(st), "priorities")


# ------------------------------------------------------------------ C25
def run_c25(ctx):
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    r = ctx.rng
    ts = texts(ctx, "MCStr_name.cfg", ctx.scale(8000, 60000))
    for c in range(256):
        b = bytes([c])
        ts += [b, b + b"a", b"a" + b, b"a" + b + b"b", b"a." + b, b"a." + b + b"b", b + b".a", b"a-" + b, b"a.b" + b]
    for _ in range(ctx.scale(3000, 60000)):
        s = rname(r)
        ts.append(mutate(r, s) if r.random() < 0.6 else s)
    for n in [62, 63, 64, 65, 127, 128, 252, 253, 254, 255, 256, 300]:
        ts += [b"a" * n, b"a-" * n, b"a." * n, b"-" * n, b"." * n, b"a" * n + b"-", b"a" + b"-" * n + b"b", b"a" + b"-" * n]
    st = []
    for s in ts:
        st += [s1("fqdn", s), s1("fqdnp", s)]
    run(ctx, beh(st), "domain names")


# ------------------------------------------------------------------ C26
def rip(r, n):
    if r.random() < 0.3:
        return sw.special_ip(r, n)
    if n == 4:
        return r.choice([bytes(r.choice([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255, r.randrange(256)]) for _ in range(4)), r.randbytes(4)])
    k = r.randrange(5)
    if k == 0:
        return r.randbytes(16)
    if k == 1:
        return b"".join(r.choice([b"\0\0", b"\0\0", b"\0\x01", b"\xff\xff", b"\0\x10", b"\x01\0", r.randbytes(2)]) for _ in range(8))
    if k == 2:
        return bytes(10) + r.choice([b"\xff\xff", b"\0\0", b"\0\x01"]) + r.randbytes(4)
    if k == 3:
        return bytes(12) + r.choice([bytes(4), b"\0\0\0\x01", b"\0\0\xff\xff", r.randbytes(4)])
    i = r.randrange(17)
    return (bytes(i) + r.randbytes(16 - i)) if r.random() < 0.5 else r.randbytes(i) + bytes(16 - i)


def s_show(size, b):
    return (f"ipshow {size} {hx(b)}", {"b": list(b), "size": size})


def run_c26(ctx):
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    r = ctx.rng
    ts = texts(ctx, "MCStr_v4.cfg", ctx.scale(5000, None)) + texts(ctx, "MCStr_v6.cfg", ctx.scale(5000, None)) + texts(ctx, "MCIp6.cfg", None, "text/MCIp6.tla")
    for _ in range(ctx.scale(4000, 80000)):
        a = raddr(r)
        ts.append(mutate(r, a) if r.random() < 0.5 else a)
    for c in range(256):
        b = bytes([c])
        ts += [b, b + b"1.2.3.4", b"1.2.3.4" + b, b"1.2" + b + b".3.4", b"1.2.3" + b + b"4", b"::1" + b, b + b"::1", b"1:" + b + b":2", b"::" + b, b"1:2:3:4:5:6:7:" + b]
    for i in range(4):
        for v in list(range(0, 261)) + [999, 1000]:
            p = [b"9", b"10", b"0", b"255"]
            p[i] = b"%d" % v
            ts.append(b".".join(p))
    for n in (50, 100, 300):
        ts += [b"1" * n, b":" * n, b"0:" * n, b"1." * n, b"::" + b"0" * n, b"0" * n + b"::1", b"1.2.3.4" + b" " * n, b"1.2.3." + b"0" * n + b"4"]
    st = [s1("ip", s) for s in ts]
    for _ in range(ctx.scale(3000, 60000)):
        n = r.choice([4, 16])
        st.append(s_show(n, rip(r, n)))
    for n in (4, 16):
        st += [s_show(n, r.randbytes(k)) for k in list(range(0, 20)) + [32, 255, 256 + n, 65536 + n]]
    for s in texts(ctx, "MCStr_num.cfg", ctx.scale(3000, None)):
        st.append(s1("port", s))
    for v in list(range(0, 1200)) + list(range(65400, 65700)) + list(range(99900, 100010)):
        st += [s1("port", b"%d" % v), s1("port", b"%05d" % v)]
    for c in range(256):
        st += [s1("port", x) for x in (bytes([c]), b"1" + bytes([c]), bytes([c]) + b"1", b"12" + bytes([c]) + b"34")]
    st += [s1("port", b"%d" % r.randrange(70000)) for _ in range(1000)] + [s1("port", b"0" * n + b"1") for n in range(12)]
    st += [(f"portu {n}", {"n": n}) for n in [0, 1, 255, 256, 32767, 32768, 65534, 65535] + [r.randrange(65536) for _ in range(100)]]
    run(ctx, beh(st), "addresses and ports")


# ------------------------------------------------------------------ C28
def s_split(s, sep):
    return (f"split {hx(s)} {hx(sep)}", {"s": list(s), "sep": sep[0]})


def s_all(s, sep):
    return (f"splitall {hx(s)} {hx(sep)}", {"s": list(s), "sep": sep[0]})


def s_join(ps, sep):
    return (f"join {hx(sep)} " + " ".join(map(hx, ps)), {"ps": [list(p) for p in ps], "sep": list(sep)})


def s_rmp(s, n):
    return (f"rmp {hx(s)} {n}", {"s": list(s), "n": n})


def s_stream(r, toks):
    return (f"stream {r.choice(['copy', 'move'])} " + " ".join(map(hx, toks)), {"toks": [list(t) for t in toks]})


def s_op(o, lit=b""):
    if o == "lit":
        return (f"lit {hx(lit)}", {"s": list(lit)})
    if o.startswith("bind"):
        return (f"bind {o[4:]}", {"good": o == "bindgood"})
    return (o, {})


def run_c28(ctx):
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp", "a token stream is used where it was made (not copied or moved)"]
    r = ctx.rng
    hs = ctx.model_emit("text/MCStream.tla", "MCStream.cfg", workers=core.NPROC)
    hs.sort()
    if len(hs) > ctx.scale(2500, 10**9):
        hs = r.sample(hs, 2500)
    bs, cur = [], []
    for toks, ops in hs:
        cur += [s_stream(r, [t.encode() for t in toks])] + [s_op("lit", b"a") if o == "lita" else s_op(o) for o in ops]
        if len(cur) > 150:
            bs.append([RESET, *cur])
            cur = []
    bs.append([RESET, *cur])
    for _ in range(ctx.scale(250, 4000)):
        b = [RESET]
        for _ in range(3):
            pool = [r.randbytes(r.choice([0, 1, 1, 2, 5, 40])) for _ in range(3)] + [b"", b"x"]
            pool.append(r.randbytes(r.choice([15, 16, 17, 64, 255, 256, 700])) if r.random() < 0.1 else b"y")
            toks = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 5, 20]) if r.random() < 0.97 else r.choice([33, 70]))]
            b.append(s_stream(r, toks))
            for i in range(len(toks) + 3):
                o = r.choice(["req", "opt", "lit", "lit", "bindgood", "bindbad"])
                lit = toks[i] if i < len(toks) and r.random() < 0.5 else r.choice(pool)
                b.append(s_op(o, mutate(r, lit) if r.random() < 0.2 else lit))
        bs.append(b)
    st = []
    for s in texts(ctx, "MCStr_split.cfg"):
        st += [s_all(s, b","), s_split(s, b","), s_join(s.split(b","), b","), s_join(s.split(b"b"), b"")] + [s_rmp(s, n) for n in (0, len(s) // 2, len(s), len(s) + 1)]
    for _ in range(ctx.scale(1500, 20000)):
        sep = bytes([r.choice([0, 9, 32, 44, 46, 58, 127, 128, 255, r.randrange(256)])])
        s = sep.join(r.randbytes(r.choice([0, 0, 1, 2, 9])) for _ in range(r.randrange(8) if r.random() < 0.96 else r.choice([16, 17, 33, 65, 130, 260])))
        if r.random() < 0.03:
            s = r.choice([s + r.randbytes(r.choice([256, 300, 1000])), sep * r.choice([8, 17, 100]), r.randbytes(600) + sep + s])
        st += [s_all(s, sep), s_split(s, sep), s_join(s.split(sep), r.choice([sep, b"", b", ", r.randbytes(3)])), s_rmp(s, r.choice([0, 1, len(s), len(s) + 1, 1000, (1 << 63), (1 << 31) - 1][:5]))]
    st += [s_join([], b","), s_join([b""], b","), s_join([b"", b""], b","), s_rmp(b"", 0), s_rmp(b"", 1)]
    run(ctx, bs + beh(st), "token streams, splitting and joining")


# ------------------------------------------------------------------ C33
def run_c33(ctx):
    r = ctx.rng
    st = [(f"cls {c}", {"c": c}) for c in range(256)]
    def eq(a, b):
        return (f"eq {hx(a)} {hx(b)}", {"a": list(a), "b": list(b)})
    for a in range(256):
        for b in {a, a ^ 32, a ^ 1, a ^ 128, (a + 1) % 256, a & 0x5F, r.randrange(256), 0, 64, 91, 96, 123}:
            st.append(eq(bytes([a]), bytes([b])))
    chars, st = st, []
    if ctx.thorough:
        st += [eq(bytes([a]), bytes([b])) for a in range(256) for b in range(256)]
    for _ in range(ctx.scale(4000, 60000)):
        s = bytes(r.choice(b"abyzABYZ09@[`{\x00\xc1\xe1 ") for _ in range(r.choice([0, 1, 2, 3, 8, 40]) if r.random() < 0.97 else r.choice([16, 32, 63, 64, 65, 255, 256, 257, 700])))
        t = bytes(c ^ 32 if 65 <= c & 0xDF <= 90 and r.random() < 0.5 else c for c in s)
        x = r.random()
        if x < 0.2:
            t = mutate(r, t)
        elif x < 0.3:
            t = bytes(c ^ 32 if r.random() < 0.2 else c for c in t)
        elif x < 0.35:
            t = t[:-1]
        elif x < 0.4:
            s, t = t, s + b"\0"
        st.append(eq(s, t))
    # long strings that differ late, after zeroes, or not at all
    for n in [1000, 4095, 4096, 4097, 5000] * ctx.scale(4, 30) + [65536, 70000] * 2:
        s = bytearray(r.choice(b"abyzABYZ09@[`{\x00\xc1\xe1 ") for _ in range(n))
        t = bytearray(c ^ 32 if 65 <= c & 0xDF <= 90 and r.random() < 0.5 else c for c in s)
        x = r.random()
        k = r.choice([n - 1, n - 2, n - 8, r.randrange(n)])
        if x < 0.6:
            t[k] = (s[k] + r.choice([1, 128, 64])) % 256 if not 65 <= s[k] & 0xDF <= 90 else s[k] ^ r.choice([1, 128, 64])
        if x < 0.3:
            for b in (s, t):
                for z in range(1, 9):
                    b[max(0, k - z)] = 0
        st.append(eq(bytes(s), bytes(t)))
    # every character in every process (and so in every locale and in threads)
    n = core.NPROC
    run(ctx, [b for b in beh(chars) for _ in range(n)] + beh(st), "character classes")


def raddr_ip(r):
    """A text of an IP address."""
    while True:
        a = raddr(r)
        try:
            ipaddress.ip_address(a.decode())
            return a
        except ValueError:
            pass
