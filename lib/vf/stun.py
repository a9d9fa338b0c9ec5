"""C09-C18: STUN wire format and stateless server against spec/stun."""
import json, random, struct
from . import core, stunwire as sw
from .core import CheckError, Violation

TID = bytes(range(1, 12)) + b"\xff"


def hx(b):
    return b.hex() if b else "-"


def rtid(r):
    k = r.random()
    if k < 0.1:
        return bytes(12)
    if k < 0.2:
        return b"\xff" * 12
    return r.randbytes(12)


def rblob(r, n=None):
    if n is None:
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 19, 20, 21, 33, 63, 64, 65, 130]) if r.random() < 0.97 else r.choice([127, 128, 129, 255, 256, 257, 509, 513, 763, 1000])
    return r.randbytes(n) if r.random() < 0.8 else bytes([r.choice([0, 255])]) * n


def rcount(r):
    """how many items a list has"""
    return r.randrange(6) if r.random() < 0.93 else r.choice([7, 8, 9, 15, 16, 17, 31, 33, 64, 130, 260])


def rip(r):
    if r.random() < 0.4:
        return sw.special_ip(r)
    n = r.choice([4, 16])
    return r.choice([r.randbytes(n), bytes(n), b"\xff" * n, (struct.pack(">I", sw.COOKIE) + TID)[:n]])


def rport(r):
    return r.choice([0, 1, 255, 256, 0x2112, 3478, 65535, r.randrange(65536)])


def rtype_unknown(r):
    while True:
        t = r.choice([0, 2, 3, 4, 5, 7, 0xB, 0x14, 0x16, 0x1F, 0x21, 0x23, 0x26, 0x7FFF, 0x8000, 0x8001, 0x8021, 0x8024, 0x8027, 0x802B, 0xFFFF, r.randrange(65536)])
        if t not in sw.KNOWN:
            return t


def rattr(r, tid, bad=0.0):
    """(type, value) of a random attribute as it stands on the wire; with probability `bad` of illegal content"""
    t = r.choice([sw.MAPPED, sw.USERNAME, sw.ERRCODE, sw.UNKNOWN, sw.XORMAPPED, sw.PRIO, sw.USECAND, sw.SOFTWARE, sw.ALTSRV, sw.ICECLED, sw.ICECLING, "u", "u"])
    if t == "u":
        return rtype_unknown(r), rblob(r)
    b = r.random() < bad
    if t in (sw.MAPPED, sw.ALTSRV, sw.XORMAPPED):
        v = sw.xaddr_value(rip(r), rport(r), tid[-12:]) if t == sw.XORMAPPED and r.random() < 0.5 else sw.addr_value(rip(r), rport(r))
        if r.random() < 0.3:
            v = r.randbytes(1) + v[1:]
        if b:
            k = r.randrange(5)
            v = [v[:r.randrange(len(v))], v + r.randbytes(r.randrange(1, 5)), v[:1] + bytes([r.choice([0, 3, 4, 0x81, 0xFF])]) + v[2:],
                 v[:1] + bytes([3 - v[1]]) + v[2:], rblob(r)][k]
        return t, v
    if t in (sw.USERNAME, sw.SOFTWARE):
        return t, rblob(r)
    if t == sw.ERRCODE:
        v = sw.errcode_value(0, b"", r.choice([0, 0, 1, (1 << 21) - 1])) if r.random() < 0.1 else struct.pack(">I", (r.choice([0, 0, r.randrange(1 << 21)]) << 11) | (r.randrange(8) << 8) | r.choice([0, 1, 20, 38, 99, 100, 255, r.randrange(256)]))
        v += rblob(r) if r.random() < 0.5 else b""
        return t, (v[:r.randrange(4)] if b else v)
    if t == sw.UNKNOWN:
        v = b"".join(struct.pack(">H", r.choice([r.randrange(65536), 0, 0x8000, 0xFFFF])) for _ in range(rcount(r)))
        return t, (v + b"\x01" if b else v)
    if t == sw.PRIO:
        return t, (r.randbytes(r.randrange(4)) if b else r.randbytes(r.choice([4, 4, 4, 5, 8])))
    if t in (sw.ICECLED, sw.ICECLING):
        return t, (r.randbytes(r.randrange(8)) if b else r.randbytes(r.choice([8, 8, 8, 9, 12])))
    return t, (rblob(r) or b"x" if b else b"")


def rmethod(r):
    return r.choice([1, 1, 1, 0, 2, 0xF, 0x10, 0x7F, 0x80, 0x80 << 3, 0xFFF, r.randrange(4096)])


def rmsg(r, bad=0.0, keyp=0.4, fpp=0.5, nmax=6):
    """A random message; returns (bytes, key or None)."""
    tid = rtid(r)
    cls = r.choice([0, 0, 1, 2, 3])
    old = r.random() < 0.15
    if old and r.random() < 0.8:
        cls = 0
    if old:
        tid = r.choice([r.randbytes(16), b"\x21\x12\xa4\x43" + r.randbytes(12), bytes(16)])
    attrs = [rattr(r, tid, bad) for _ in range(r.randrange(nmax + 1) if r.random() < 0.97 else r.choice([nmax, 12, 16, 17, 24, 33, 40]))]
    if attrs and r.random() < 0.25:
        attrs.insert(r.randrange(len(attrs) + 1), r.choice(attrs)[:1] + (r.choice(attrs)[1],))
    key = rblob(r) if r.random() < keyp else None
    after = [rattr(r, tid, bad) for _ in range(r.randrange(3))] if key is not None and r.random() < 0.3 else []
    if after and r.random() < 0.3:
        after.append((sw.MI, r.randbytes(20)))
    badmi = None
    if key is not None and r.random() < 0.25:
        badmi = r.choice([r.randbytes(20), bytes(20), r.randbytes(20), r.randbytes(r.choice([0, 19, 21, 24]))])
    fp = False
    if r.random() < fpp:
        fp = True if r.random() < 0.8 else r.choice([1, 1 << 31, 0x5354554E, r.randrange(1, 1 << 32)])
    return sw.build(cls, rmethod(r), tid, attrs, key=key if badmi is None else None, badmi=badmi, fp=fp, after_mi=after, pad=r.choice([0, 0, 255])), key


def setlen(d, n=None):
    return d[:2] + struct.pack(">H", (len(d) - 20 if n is None else n) & 0xFFFF) + d[4:] if len(d) >= 4 else d


def mutate(r, d):
    b = bytearray(d)
    k = r.randrange(12)
    if k == 0 and b:
        i = r.randrange(8 * len(b))
        b[i // 8] ^= 1 << (i % 8)
    elif k == 1 and b:
        b[r.randrange(len(b))] = r.choice([0, 1, 4, 8, 20, 255, r.randrange(256)])
    elif k == 2:
        b = b[:r.randrange(len(b) + 1)]
    elif k == 3:
        b = bytearray(setlen(bytes(b[:20 + 4 * r.randrange(max(1, (len(b) - 16) // 4))])))
    elif k == 4:
        b += r.randbytes(r.choice([1, 2, 3, 4, 8]))
    elif k == 5:
        b = bytearray(setlen(bytes(b) + r.randbytes(r.choice([1, 2, 3, 4, 8, 12]))))
    elif k == 6 and len(b) >= 4:
        struct.pack_into(">H", b, 2, (struct.unpack(">H", b[2:4])[0] + r.choice([-8, -4, -1, 1, 2, 3, 4, 8, 256, 4096])) & 0xFFFF)
    elif k == 7 and len(b) >= 2:
        b[0] ^= r.choice([0x40, 0x80, 0xC0, 0x01, 0x3E])
    elif k == 8 and len(b) >= 8:
        b[4 + r.randrange(4)] ^= 1 << r.randrange(8)
    elif k == 9 and len(b) >= 24:     # an attribute's length
        struct.pack_into(">H", b, 22, r.choice([0, 1, 3, 4, 5, 8, 19, 20, 21, len(b) - 24, len(b) - 23, 0xFFFF, 0xFFFC, 0x8000]) & 0xFFFF)
    elif k == 10 and len(b) >= 24:    # an attribute's type
        struct.pack_into(">H", b, 20, r.choice(sorted(sw.KNOWN) + [0, 0x8000]))
    elif k == 11 and len(b) > 24:
        i = 20 + 4 * r.randrange((len(b) - 20) // 4)
        b = bytearray(setlen(bytes(b[:i] + b[i + 4 * r.randrange(1, 4):])))
    return bytes(b)


def rdatagram(r, bad=0.12, **kw):
    d, key = rmsg(r, bad=bad, **kw)
    x = r.random()
    if x < 0.45:
        return d, key
    if x < 0.9:
        d = mutate(r, d)
        if r.random() < 0.2:
            d = mutate(r, d)
        return d, key
    n = r.choice([0, 1, 2, 3, 4, 8, 19, 20, 21, 24, 28])
    d = bytearray(r.randbytes(n))
    if n >= 4 and r.random() < 0.7:
        d[0] &= 0x3F
        struct.pack_into(">H", d, 2, max(0, n - 20))
    if n >= 8 and r.random() < 0.7:
        struct.pack_into(">I", d, 4, sw.COOKIE)
    return bytes(d), key


# ------------------------------------------------------------------ scripts
# A step is (command line, dict merged into the driver's event).
RESET = ("R", {})


def s_parse(d, times=1):
    return (f"P {hx(d)}" + (f" {times}" if times > 1 else ""), {"d": list(d)})


def s_valid(d, key, mode="real"):
    return (f"V {hx(key)} {mode}", {"d": list(d), "key": list(key), "mode": mode})


def s_rebuild(d, key):
    return (f"Q {'none' if key is None else hx(key)}", {"d": list(d), "key": [] if key is None else [list(key)]})


def rknown(r):
    """(driver spelling, event description) of a random known attribute value"""
    t = r.choice(["mapped", "alt", "xor", "user", "sw", "prio", "cling", "cled", "uc", "fp", "types", "code"])
    if t in ("mapped", "alt", "xor"):
        ip, p = rip(r), rport(r)
        return f"{t}:{ip.hex()}:{p}", {"t": {"mapped": sw.MAPPED, "alt": sw.ALTSRV, "xor": sw.XORMAPPED}[t], "a": [p, *ip]}
    if t in ("user", "sw"):
        v = rblob(r)
        return f"{t}:{hx(v)}", {"t": sw.USERNAME if t == "user" else sw.SOFTWARE, "v": list(v)}
    if t == "prio":
        v = r.choice([b"\0\0\0\0", b"\xff" * 4, r.randbytes(4)])
        return f"prio:{v.hex()}", {"t": sw.PRIO, "v": list(v)}
    if t in ("cling", "cled"):
        v = r.choice([bytes(8), b"\xff" * 8, r.randbytes(8), b"\x80" + bytes(7)])
        return f"{t}:{v.hex()}", {"t": sw.ICECLING if t == "cling" else sw.ICECLED, "v": list(v)}
    if t == "uc":
        return "uc", {"t": sw.USECAND, "v": []}
    if t == "fp":
        return f"fp:{r.randbytes(4).hex()}", {"t": sw.FP, "v": []}
    if t == "types":
        ts = [r.choice([0, 1, 0x7FFF, 0x8000, 0xFFFF, r.randrange(65536)]) for _ in range(rcount(r))]
        return "types" + "".join(f":{x}" for x in ts), {"t": sw.UNKNOWN, "types": ts}
    code, ph = r.choice([300, 400, 401, 420, 438, 500, 599, 699, 0, 99, 100, 799, r.randrange(800)]), rblob(r)
    if code % 100 > 99:
        code -= code % 100
    return (f"code:{code}:{hx(ph)}" if ph or r.random() < 0.5 else f"code:{code}"), {"t": sw.ERRCODE, "code": code, "phrase": list(ph)}


def s_build(r, nmax=7, fpp=0.4, keyp=0.5, big=0, many=0):
    tid = r.randbytes(16) if r.random() < 0.1 else rtid(r)
    cls, method = r.randrange(4), rmethod(r)
    if len(tid) == 16:
        cls = 0
    ks = [rknown(r) for _ in range(r.randrange(nmax + 1))]
    if r.random() < fpp:
        ks.append((f"fp:{r.randbytes(4).hex()}", {"t": sw.FP, "v": []}))
    us = []
    for _ in range(many or r.choice([0, 0, 1, 2, 3]) if many or r.random() < 0.96 else r.choice([8, 16, 17, 40])):
        us.append((rtype_unknown(r), rblob(r) if not many else r.randbytes(r.choice([0, 1, 4]))))
    if big:
        us.append((0x8005, r.randbytes(big)))
    if us and r.random() < 0.2:
        us.append(us[0])
    key = rblob(r) if r.random() < keyp else None
    mode = "real"
    kt = "none" if key is None else hx(key)
    if key is not None and r.random() < 0.05:
        kt, mode = "fail:" + kt, "fail"
    words = [k for k, _ in ks] + [f"u:{t}:{hx(v)}" for t, v in us]
    r.shuffle(words)
    order = {}
    # FirstOnly works on the order given to the code
    seq = []
    pool = list(ks)
    for w in words:
        for i, (k, e) in enumerate(pool):
            if k == w:
                seq.append(e)
                pool.pop(i)
                break
    useq = []
    upool = list(us)
    for w in words:
        for i, (t, v) in enumerate(upool):
            if f"u:{t}:{hx(v)}" == w:
                useq.append({"t": t, "v": list(v)})
                upool.pop(i)
                break
    return (f"B {cls} {method} {hx(tid)} {kt} " + " ".join(words),
            {"cls": cls, "method": method, "tid": list(tid), "known": seq, "unknown": useq, "key": [] if key is None else [list(key)], "mode": mode})


def s_xor(r):
    ip, tid = rip(r), rtid(r)
    return (f"X {ip.hex()} {tid.hex()}", {"ip": list(ip), "tid": list(tid)})


def s_xview(r, f=None, n=None):
    f = r.choice([0, 1, 2, 3, 255, r.randrange(256)]) if f is None else f
    v = r.randbytes(r.choice([0, 3, 4, 5, 15, 16, 17, r.randrange(24)]) if n is None else n)
    return (f"XV {f} {hx(v)}", {"f": f, "v": list(v)})


def s_server(fp="fp", mode="real"):
    return (f"S {fp} {mode}", {"fp": fp != "nofp", "hash": mode == "real"})


def s_user(name, pw):
    return (f"U {hx(name)} {hx(pw)}", {"name": list(name), "pass": list(pw)})


def s_proc(ip, port, d, kind="udp"):
    return (f"D {kind} {ip.hex()} {port} {hx(d)}", {"d": list(d), "ep": [port, *ip]})


THREADS = 6


def run_steps(ctx, exe, behaviours, what, chunk=None):
    """behaviours: lists of steps; returns lists of events (None of the driver's skips).
    They run in several processes: some one after the other, some in several threads at the same time, some in other locales."""
    n = core.NPROC
    order = [list(range(k, len(behaviours), n)) for k in range(n)]
    modes = [((), None)] * n
    scripts = []
    for k, idx in enumerate(order):
        if k < 2 and len(idx) >= THREADS:
            order[k] = [i for t in range(THREADS) for i in idx[t::THREADS]]
            scripts.append("%%\n".join("\n".join(c for i in idx[t::THREADS] for c, _ in behaviours[i]) + "\n" for t in range(THREADS)))
            modes[k] = (("threads",), None)
        else:
            scripts.append("\n".join(c for i in idx for c, _ in behaviours[i]) + "\n")
    for k, env in zip((2, 3), ctx.locales()):
        if k < n:
            modes[k] = ((), env)
    outs = ctx.run_many(exe, scripts, timeout=400, what=what, modes=modes)
    res = [None] * len(behaviours)
    for idx, o in zip(order, outs):
        it = iter(o)
        for i in idx:
            ev = []
            for c, extra in behaviours[i]:
                try:
                    e = json.loads(next(it))
                except StopIteration:
                    raise CheckError(f"{what}: driver answered too little")
                if e["e"] != "skip":
                    ev.append({**e, **extra})
            res[i] = ev
    return res


def decide(ctx, exe, aspect, behaviours, what, module="stun/StunTrace.tla"):
    behaviours = [b if b[0][0] == "R" else [RESET] + b for b in behaviours if b]
    ev = run_steps(ctx, exe, behaviours, what)
    ctx.validate(module, ev, f"Trace_{aspect}.cfg", what=what, scripts=[[c for c, _ in b] for b in behaviours])


def group(steps, n):
    return [steps[i:i + n] for i in range(0, len(steps), n)]


def emitted(ctx, cfg, limit=None):
    ds = [bytes(x) for x in ctx.model_emit("stun/MCStun.tla", cfg, workers=core.NPROC)]
    if limit and len(ds) > limit:
        ds = ctx.rng.sample(ds, limit)
    return ds


def base(ctx):
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp",
                        "datagrams up to 64 KiB; the address and integer layout is that of the build host"]
    return ctx.build("stun_driver.cpp")


def run_c11(ctx):
    exe = base(ctx)
    r = ctx.rng
    ds = emitted(ctx, "MC_frame.cfg") + emitted(ctx, "MC_order.cfg", ctx.scale(4000, None))
    nr = ctx.scale(6000, 60000)
    rd = [rdatagram(r)[0] for _ in range(nr)]
    # every truncation and every length field of some messages
    for _ in range(ctx.scale(6, 60)):
        d, _k = rmsg(r)
        rd += [d[:i] for i in range(len(d) + 1)]
        rd += [setlen(d[:i]) for i in range(20, len(d))]
        rd += [setlen(d, i) for i in range(0, len(d) + 8)]
    rd += big_messages(r, ctx.scale(2, 10))
    rd += [many_attrs(r, n) for n in MANY * ctx.scale(1, 5) + [1100]]
    for n in [127, 255, 256, 300, 515] * ctx.scale(1, 6):
        rd += bad_tails(r, n)
    # longer than the length field can say
    for n in (65536, 65540, 65536 + 4 * r.randrange(100)):
        a = sw.attr(0x8005, bytes(65528)) + sw.attr(0x8006, bytes(max(0, n - 65536)))
        a = a + bytes(max(0, n - len(a)))
        rd.append(sw.hdr(r.choice([0, 1]), 1, rtid(r), len(a) & 0xFFFF) + a)
    decide(ctx, exe, "frame", group([s_parse(d) for d in ds], 60), "datagrams of the model")
    decide(ctx, exe, "frame", group([s_parse(d) for d in rd], 60), "randomised datagrams")


def big_messages(r, n):
    out = []
    for _ in range(n):
        m = sw.build(0, 1, rtid(r), [(0x8005, r.randbytes(r.choice([1500, 9000, 30000]))), (sw.SOFTWARE, b"x" * 763)], fp=True)
        out.append(m)
        out.append(m[:-9] + bytes([m[-9] ^ 1]) + m[-8:])
    out.append(sw.build(0, 1, rtid(r), [(0x8005, bytes(65528))]))
    return out


def bad_tails(r, n):
    """Messages of n short attributes of which the end is wrong, and the right one."""
    tid = rtid(r)
    pre = [(rtype_unknown(r), r.randbytes(r.choice([0, 0, 1, 4]))) for _ in range(n)]
    m = lambda t, tail=b"": setlen(sw.build(r.choice([0, 2]), 1, tid, pre + t) + tail)
    good = sw.build(0, 1, tid, pre, fp=True)
    k = r.randrange(8 * len(good) - 64, 8 * len(good)) // 8
    out = [good, good[:k] + bytes([good[k] ^ 0x10]) + good[k + 1:], good[:-5] + bytes([good[-5] ^ 1]) + good[-4:], setlen(good + sw.attr(0x8001, b"")), setlen(good[:-4])]
    out += [m([(sw.PRIO, b"123")]), m([(sw.XORMAPPED, b"\0\x07123456")]), m([(sw.ERRCODE, b"\0\0")]), m([(0x8050, b"")], struct.pack(">HH", 0x8050, 8) + b"1234"), m([], b"\0\1"), m([], struct.pack(">HH", 7, 0xFFFF))]
    return out


def many_attrs(r, n):
    """A message of n short attributes, those with a meaning among the last."""
    tid = rtid(r)
    l = [(rtype_unknown(r), r.randbytes(r.choice([0, 0, 1, 4]))) for _ in range(n)]
    for _ in range(4):
        l.insert(r.randrange(len(l) - 3, len(l) + 1), rattr(r, tid))
    return sw.build(r.choice([0, 2, 3]), 1, tid, l, key=r.choice([None, b"key"]), fp=r.random() < 0.7)


MANY = [100, 130, 257, 260, 300, 520]


def run_c12(ctx):
    exe = base(ctx)
    r = ctx.rng
    ds = emitted(ctx, "MC_order.cfg", ctx.scale(7000, None)) + emitted(ctx, "MC_frame.cfg", ctx.scale(4000, None))
    rd = []
    for _ in range(ctx.scale(7000, 80000)):
        d, _k = rmsg(r, nmax=9) if r.random() < 0.85 else rdatagram(r)
        rd.append(d)
    rd += [many_attrs(r, n) for n in MANY * ctx.scale(1, 5) + [1100]]
    r.shuffle(rd)
    decide(ctx, exe, "attrs", group([s_parse(d) for d in ds], 60), "datagrams of the model")
    decide(ctx, exe, "attrs", group([s_parse(d) for d in rd], 60), "randomised messages")


def run_c13(ctx):
    exe = base(ctx)
    r = ctx.rng
    b = [s_build(r, nmax=r.choice([2, 7, 14])) for _ in range(ctx.scale(2500, 30000))]
    b += [s_build(r, many=n) for n in MANY]
    b += [s_build(r, big=n) for n in (ctx.scale([1400, 8191], [1400, 8191, 30001, 64000]))]
    decide(ctx, exe, "build", group(b, 30), "built messages")
    q = []
    for d in emitted(ctx, "MC_order.cfg", ctx.scale(2500, None)):
        q += [s_parse(d), s_rebuild(d, r.choice([None, None, b"pw", rblob(r)]))]
    for _ in range(ctx.scale(2000, 30000)):
        d, _k = rmsg(r, nmax=9)
        q += [s_parse(d), s_rebuild(d, r.choice([None, None, rblob(r)]))]
    decide(ctx, exe, "build", group(q, 60), "rebuilt messages")


def run_c14(ctx):
    exe = base(ctx)
    r = ctx.rng
    steps = []
    for d in emitted(ctx, "MC_deep.cfg"):
        steps += [s_parse(d), s_valid(d, b"pw"), s_valid(d, b"pw\0"), s_valid(d, b"pv")]
    for i in range(ctx.scale(1500, 15000)):
        d, key = rmsg(r, keyp=0.95)
        if key is None:
            key = b"k"
        steps += [s_parse(d), s_valid(d, key)]
        x = r.random()
        if x < 0.5:
            p = sw.parse(d)
            # change something: covered byte, digest, what follows, key
            b = bytearray(d)
            j = r.randrange(len(b))
            if p and p["mi"] and r.random() < 0.5:
                j = p["mi"] + 4 + r.randrange(20) if r.random() < 0.5 else r.randrange(p["mi"])
            b[j] ^= 1 << r.randrange(8)
            b = bytes(b)
            if p and p["fp"]:       # keep it acceptable
                b = b[:-4] + struct.pack(">I", sw.fpval(b[:-8]))
            steps += [s_parse(b), s_valid(b, key)]
        elif x < 0.7:
            k2 = r.choice([key + b"\0", key[:-1], key[::-1], rblob(r), key.swapcase()])
            steps += [s_valid(d, k2)]
        elif x < 0.75:
            steps += [s_valid(d, key, "fail")]
    for n in MANY * ctx.scale(1, 5):      # the attribute far behind, and a long interval
        tid, key = rtid(r), r.choice([b"key", b"", r.randbytes(70)])
        d = sw.build(r.choice([0, 2, 3]), 1, tid, [(rtype_unknown(r), r.randbytes(r.choice([0, 1, 4]))) for _ in range(n)], key=key, fp=r.random() < 0.5)
        at = sw.parse(d)["mi"]
        e = bytearray(d[:at + 24])
        e[at + 4 + r.randrange(20)] ^= 1 << r.randrange(8)
        steps += [s_parse(d), s_valid(d, key), s_valid(d, key + b"1"), s_parse(setlen(bytes(e))), s_valid(setlen(bytes(e)), key)]
    for n in (4096, 65000) + ctx.scale((), (5000, 16384, 33000, 65200)):
        d = sw.build(0, 1, rtid(r), [(0x8005, r.randbytes(n))], key=b"key", fp=True)
        e = d[:30] + bytes([d[30] ^ 1]) + d[31:]
        e = e[:-4] + struct.pack(">I", sw.fpval(e[:-8]))
        steps += [s_parse(d), s_valid(d, b"key"), s_parse(e), s_valid(e, b"key")]
    for n in range(0, 131, ctx.scale(5, 1)):
        for key in (r.randbytes(n), r.randbytes(n)):
            d = sw.build(r.randrange(4), 1, rtid(r), [(sw.USERNAME, b"u")], key=key, fp=r.random() < 0.5)
            steps += [s_parse(d), s_valid(d, key)]
    # digests that are plausible but wrong: of other intervals, other lengths in the header, special values
    for _ in range(ctx.scale(60, 600)):
        key = r.choice([b"k", b"", b"key", r.randbytes(r.choice([1, 20, 63, 64, 65, 90]))])
        fp = r.random() < 0.7
        d = sw.build(r.randrange(4), 1, rtid(r), [(sw.USERNAME, b"u" * r.choice([0, 1, 3, 4, 230]))], key=key, fp=fp)
        p = sw.parse(d)
        at = p["mi"]
        import hashlib
        import hmac as hm
        sha = lambda k, m: hm.new(k, m, hashlib.sha1).digest()
        head = lambda n: d[:2] + struct.pack(">H", n) + d[4:at]
        good = sha(key, head(at + 4))
        for dg in (good, bytes(20), b"\xff" * 20, sha(key, head(at - 20)), sha(key, head(at - 16)), sha(key, head(at + 12)), sha(key, head(0)), sha(key, d[20:at]), sha(b"", head(at + 4)),
                   sha(key, head(at + 4) + d[at:at + 4]), sha(key, d[:at + 4] + bytes(20)), hashlib.sha1(head(at + 4)).digest(), good[::-1], good[:10] + bytes(10), bytes(10) + good[10:],
                   good[:19] + bytes([good[19] ^ 1]), bytes([good[0] ^ 0x80]) + good[1:]):
            b = d[:at + 4] + dg + d[at + 24:]
            if fp:
                b = b[:-4] + struct.pack(">I", sw.fpval(b[:-8]))
            steps += [s_parse(b), s_valid(b, key)]
    decide(ctx, exe, "mi", cut(steps, 40), "integrity verdicts")
    b = [s_build(r, keyp=1.0) for _ in range(ctx.scale(500, 5000))]
    decide(ctx, exe, "mi", group(b, 30), "built MESSAGE-INTEGRITY")


def cut(steps, n):
    """groups of about n steps, each starting with a parse"""
    out, cur = [], []
    for s in steps:
        if len(cur) >= n and s[0].startswith("P "):
            out.append(cur)
            cur = []
        cur.append(s)
    if cur:
        out.append(cur)
    return out


def crc_message(r, n, crc):
    """A message with FINGERPRINT of which the CRC-32 is `crc`."""
    import zlib
    head = sw.hdr(r.randrange(4), 1, rtid(r), 4 * n + 8 + 8) + b"".join(struct.pack(">HH", 0x8005 + i, 0) for i in range(n)) + struct.pack(">HH", 0x9abc, 4)
    # run the register backwards over four unknown bytes
    table = [zlib.crc32(bytes([i])) ^ 0xFF000000 ^ zlib.crc32(b"\0") ^ 0xFF000000 for i in range(256)]
    top = {t >> 24: i for i, t in enumerate(table)}
    want, regs = crc ^ 0xFFFFFFFF, zlib.crc32(head) ^ 0xFFFFFFFF
    idx = []
    for _ in range(4):
        i = top[want >> 24]
        idx.append(i)
        want = ((want ^ table[i]) << 8) & 0xFFFFFFFF
    tail = bytearray()
    for i in reversed(idx):
        tail.append((regs ^ i) & 0xFF)
        regs = table[i] ^ (regs >> 8)
    d = head + bytes(tail)
    assert zlib.crc32(d) == crc
    return d + struct.pack(">HHI", sw.FP, 4, crc ^ 0x5354554E)


def run_c15(ctx):
    exe = base(ctx)
    r = ctx.rng
    steps = [s_parse(d) for d in emitted(ctx, "MC_deep.cfg")]
    for _ in range(ctx.scale(40, 300)):
        d, _k = rmsg(r, fpp=1.0, nmax=3)
        steps.append(s_parse(d))
        bits = list(range(8 * len(d)))
        if ctx.tier == "quick":
            bits = r.sample(bits, min(len(bits), 120)) + list(range(8 * (len(d) - 8), 8 * len(d)))
        for k in bits:
            b = bytearray(d)
            b[k // 8] ^= 1 << (k % 8)
            steps.append(s_parse(bytes(b)))
    for _ in range(ctx.scale(1500, 20000)):
        d, _k = rmsg(r, fpp=1.0)
        steps.append(s_parse(d))
        if r.random() < 0.3:
            steps.append(s_parse(mutate(r, d)))
    # every table entry: all byte values at several positions
    for i in range(256):
        d = sw.build(0, 1, TID, [(0x8005, bytes([i, 255 - i, i ^ 0x55, i]))], fp=True)
        steps.append(s_parse(d))
    steps += [s_parse(d) for d in big_messages(r, 1)]
    for n in MANY * ctx.scale(1, 5):
        steps += [s_parse(d) for d in bad_tails(r, n)]
    # messages of which the checksum has a special value, and special values in place of the right one
    for crc in (0, 0xFFFFFFFF, 1, 0x80000000, 0x5354554E, 0xFFFFFFFF ^ 0x5354554E, 0x4E555453, 0x2112A442, 0xFF, 0xFF000000):
        for n in (0, 1, 5):
            d = crc_message(r, n, crc)
            steps.append(s_parse(d))
            for v in (0, 0xFFFFFFFF, 0x5354554E, ~0x5354554E & 0xFFFFFFFF, crc, ~crc & 0xFFFFFFFF, crc ^ 0x4E555453, struct.unpack("<I", struct.pack(">I", crc ^ 0x5354554E))[0], 0x2112A442):
                steps.append(s_parse(d[:-4] + struct.pack(">I", v)))
    decide(ctx, exe, "fp", group(steps, 80), "fingerprints")
    decide(ctx, exe, "fp", group([s_build(r, fpp=1.0) for _ in range(ctx.scale(1500, 15000))], 30), "built fingerprints")


def run_c16(ctx):
    exe = base(ctx)
    r = ctx.rng
    steps = [s_xor(r) for _ in range(ctx.scale(3000, 40000))]
    steps += [s_xview(r, f, n) for f in range(256) for n in (4, 16)] + [s_xview(r, f, n) for f in (0, 1, 2, 3) for n in range(40)]
    for _ in range(ctx.scale(4000, 40000)):
        tid = rtid(r)
        attrs = [(r.choice([sw.MAPPED, sw.XORMAPPED, sw.ALTSRV]), sw.addr_value(rip(r), rport(r))) for _ in range(r.choice([1, 1, 2, 3]))]
        attrs += [(sw.XORMAPPED, sw.xaddr_value(rip(r), rport(r), tid))] if r.random() < 0.3 else []
        r.shuffle(attrs)
        if r.random() < 0.25:
            t, v = attrs[0]
            v = r.choice([v[:r.randrange(len(v))], v + b"\0" * r.randrange(1, 14), v[:1] + bytes([r.randrange(256)]) + v[2:]])
            attrs[0] = (t, v)
        steps.append(s_parse(sw.build(r.choice([0, 2, 3]), 1, tid, attrs)))
    decide(ctx, exe, "addr", group(steps, 60), "addresses")
    b = []
    while len(b) < ctx.scale(2000, 20000):
        x = s_build(r, nmax=8)
        if any(k["t"] in (sw.MAPPED, sw.XORMAPPED, sw.ALTSRV) for k in x[1]["known"]):
            b.append(x)
    decide(ctx, exe, "addr", group(b, 30), "built addresses")
    q = []
    for d in emitted(ctx, "MC_order.cfg", ctx.scale(3000, None)):
        q += [s_parse(d), s_rebuild(d, None)]
    decide(ctx, exe, "addr", group(q, 60), "datagrams of the model")


def run_c17(ctx):
    exe = ctx.build("type_driver.cpp")
    beh = [[("reset", {}), (f"{a} {a + 512}", {})] for a in range(0, 65536, 512)]
    ev = run_steps(ctx, exe, beh, "message types")
    ctx.validate("stun/TypeTrace.tla", ev, "TypeTrace.cfg", what="all 65536 message types", scripts=[[c for c, _ in b] for b in beh])
    ctx.exhaustive = "all 65536 message types, all 4 classes x 4096 methods"
    ctx.model_check("stun/MCStun.tla", "MC_types.cfg")
    # the message layer uses them: datagrams of all types, built messages of all classes and methods
    exe = base(ctx)
    r = ctx.rng
    ty = range(16384) if ctx.thorough else sorted(r.sample(range(16384), 3000) + [1, 17, 257, 273])
    steps = [s_parse(sw.hdr(0, 0, TID, 0, typ=t)) for t in ty]
    steps += [(f"B {c} {m} {TID.hex()} none", {"cls": c, "method": m, "tid": list(TID), "known": [], "unknown": [], "key": [], "mode": "real"})
              for c in range(4) for m in (range(4096) if ctx.thorough else r.sample(range(4096), 700))]
    decide(ctx, exe, "type", group(steps, 100), "types of datagrams")


MANY_TIMES = [2, 255, 256, 257, 32768, 65535, 65536, 65537, 70000, 140000]


def run_c18(ctx):
    exe = base(ctx)
    r = ctx.rng
    ds = emitted(ctx, "MC_frame.cfg", ctx.scale(9000, None))
    r.shuffle(ds)
    steps = [s_parse(d) for d in ds] + [s_parse(rdatagram(r, bad=0.3, nmax=4)[0]) for _ in range(ctx.scale(6000, 60000))]
    r.shuffle(steps)
    # long histories: counters beyond 8 bits
    more = [[s_parse(x) for x in [d] * 260 + [e] * 5] for d, e in [r.sample(ds, 2) for _ in range(ctx.scale(14, 60))]]
    # beyond 16 bits, and more
    good = [d for d in ds if sw.parse(d) is not None]
    more += [[s_parse(r.choice(good if r.random() < 0.5 else ds), r.choice(MANY_TIMES)) for _ in range(6)] for _ in range(ctx.scale(24, 200))]
    decide(ctx, exe, "stat", group(steps, 120) + more, "parse statistics (STUN)")
    from . import rtp
    rtp.stat_part(ctx)


# ------------------------------------------------------------------ server
NAMES = [b"a", b"b", b"aa", b"", b"A", b"a\0"]
MORE_NAMES = [b"u%d" % i for i in range(270)] + [b"x" * 513, b"x" * 512, b"x" * 255, b"a b", b"a ", b" a", "\u00e9".encode(), "e\u0301".encode(), b"\xff\xfe", b"evtj:h6vY", b"evtj:h6vX", b"a\0b", b"a\0c"]
PWS = [b"pw", b"Pw", b"", b"x" * 64, b"x" * 65, b"y" * 100, bytes(range(20))]


def req(r, users, bad=0.1):
    """A datagram for the server: mostly well-formed requests around the decision table."""
    tid = rtid(r)
    old = r.random() < 0.15
    if old:
        tid = r.choice([r.randbytes(16), b"\x21\x12\xa4\x43" + r.randbytes(12)])
    cls = r.choice([0] * 12 + [1, 2, 3])
    method = r.choice([1] * 10 + [0, 2, 3, 0x101, 0x81, 0x11, 0xFFF])
    attrs = []
    many = r.random() < 0.04
    for _ in range(r.choice([0, 0, 1, 2, 3]) if not many else r.choice([9, 17, 33, 70, 140, 300] if r.random() < 0.4 else [9, 17, 33])):
        a = rattr(r, tid, 0.05) if not many else (rtype_unknown(r), b"")
        if a[0] != sw.USERNAME and (many or a[0] in sw.KNOWN or a[0] >= 0x8000 or r.random() < 0.25):
            attrs.append(a)
    name = None
    if r.random() < 0.6:
        name = r.choice(sorted(users) * 3 + NAMES) if users else r.choice(NAMES)
        if users and r.random() < 0.05:
            name = r.choice([name + b"\0", name[:-1], name.swapcase(), name + name, name + b" "])
        attrs.insert(r.randrange(len(attrs) + 1), (sw.USERNAME, name))
        if r.random() < 0.1:
            attrs.append((sw.USERNAME, r.choice(NAMES)))
    key = badmi = None
    if r.random() < (0.9 if name is not None else 0.12):
        x = r.random()
        key = users.get(name, b"zz") if x < 0.65 else r.choice(PWS + list(users.values()))
        if x > 0.92:
            badmi, key = r.choice([bytes(20), r.randbytes(20)]), None
    after = [rattr(r, tid) for _ in range(r.randrange(3))] if (key or badmi) and r.random() < 0.25 else []
    d = sw.build(cls, method, tid, attrs, key=key, badmi=badmi, fp=r.random() < 0.4, after_mi=after)
    if r.random() < bad:
        d = mutate(r, d)
    return d


def server_history(r, n):
    steps = [RESET, s_server(r.choice(["default", "fp", "nofp"]), "fail" if r.random() < 0.04 else "real")]
    users, seen = {}, []
    names = NAMES if r.random() < 0.75 else NAMES + r.sample(MORE_NAMES, r.choice([3, 10, 50, len(MORE_NAMES)] if r.random() < 0.3 else [3, 10]))
    if len(names) > 20:
        for nm in r.sample(names, len(names)):      # many users
            pw = r.choice(PWS)
            steps.append(s_user(nm, pw))
            users.setdefault(nm, pw)
    for _ in range(n):
        x = r.random()
        if x < 0.12 or (not users and x < 0.3):
            nm, pw = r.choice(names), r.choice(PWS)
            steps.append(s_user(nm, pw))
            users.setdefault(nm, pw)
        else:
            if seen and x > 0.82:
                d = r.choice(seen[-3:]) if r.random() < 0.7 else r.choice(seen)
                if x > 0.88:
                    d = sw.near(r, d, seen)
            else:
                d = req(r, users)
            seen.append(d)
            steps.append(s_proc(rip(r), rport(r), d, r.choice(["udp", "udp", "tcp"])))
    return steps


def from_tokens(r, g):
    """A behaviour of MCServer as driver steps."""
    steps = [RESET, s_server("fp" if g["fp"] else "nofp", "real" if g["hash"] else "fail")]
    name = {"u1": b"alice", "u2": b"bob"}
    pw = {"p1": b"secret", "p2": b"Secret"}
    tid = rtid(r)
    for s in g["s"]:
        if s[0] == "add":
            steps.append(s_user(name[s[1]], pw[s[2]]))
            continue
        _, cls, method, old, user, mi, unk = s
        attrs = []
        if user != "none":
            attrs.append((sw.USERNAME, name[user]))
        for k in range(unk):
            attrs.append((0x7F00 + k, bytes(k)))
        if unk == 0 and r.random() < 0.5:
            attrs.append((0x8001, b"x"))
        t = tid if not old else b"\0\0\0\1" + tid
        key = None if mi in ("none", "bad") else pw[mi]
        d = sw.build(sw.CLS[cls], method, t, attrs, key=key, badmi=bytes(20) if mi == "bad" else None, fp=r.random() < 0.3)
        steps.append(s_proc(rip(r), rport(r), d))
    return steps


def run_server(ctx, aspect):
    exe = base(ctx)
    r = ctx.rng
    ctx.model_check("stun/MCServer.tla", "MCServer.cfg")
    g = ctx.model_emit("stun/MCServer.tla", "MCServerGen.cfg", workers=core.NPROC)
    k = ctx.scale(2500, None)
    g.sort(key=json.dumps)
    if k and len(g) > k:
        g = r.sample(g, k)
    decide(ctx, exe, aspect, [from_tokens(r, x) for x in g], "server histories of the model")
    decide(ctx, exe, aspect, [server_history(r, r.choice([4, 12, 30])) for _ in range(ctx.scale(220, 3000))], "randomised server histories")


def run_c09(ctx):
    run_server(ctx, "decide")


def run_c10(ctx):
    run_server(ctx, "content")
