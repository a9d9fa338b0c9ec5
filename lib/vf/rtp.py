"""C19 and the RTP part of C18: RTP packets against spec/rtp."""
import struct
from . import core
from .core import CheckError
from .stun import hx, run_steps, group, rblob

RESET = ("R", {})
RATES = [0, 1, 8000, 48000, 90000, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]


def s_map(r, n=None):
    n = r.choice([0, 1, 2, 3, 4, 8, 128]) if n is None else n
    if n == 128:
        pts = list(range(128))
        r.shuffle(pts)
    else:
        pts = [r.choice([0, 1, 8, 95, 96, 97, 111, 126, 127, r.randrange(128)]) for _ in range(n)]
    pairs = [(p, r.choice(RATES)) for p in pts]
    return ("M " + " ".join(f"{p}:{c}" for p, c in pairs), {"pairs": [[p, c >> 16, c & 0xFFFF] for p, c in pairs]}), pts


def s_rate(pt):
    return (f"L {pt}", {"pt": pt})


def s_parse(d, times=1):
    return (f"P {hx(d)}" + (f" {times}" if times > 1 else ""), {"d": list(d)})


def rpacket(r, pts, bad=0.3):
    cc = r.choice([0, 0, 0, 1, 2, 3, 15, r.randrange(16)])
    x, p, m = r.random() < 0.4, r.random() < 0.4, r.random() < 0.5
    v = 2 if r.random() > 0.05 else r.choice([0, 1, 3])
    pt = r.choice(pts) if pts and r.random() < 0.9 else r.choice([0, 1, 72, 76, 126, 127, r.randrange(128)])
    d = bytes([(v << 6) | (p << 5) | (x << 4) | cc, (m << 7) | pt])
    d += r.choice([r.randbytes(10), b"\xff" * 10, bytes(10), b"\x80" + bytes(9), r.randbytes(2) + b"\x7f\xff\xff\xff\x80\0\0\0"])
    d += r.randbytes(4 * cc)
    if x:
        n = r.choice([0, 0, 1, 2, 3, 255, 256, r.randrange(8)])
        d += r.randbytes(2) + struct.pack(">H", n) + r.randbytes(4 * n)
    d += rblob(r)
    if p:
        n = r.choice([1, 2, 3, 4, 8, 127, 128, 255])
        d += r.choice([bytes(n - 1), r.randbytes(n - 1)]) + bytes([n])
    if r.random() < bad:
        k = r.randrange(6)
        if k == 0:
            d = d[:r.randrange(len(d) + 1)]
        elif k == 1:
            d = d[:r.choice([0, 1, 11, 12, 13, 15, 16, 17, 19, 20])]
        elif k == 2:
            d = d[:-1] + bytes([r.choice([0, 1, len(d) % 256, 255, r.randrange(256)])])
        elif k == 3 and x and len(d) >= 16 + 4 * cc:
            o = 12 + 4 * cc + 2
            have = (len(d) - 16 - 4 * cc) // 4
            d = d[:o] + struct.pack(">H", r.choice([have, have + 1, max(0, have - 1), 0x3FFF, 0x4000, 0x7FFF, 0xFFFF, 0xFFFE, 0x8000])) + d[o + 2:]
        else:
            b = bytearray(d)
            j = r.choice([0, 1, r.randrange(len(b))])
            b[j] ^= 1 << r.randrange(8)
            d = bytes(b)
    return d


def behaviours(ctx, nrand, limit=None):
    r = ctx.rng
    ds = [bytes(x) for x in ctx.model_emit("rtp/MCRtp.tla", "MCRtp.cfg", workers=core.NPROC)]
    ds.sort()
    if limit and len(ds) > limit:
        ds = r.sample(ds, limit)
    mapping = ("M 0:8000 96:90000 127:0", {"pairs": [[0, 0, 8000], [96, 1, 24464], [127, 0, 0]]})
    beh = [[RESET, mapping, *g] for g in group([s_parse(d) for d in ds], 80)]
    n = 0
    while n < nrand:
        m, pts = s_map(r)
        b = [RESET, m] + [s_rate(p) for p in r.sample(range(128), 6) + pts[:3]]
        for _ in range(r.choice([5, 40, 80])):
            x = r.random()
            if x < 0.02:
                m, pts = s_map(r)
                b += [m] + [s_rate(p) for p in pts[:2]]
            b.append(s_parse(rpacket(r, pts)))
        beh.append(b)
        n += len(b)
    # long histories: counters beyond 8 bits
    for d in r.sample(ds, ctx.scale(6, 30)):
        beh.append([RESET, mapping] + [s_parse(d)] * 260)
        beh.append([RESET, mapping] + [s_parse(r.choice([d, r.choice(ds)]), r.choice([2, 255, 256, 32768, 65535, 65536, 65537, 70000, 140000])) for _ in range(6)])
    # every truncation of some packets, every value of the first two bytes
    for _ in range(ctx.scale(6, 40)):
        d = rpacket(r, [96], 0)
        beh.append([RESET, mapping] + [s_parse(d[:i]) for i in range(len(d) + 1)])
    m, pts = s_map(r, 128)
    d = r.randbytes(90)
    beh.append([RESET, m] + [s_parse(bytes([i]) + d[1:]) for i in range(256)])
    beh.append([RESET, m] + [s_parse(b"\x80" + bytes([i]) + d[2:]) for i in range(256)])
    beh.append([RESET, m] + [s_parse(b"\xa0" + d[1:-1] + bytes([i])) for i in range(256)])
    big = b"\x90" + d[1:12] + b"\xbe\xde\x3f\xff" + r.randbytes(4 * 0x3FFF)
    beh.append([RESET, m, s_parse(big), s_parse(big[:-1]), s_parse(big + b"x")])
    return beh


def go(ctx, aspect, nrand, what, limit=None):
    exe = ctx.build("rtp_driver.cpp")
    beh = behaviours(ctx, nrand, limit)
    ev = run_steps(ctx, exe, beh, what)
    ctx.validate("rtp/RtpTrace.tla", ev, f"RtpTrace_{aspect}.cfg", what=what, scripts=[[c for c, _ in b] for b in beh])


def run_c19(ctx):
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp",
                        "payload maps of 0-4, 8 or 128 entries, datagrams up to 64 KiB"]
    go(ctx, "packet", ctx.scale(12000, 200000), "RTP packets")


def stat_part(ctx):
    go(ctx, "stat", ctx.scale(4000, 60000), "parse statistics (RTP)", ctx.scale(6000, None))
