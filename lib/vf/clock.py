"""C20, C21: time points and clock converters against spec/clock."""
from . import core
from .stun import run_steps, group

RESET = ("R", {})
M64 = 1 << 64
H64 = 1 << 63
MUL = {"us": 1, "10us": 10, "ms": 1000, "s": 10**6, "min": 60 * 10**6, "h": 3600 * 10**6, "d": 86400 * 10**6, "w": 604800 * 10**6}
DIV = {"ns": 1000, "ps": 10**6, "third": 3, "tenth": 10}
ADV = ["us/64", "ms/64", "s/64", "min/64", "h/64", "d/64", "w/64", "10us/64", "us/32", "ms/32", "s/32", "h/32", "us/std", "ms/std", "s/std", "min/std", "h/std", "us/nat", "us/u64", "ms/u64", "s/u32", "ms/16", "s/8"]
ADVF = ["ns/64", "ps/64", "third/64", "tenth/64", "us/64", "ms/64", "s/64", "min/64", "h/64", "10us/64", "ns/32", "ms/32", "ns/std", "us/std", "ms/std", "s/std", "h/std", "ms/16", "tenth/16", "third/32"]


def limbs(v):
    v %= M64
    return [v >> 48, (v >> 32) & 0xFFFF, (v >> 16) & 0xFFFF, v & 0xFFFF]


def s_adv(op, dst, src, unit, n):
    u, rep = unit.split("/")
    return (f"{op} {dst} {src} {u} {rep} {n}", {"dst": dst, "src": src, "unit": u, "n": limbs(n)})


def s_cmp(a, b):
    return (f"C {a} {b}", {"a": a, "b": b})


def s_conv(u, t, reg=0):
    return (f"K {reg} {u} {t}", {"unit": u, "t": limbs(t), "reg": reg})


def s_now(t, reg=0):
    return (f"N {reg} {t}", {"t": limbs(t), "reg": reg})


def clip(unit, n):
    """Durations whose count and whose microseconds fit 63 bits (the rest overflows in std::chrono itself)."""
    u, rep = unit.split("/")
    lim = min({"32": 1 << 31, "u32": 1 << 32, "16": 1 << 15, "8": 1 << 7}.get(rep, H64) - 1, (H64 - 1) // MUL.get(u, 1))
    return max(0 if rep[0] == "u" and rep[1:].isdigit() else -lim, min(lim, n))


def amount(r, unit):
    u = unit.split("/")[0]
    d = DIV.get(u, 1)
    lim = clip(unit, H64)
    n = r.choice([0, 1, 2, 3, 9, 10, 11, 999, 1000, 1001, 999999, 10**6, 10**6 + 1, d - 1, d, d + 1, 2 * d - 1, 5 * d,
                  lim, lim - 1, lim // 2, lim // 2 + 1, 2**32 - 1, 2**32, 2**31 - 1, 2**31, r.randrange(10 * d), r.randrange(lim + 1), 1 << r.randrange(63)])
    return clip(unit, r.choice([1, -1]) * n)


def run_c20(ctx):
    exe = ctx.build("clock_driver.cpp", lib=False)
    r = ctx.rng
    ctx.model_check("clock/MCClock.tla", "MCClock.cfg")
    ctx.apalache("clock/ClockProof.tla", "Laws", "Init", "Next", cinit="CInit")
    g = ctx.model_emit("clock/MCClock.tla", "MCClockGen.cfg", workers=core.NPROC)
    g = [x for x in g if x[2] or r.random() < 0.3]
    g.sort()
    if len(g) > ctx.scale(6000, 10**9):
        g = r.sample(g, 6000)
    beh = []
    # the small circle laid over the 64-bit one: k of 16 stands for k * 2^60, a little off
    def at(k):
        return k * (1 << 60) + r.choice([-2, -1, 0, 0, 1, 2])
    def signed(v):
        v %= M64
        return v - M64 if v >= H64 else v
    steps = []
    for a, b, n in g:
        va, vb, vn = signed(at(a)), signed(at(b)), signed(at(n))
        steps += [s_adv(r.choice("AF"), 1, 0, "us/64", clip("us/64", va)), s_adv("A", 2, 0, "us/nat", clip("us/64", vb)), s_cmp(1, 2),
                  s_adv(r.choice("AF"), 3, 1, "us/64", clip("us/64", vn)), s_cmp(3, 1), s_cmp(3, 2)]
    beh += [[RESET, *x] for x in group(steps, 120)]
    for _ in range(ctx.scale(300, 4000)):
        b = [RESET]
        for _ in range(r.choice([10, 60])):
            x = r.random()
            d, s = r.randrange(1, 8), r.randrange(8)
            if x < 0.3:
                u = r.choice(ADV)
                b.append(s_adv("A", d, s, u, amount(r, u)))
            elif x < 0.7:
                u = r.choice(ADVF)
                b.append(s_adv("F", d, s, u, amount(r, u)))
            else:
                b.append(s_cmp(r.randrange(8), r.randrange(8)))
        beh.append(b)
    # every amount around zero for every unit
    for u in ADVF:
        d = DIV.get(u.split("/")[0], 1)
        span = list(range(-2 * d - 2, 2 * d + 3))
        if len(span) > 300:
            span = sorted(set(r.sample(span, 250) + list(range(-3, 4)) + [k * d + e for k in (-2, -1, 1, 2) for e in (-1, 0, 1)]))
        beh.append([RESET] + [s_adv("F", r.randrange(1, 8), r.randrange(8), u, n) for n in span])
    ev = run_steps(ctx, exe, beh, "time points")
    ctx.validate("clock/ClockTrace.tla", ev, what="time points", scripts=[[c for c, _ in b] for b in beh])
    ctx.assumptions.append("durations whose count and microseconds fit a signed 64-bit number (std::chrono itself overflows beyond)")


def readings(r, u, n):
    """A sequence of readings whose successive differences fit 63 bits."""
    d, m = DIV.get(u, 1), MUL.get(u, 1)
    lim = min((H64 - 1) // m, H64 - 1) // 2
    x = r.random()
    t = r.choice([0, 1, -1, d - 1, -d + 1, r.randrange(-5 * d, 5 * d), r.randrange(-lim, lim), lim - 1, -lim + 1, -lim // 2])
    up = x < 0.4
    if up and r.random() < 0.7:
        t = abs(t)
    out = [t]
    for _ in range(n):
        st = r.choice([0, 0, 1, 1, 2, d - 1, d, d + 1, d // 2, 3 * d + 1, 1000, r.randrange(10 * d + 10), r.randrange(1 << 40)])
        t += st if up else -st if x < 0.6 else r.choice([1, -1]) * st
        if not -lim < t < lim:
            t = r.randrange(-lim, lim) if not up else lim - 1
        if up:
            t = max(t, out[-1])
        out.append(t)
    return out


def run_c21(ctx):
    exe = ctx.build("clock_driver.cpp", lib=False)
    r = ctx.rng
    for init, length in (("InitAny", 0), ("InitInv", 1)):
        ctx.apalache("clock/Converter.tla", "Inv", init, "NextAny", cinit="CInit", length=length)
    g = ctx.model_emit("clock/MCConverter.tla", "MCConverter.cfg", workers=core.NPROC)
    beh, cur = [], []
    base = 0
    for h in sorted(g):
        u, k = r.choice([("third", 1), ("third", 1), ("tenth", 3), ("ns", 333)])
        base = r.choice([0, 0, 3 * r.randrange(-10**6, 10**6)])
        ts = [base + t * k for t in h]
        cur += [s_conv(u, ts[0])] + [s_now(t) for t in ts]
        if len(cur) > 300:
            beh.append([RESET, *cur])
            cur = []
    beh.append([RESET, *cur])
    for _ in range(ctx.scale(600, 8000)):
        b = [RESET]
        for _ in range(r.choice([1, 3])):
            u = r.choice(["ns", "ns", "ns", "ps", "third", "tenth", "us", "10us", "ms", "s", "min"])
            ts = readings(r, u, r.choice([3, 10, 40]))
            b += [s_conv(u, ts[0])] + [s_now(t) for t in (ts if r.random() < 0.5 else ts[1:])]
        beh.append(b)
    # several converters at once, some of the same clock, and copies of them
    for _ in range(ctx.scale(120, 2000)):
        b, last = [RESET], {}
        for _ in range(60):
            g = r.randrange(4)
            x = r.random()
            if g not in last or x < 0.05:
                u = r.choice([v[0] for v in last.values()] + ["ns", "third", "us"])
                ts = readings(r, u, 40)
                b.append(s_conv(u, ts[0], g))
                last[g] = [u, ts]
            elif x < 0.1 and len(last) > 1:
                f = r.choice([k for k in last if k != g])
                b.append((f"KC {g} {f}", {"reg": g, "src": f}))
                last[g] = [last[f][0], list(last[f][1])]
            elif len(last[g][1]) > 1:
                b.append(s_now(last[g][1].pop(1) if r.random() < 0.9 else last[g][1][1], g))
            else:
                del last[g]
        beh.append(b)
    beh.append([RESET] + [(f"Y t {ctx.scale(40000, 400000)}", {})] * 3)
    beh.append([RESET] + [("Y", {})] * 60 + [("Y t", {})] * 10 + [("Y", {})] * 10)
    ev = run_steps(ctx, exe, beh, "converted clock readings")
    ctx.validate("clock/ClockTrace.tla", ev, what="converted clock readings", scripts=[[c for c, _ in b] for b in beh])
    ctx.assumptions.append("differences of successive readings fit the clock's 64-bit representation")
