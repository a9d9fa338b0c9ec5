"""C29: HMAC and the OpenSSL hash functions against spec/hmac."""
import glob
import os
from . import core
from .stun import hx, run_steps, group, rblob

RESET = ("R", {})


def cut(r, m, n):
    """m in n pieces"""
    c = sorted(r.randrange(len(m) + 1) for _ in range(n - 1))
    return [m[a:b] for a, b in zip([0] + c, c + [len(m)])]


def s_h(r, size, key, fail, ps):
    return (f"H {size} {hx(key)} {fail} {r.randrange(1 << 31)} {r.choice('oi')} " + " ".join(map(hx, ps)), {"key": list(key), "ps": [list(p) for p in ps]})


def s_pad(r, size, key, fail):
    return (f"P{r.choice('OI')} {size} {hx(key)} {fail} {r.randrange(1 << 31)}", {"key": list(key)})


def s_hash(alg, ps, back=""):
    return (f"S {alg}{back} " + " ".join(map(hx, ps)), {"alg": alg, "ps": [list(p) for p in ps]})


def s_fault(alg, back, at, n, ps):
    return (f"F {alg}{back} {at} {n} " + " ".join(map(hx, ps)), {"alg": alg, "ps": [list(p) for p in ps]})


def s_real(r, alg, key, ps, back=""):
    return (f"M {alg}{back} {hx(key)} {r.choice('oi')} " + " ".join(map(hx, ps)), {"alg": alg, "key": list(key), "ps": [list(p) for p in ps]})


KL = [0, 1, 2, 15, 16, 17, 19, 20, 21, 31, 32, 33, 55, 56, 62, 63, 64, 65, 66, 80, 127, 128, 129, 131, 192, 200]


def more():
    return sorted(os.path.relpath(f, core.REPO) for f in glob.glob(f"{core.REPO}/node/openssl/*.cpp"))


def run_c29(ctx):
    r = ctx.rng
    ctx.assumptions.append("the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp")
    exe = ctx.build("hmac_driver.cpp", more=more())
    g = ctx.model_emit("hmac/Hmac.tla", "Hmac.cfg", workers=core.NPROC)
    cases = sorted({(x["k"], x["m"], x["p"], x["f"]) for x in g})
    st = []
    # key lengths 0..4 of the model with block size 2 stand for lengths around 64
    for k, m, p, f in cases:
        for size in (16, 20, 32):
            key = r.randbytes({0: 0, 1: r.randrange(1, 64), 2: 64, 3: 65, 4: r.choice([66, 128, 129, 200])}[k])
            st.append(s_h(r, size, key, f, cut(r, r.randbytes({0: 0, 1: r.randrange(1, 20), 2: 130}[m]), p)))
    for _ in range(ctx.scale(1200, 30000)):
        key = rblob(r, r.choice(KL))
        size = r.choice([16, 20, 32])
        m = rblob(r)
        ps = r.choice([[], [m], cut(r, m, 2), cut(r, m, 3), cut(r, m, 9), cut(r, m, r.choice([16, 17, 33, 70, 260])), [b"", m], [m, b""]])
        st.append(s_h(r, size, key, r.choice([0, 0, 0, 1, 2, 3, 4]), ps))
        if r.random() < 0.3:
            st.append(s_pad(r, size, key, r.choice([0, 0, 1, 2])))
    # all key lengths to four blocks
    for n in range(0, 260):
        st += [s_h(r, r.choice([16, 20, 32]), r.randbytes(n), 0, [b"m"]), s_pad(r, r.choice([16, 20, 32]), r.randbytes(n), 0)]
    for size in (16, 20, 32):
        for n in list(range(0, 40)) + [64, 256 + size]:
            b = r.randbytes(n)
            st.append((f"V {size} {hx(b)}", {"b": list(b), "size": size}))
    real = []
    for alg in ("sha1", "md5"):
        for back in ("", "n"):
            # every call of OpenSSL fails once, and the next hash is right again
            for at in ("new", "init", "update", "update", "update", "final"):
                ps = [rblob(r, r.randrange(20)) for _ in range(3)]
                real += [s_fault(alg, back, at, r.choice([1, 2, 3]) if at == "update" else 1, ps), s_hash(alg, ps[:1], back)]
        for n in [0, 1, 2, 3, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 183, 184, 250] + [r.randrange(300) for _ in range(ctx.scale(15, 300))] + [511, 512, 1000, 1023]:
            m = rblob(r, n)
            real += [s_hash(alg, r.choice([[m], cut(r, m, 2), cut(r, m, 5), cut(r, m, 40), [b"", m, b""]] + ([[]] if not m else [])), r.choice(["", "n"]))]
        for n in KL + [r.randrange(300) for _ in range(ctx.scale(10, 200))]:
            real.append(s_real(r, alg, rblob(r, n), cut(r, rblob(r), r.choice([1, 2, 4, 20])), r.choice(["", "n"])))
    for n, back in [(70000, ""), (66000, "n")] + ctx.scale([], [(131072, ""), (140000, "n"), (65536, ""), (65535, "n")]):
        m = rblob(r, n)
        real.append(s_hash(r.choice(["sha1", "md5"]), r.choice([[m], [b"", m], [m[:1], m[1:]]]), back))
    # several threads at once, for a longer time
    real += [(f"Y {alg}{back} {ctx.scale(3000, 40000)}", {"alg": alg}) for alg in ("sha1", "md5") for back in ("", "n")]
    beh = [[RESET, *b] for b in group(st, 60)] + [[RESET, *b] for b in group(real, 8)]
    ev = run_steps(ctx, exe, beh, "HMAC")
    ctx.validate("hmac/HmacTrace.tla", ev, what="HMAC", scripts=[[c for c, _ in b] for b in beh])
