"""C36: what the client, the server and the parsers keep, against spec/memory."""
import json
from . import core
from .core import CheckError

KINDS = ["sample", "backoff", "refused", "server", "timeout", "unknown", "nowhere", "elsewhere", "nocode", "all"]


def client(kind, n, paths=1, gap=1000, rc=7, cap=8000, t5=500, m5=2, rto=500, hist=10000, six=0, auth=0, seed=1, together=1):
    """a run of n transactions (or waves of them); times in milliseconds"""
    u = 1000
    return (f"C {kind} {paths} {n} {gap * u} {rc} {cap * u} {t5 * u} {m5} {rto * u} {hist * u} {six} {auth} {seed} {together}",
            {"paths": paths, "gap": gap, "arms": rc + m5 + 1, "wait": 2 * max(cap, t5, rto), "hist": hist, "together": together, "n": n})


def server(kind, users, n):
    return (f"S {kind} {users} {n}", {"users": users, "n": n})


def parse(kind, n):
    return (f"P {kind} {n}", {"n": n})


def run_c36(ctx):
    r = ctx.rng
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp", "the heap in use is what the address sanitizer's allocator counts"]
    exe = ctx.build("memory_driver.cpp")
    for cfg in ctx.scale(["Residue.cfg", "ResidueNew.cfg", "ResidueTwo.cfg"], ["ResidueBig.cfg", "ResidueNew.cfg", "ResidueTwo.cfg"]):
        ctx.model_check("memory/Residue.tla", cfg, timeout=800)
    rc, out = ctx._tlc("memory/Residue.tla", "ResidueLazy.cfg", workers=1)
    if "Invariant Bounded is violated" not in out:
        raise CheckError("a client that seldom forgets should exceed the bounds\n" + out[-2000:])
    n = ctx.scale(10000, 120000)
    st = [client(k, n // 2 if k == "timeout" else n, paths=p, six=r.randrange(2), seed=r.randrange(1 << 30)) for k in KINDS for p in (0, r.choice([1, 2, 7, 30]))]
    st += [client(r.choice(KINDS), n, auth=1, seed=r.randrange(1 << 30)), client("sample", n, gap=1, hist=5000, rto=300, cap=2000, paths=0), client("all", n, paths=0, gap=20, hist=1000, rto=50, cap=400, t5=100, rc=3)]
    for i in range(ctx.scale(6, 20)):
        st.append(client(r.choice(KINDS), n, paths=r.choice([0, 0, 1, 5, 100]), gap=r.choice([10, 100, 1000, 20000]), rc=r.choice([1, 2, 3, 7]), cap=r.choice([500, 2000, 8000]), t5=r.choice([10, 300, 1000]),
                         m5=r.choice([0, 1, 2, 4]), rto=r.choice([20, 100, 500]), hist=r.choice([1, 100, 1000, 30000]), six=r.randrange(2), seed=r.randrange(1 << 30)))
    for tog in (2, 9, 64) + ctx.scale((), (300, 1000)):
        st.append(client("wave", n // tog, together=tog, paths=r.choice([0, 1, 5]), gap=r.choice([500, 9000]), seed=r.randrange(1 << 30)))
    st += [server(k, u, n) for k in ("plain", "signed", "stranger", "unknown", "garbage", "indication", "update", "all") for u in (20,)] + [server("all", u, n) for u in (1, 300)]
    st += [parse(k, n) for k in ("stun", "rtp", "sdp", "fqdn", "ip", "hash", "tid")]
    beh = [[("R", {}), s] for s in st]
    outs = ctx.run_many(exe, ["\n".join(c for c, _ in b) + "\n" for b in beh], timeout=400, what="memory")
    ev = []
    for b, o in zip(beh, outs):
        if len(o) != len(b):
            raise CheckError("memory: driver answered too little")
        ev.append([{**json.loads(x), **extra} for x, (_, extra) in zip(o, b)])
    ctx.notes["most_kept_bytes"] = max((h for e in ev for x in e for h in x.get("heap", [])), default=0)
    ctx.validate("memory/MemTrace.tla", ev, what="memory", scripts=[[c for c, _ in b] for b in beh])


USES = {"stun": ["empty", "required", "small", "large", "name", "list", "phrase", "cut", "toolong", "last"],
        "server": ["empty", "required", "small", "large", "name", "cut", "toolong", "last"],
        "rtp": ["csrc", "ext", "pad", "all"], "sdp": ["attrs", "spaces", "name", "gen"],
        "fqdn": ["labels", "long", "dash"], "ip": ["dots", "colons", "c"]}


def run_c38(ctx):
    """what handling one input asks for"""
    r = ctx.rng
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp", "memory asked for is what the address sanitizer's allocator is asked for"]
    exe = ctx.build("memory_driver.cpp")
    ctx.model_check("memory/Use.tla", "Use.cfg", timeout=300)
    rc, out = ctx._tlc("memory/Use.tla", "UseCopying.cfg", workers=1)
    if "Invariant Proportional is violated" not in out:
        raise CheckError("copying at every step should not be proportional\n" + out[-2000:])
    kinds = [(w, h) for w, hs in USES.items() for h in hs]
    sizes = [0, 1, 20, 27, 28, 32, 40, 100, 576, 1000, 1500, 10000, 60000, 65000]
    beh = []
    for w, h in kinds:
        # short inputs first: the shortest for which too much is asked is reported
        st = sorted(sizes + [r.randrange(65000) for _ in range(ctx.scale(10, 300))] + [r.randrange(1500) for _ in range(ctx.scale(20, 600))])
        beh.append([f"U {w} {h} {s}" for s in st])
    outs = ctx.run_many(exe, ["\n".join(["R"] + b) + "\n" for b in beh], timeout=400, what="memory use")
    ev = []
    for b, o in zip(beh, outs):
        o = [json.loads(x) for x in o]
        if len(o) != len(b) + 1 and not (len(o) > 1 and o[-1].get("bytes", 0) > 4000000):     # it stops at a gross excess
            raise CheckError("memory: driver answered too little")
        if any("size" not in x for x in o[1:]):
            raise CheckError("memory: the allocator could not be observed")
        ev.append(o)
    ctx.notes["most_bytes_per_byte"] = max((round(x["bytes"] / x["size"]) for e in ev for x in e[1:] if x["size"] >= 1000), default=0)
    ctx.validate("memory/UseTrace.tla", ev, what="memory use", scripts=[["R"] + b for b in beh])
