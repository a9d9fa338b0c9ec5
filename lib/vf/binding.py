"""C34: a client and a server of the library over a bad network, against spec/client/Binding.tla."""
import struct
from . import client as C, core, stunwire as W
from .client import CREDS, PATHS

SRC = {"X": ("0a000001", 4000), "Y": ("20010db8000000000000000000000001", 65535)}


def srctxt(s):
    return f"{s[0]}:{s[1]}"


class Net(C.Session):
    """A client session with a server and everything that is in the air."""
    def __init__(self, drv, rng, cfg, fp=True, sfp=True):
        self.reqs = {}          # tid (hex) -> (bytes, handle)
        self.answers = []       # (tid, source text, class, m, bytes)
        super().__init__(drv, rng, cfg, fp=fp)
        self.sfp = sfp
        self.ev[-1] = {"e": "reset", "cfg": self.ev[-1]["cfg"]}
        self.send(f"srvnew {int(sfp)}")
        self.users = {}

    def want(self, attrs, unknown, auth):
        return {"auth": auth, "uname": any(a.startswith("user=") for a in attrs),
                "ucr": ",".join(str(t) for t, _ in unknown if t < 0x8000)}

    def wire(self, d):
        p = W.parse(d)
        if p:
            self.reqs[p["tid"].hex()] = d
        return ""

    def user(self, who, pw):
        self.users.setdefault(who, pw)
        self.send(f"user {CREDS[who][0].hex()} {CREDS[pw][1].hex() or '-'}")
        self.ev.append({"e": "user", "who": who, "pw": pw})

    def serve(self, tid, src, damage=None):
        d = self.reqs.get(tid)
        if d is None:
            return
        if damage is not None:
            # a flip in the length of an attribute can swallow FINGERPRINT and leave a well-formed message
            d = next((x for x in (damage(d) for _ in range(20)) if W.parse(x) is None), None)
            if d is None:
                return
        r = self.send(f"serve {src[0]} {src[1]} {d.hex()}")
        if damage is not None:
            self.ev.append({"e": "drop", "k": r["k"]})
            return
        m = {}
        if r["k"] == "respond":
            b = bytes.fromhex(r["bytes"])
            m = self.abstract(b)
            self.answers.append((tid, srctxt(src), m["cls"], m, b))
        self.ev.append({"e": "serve", "t": self.now, "tid": tid, "src": srctxt(src), "k": r["k"], "m": m})

    def deliver(self, a, damage=None):
        tid, _, _, m, b = a
        if damage is not None:
            return self.rawresp(damage(b))
        r = self.send(f"resp {self.now} {int(self.rng.random() < 0.4)} {b.hex()}")
        self.ev.append({"e": "deliver", "t": self.now, "m": m, "r": r["r"]})

    def reflect(self, tid):
        """A request comes back to the client."""
        self.rawresp(self.reqs[tid])


def flip(r, keep=0):
    def f(d):
        b = bytearray(d)
        k = r.randrange(8 * (len(b) - keep))
        b[k // 8] ^= 1 << (k % 8)
        return bytes(b)
    return f


def mix(drv, r, i):
    c = C.rcfg(r, allow300=r.random() < 0.3)
    u = c.pop("_u")
    fp = r.random() < 0.7
    s = Net(drv, r, c, fp=fp, sfp=r.random() < 0.7)
    s.u = u
    for who in CREDS:
        if r.random() < 0.7:
            s.user(who, who if r.random() < 0.7 else r.choice(list(CREDS)))
    nats = [(r.choice(C.V4 + C.V6), r.choice([0, 1, 3478, 0x2112, 65535, r.randrange(65536)])) for _ in range(3)]
    e = None
    for _ in range(r.randrange(8, 50)):
        x = r.random()
        if (x < 0.12 or not s.tx) and len(s.tx) < 4:
            p = r.randrange(len(PATHS))
            if s.can_create(p):
                auth = r.choice(["", "", "A", "A", "B", "C"])
                unknown = [(r.choice([0x0002, 0x7FFF, 0x8000, 0xC001]), r.randbytes(r.randrange(5)))] if r.random() < 0.12 else []
                attrs = []
                if r.random() < 0.2:
                    attrs.append("sw=" + r.randbytes(r.randrange(1, 9)).hex())
                if not auth and r.random() < 0.1:
                    attrs.append("user=" + r.choice([CREDS["A"][0], b"nobody"]).hex())
                if r.random() < 0.15:
                    attrs.append(f"prio={r.getrandbits(32)}")
                s.create(p, auth, attrs, unknown)
                e = C.poll_some(s, r)
        elif x < 0.4 and s.reqs:
            tid = r.choice(sorted(s.reqs)) if r.random() < 0.3 else list(s.reqs)[-1]
            p = W.parse(s.reqs[tid])
            if r.random() < 0.12 and p and p["fp"]:
                s.serve(tid, r.choice(nats), flip(r, 8))
            else:
                s.serve(tid, r.choice(nats))
                if r.random() < 0.1:     # an answer reaches the server
                    a = r.choice(s.answers) if s.answers else None
                    if a:
                        rr = s.send(f"serve {nats[0][0]} {nats[0][1]} {a[4].hex()}")
                        s.ev.append({"e": "drop", "k": rr["k"]})
        elif x < 0.6 and s.answers:
            a = r.choice(s.answers[-3:]) if r.random() < 0.8 else r.choice(s.answers)
            # an unprotected success response would be taken as it comes
            guarded = a[2] == "error" or a[3]["mi"] != "none" or W.parse(a[4])["fp"]
            s.deliver(a, flip(r) if guarded and r.random() < 0.08 else None)
        elif x < 0.63 and s.reqs:
            s.reflect(r.choice(sorted(s.reqs)))
        elif x < 0.66 and len(s.users) < len(CREDS):
            who = r.choice(sorted(CREDS))
            s.user(who, who)
        else:
            e = C.poll_some(s, r)
            if r.random() < 0.7:
                C.advance(s, r, e)
    s.follow(late=0.1)
    return s


WIDE = {"A": "A", "B": "B"}


def replay(drv, r, g, unit):
    c = g["cfg"]
    sc = lambda x: None if not x else x[0] * unit
    s = Net(drv, r, {"rc": c["rc"], "rm": c["rm"], "cap": sc(c["cap"]), "t5": sc(c["t5"]), "max5": c["max5"], "rto0": c["rto0"] * unit, "hdur": sc(c["hdur"]),
                     "allow300": c["allow300"]})
    s.u = unit
    hs, order = [], []
    src = {k: srctxt(v) for k, v in SRC.items()}
    for st in g["s"]:
        k = st[0]
        if k == "create":
            w = st[1]
            hs.append(s.create(0, w["auth"], ["user=" + CREDS["A"][0].hex()] if w["uname"] else [], [(2, b"x")] if w["ucr"] else []))
        elif k == "tick":
            s.tick(st[1] * unit)
        elif k == "next":
            n = len(s.reqs)
            e = s.next()
            if len(s.reqs) > n:
                order.append((e["h"], list(s.reqs)[-1]))
        elif k == "user":
            s.user(st[1], st[2])
        elif k == "serve":
            h = hs[int(st[1])]
            for hh, t in order:
                if hh == h:
                    s.serve(t, SRC[st[2]])
        elif k == "deliver":
            h = hs[int(st[1])]
            t = next((t for hh, t in order if hh == h), None)
            for a in s.answers:
                if a[0] == t and a[2] == st[3] and (not st[2] or a[1] == src[st[2][0]]):
                    s.deliver(a)
                    break
    s.follow(lim=60)
    return s


def run_c34(ctx):
    exe = ctx.build("client_driver.cpp")
    jobs = [("bmix", f"{ctx.seed}/C34/{i}", ("C34", i)) for i in range(ctx.scale(1500, 18000))]
    g = C.dedupe(ctx.model_emit("client/MCBinding.tla", "MCBindingGen.cfg", workers=core.NPROC))
    k = min(len(g), ctx.scale(3000, 10**9))
    pick = g if k == len(g) else ctx.rng.sample(g, k)
    ctx.log(f"{len(g)} maximal behaviours of the model, {len(pick)} replayed")
    jobs += [("bstim", f"{ctx.seed}/C34/g/{i}", (x, ctx.rng.choice([1, 10, 1000, 250000]))) for i, x in enumerate(pick)]
    beh, scr = C.sessions(ctx, exe, "C34", jobs)
    ctx.validate("client/BindingTrace.tla", beh, what="client, server and network", scripts=scr)
    ctx.model_check("client/MCBinding.tla", ctx.scale("MCBindingQuick.cfg", "MCBinding.cfg"))
    n = {}
    for b in beh:
        for e in b:
            k = e["e"] + ("/" + e["k"] if e["e"] in ("next", "serve", "drop") else "") + ("/" + e["why"] if e.get("why") else "")
            n[k] = n.get(k, 0) + 1
    ctx.notes["scenario_mix"] = f"{len(beh)} histories: " + ", ".join(f"{v} {k}" for k, v in sorted(n.items()))
    ctx.assumptions += ["histories stay within 2^31 microseconds of their starting time", "single bit flips are the only damage of datagrams, in datagrams with FINGERPRINT"]
