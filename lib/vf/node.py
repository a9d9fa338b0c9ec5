"""C35: the Node.js bindings (node/) on in-memory JS values, against spec/node."""
import glob, json, multiprocessing, os, random
from . import client as C, core, stun as ST, stunwire as W, text as TX
from .core import Violation


class S(bytes):
    """A JS string (its bytes); plain bytes are a buffer."""


class Undefined:
    pass


UNDEF = Undefined()


def tok(v):
    """A value as the driver reads it."""
    if isinstance(v, S):
        return "s:" + (v.hex() or "-")
    if isinstance(v, bytes):
        return "b:" + (v.hex() or "-")
    if v is True or v is False:
        return "t" if v else "f"
    if isinstance(v, int):
        return f"i:{v}"
    if v is None:
        return "n"
    if v is UNDEF:
        return "u"
    return "o(" + ",".join(f"{k}={tok(x)}" for k, x in v.items()) + ")"


def tag(v):
    """A value as the specification has it (spec/node/Js.tla)."""
    if isinstance(v, S):
        return {"str": list(v)}
    if isinstance(v, bytes):
        return {"buf": list(v)}
    if v is True or v is False:
        return {"bool": v}
    if isinstance(v, int):
        return {"num" if v >= 0 else "neg": [abs(v) >> 16, abs(v) & 0xFFFF]}
    if v is None:
        return {"null": 0}
    if v is UNDEF:
        return {"undefined": 0}
    return {"obj": {"_": 0, **{k: tag(x) for k, x in v.items()}}}


def odd(r):
    """A value of some other type."""
    return r.choice([S(b""), S(b"x"), b"", b"\x01", 0, 5, True, False, None, UNDEF, {}, {"x": 1}])


def oddnot(r, *kinds):
    while True:
        v = odd(r)
        if next(iter(tag(v))) not in kinds:
            return v


class Js:
    """One history: a client and a server object, and the functions."""
    def __init__(self, drv, rng, unit=1):
        self.d, self.r, self.unit = drv, rng, unit
        self.ev, self.script = [], []
        # readings of the steady clock never go back, whatever they start with
        drv.ns = getattr(drv, "ns", rng.choice([0, 999, 1_000_000_000, 123_456_789_012_345, 1 << 53, (1 << 62) + 7])) + rng.randrange(10**10)
        self.base, self.now = drv.ns, 0
        if unit > 1:
            self.base = drv.ns = (drv.ns // 1000 + 1) * 1000
        self.ev.append({"e": "reset", "unit": unit})
        self.blank, self.tids, self.tx, self.sends = [], {}, {}, {}
        self.est = {}
        self.reqs, self.answers = [], []
        self.users = {}

    def send(self, line):
        self.script.append(line)
        return self.d.cmd(line)

    # -- time: units (microseconds, or multiples of them) since the start, nanoseconds on the clock
    def clock(self):
        if self.unit > 1:
            self.d.ns = self.base + 1000 * self.unit * self.now
            self.send(f"T {self.d.ns}")
            return self.now
        ns = max(self.d.ns, self.base + 1000 * self.now + self.r.randrange(1000))
        self.d.ns = ns
        self.send(f"T {ns}")
        self.now = max(self.now, (ns // 1000) - (self.base // 1000))
        return ns // 1000 - self.base // 1000

    def tick(self, us):
        self.now += max(0, int(us))

    def call(self, e, line, args, **kw):
        r = self.send(line + "".join(" " + tok(a) for a in args))
        x = {"e": e, "args": [tag(a) for a in args], "ok": r["ok"], "v": r.get("v", {"none": 0}), "err": r.get("err", ""), **kw}
        self.ev.append(x)
        return x

    # -- functions
    def parse(self, a):
        return self.call("message_parse", "fn message_parse", a)

    def candidate(self, a):
        return self.call("candidate_parse", "fn candidate_parse", a)

    # -- server
    def server(self):
        self.call("newserver", "new s StatelessServer", [])
        self.users = {}

    def user(self, *a):
        self.call("addUser", "call s StatelessServer addUser", a)
        if len(a) >= 2 and isinstance(a[0], S) and isinstance(a[1], S):
            self.users.setdefault(bytes(a[0]), bytes(a[1]))

    def process(self, *a):
        return self.call("process", "call s StatelessServer process", a)

    # -- client
    def client(self, *a):
        return self.call("newclient", "new c ClientUDP", a)["ok"]

    def create(self, *a):
        t = self.clock()
        self.send("R " + " ".join(str(self.r.getrandbits(31)) for _ in range(12)))
        x = self.call("create", "call c ClientUDP create", a, t=t, tid=[])
        h = self.num(x["v"], "value")
        if x["ok"] and h is not None:
            x["tid"] = [h]      # replaced by the id that the first datagram shows
            self.blank.append((h, x))
            self.tx[h] = {"auth": self.auth(a[0]), "created": t, "tid": None, "sends": 0, "path": self.path(a[0])}
            return h

    def path(self, a):
        return tok(a["source"]), tok(a["target"])

    def auth(self, a):
        return (bytes(a["auth"]["username"]), bytes(a["auth"]["password"])) if "auth" in a else None

    @staticmethod
    def num(v, *path):
        try:
            for p in path:
                v = v["obj"][p]
            x = 0
            for w in v.get("num") or v["wide"]:
                x = x * 65536 + w
            return x
        except (KeyError, TypeError):
            return None

    def next(self):
        t = self.clock()
        x = self.call("next", "call c ClientUDP next", [], t=t)
        o = x["v"].get("obj", {})
        k = bytes(o.get("type", {}).get("str", [])).decode()
        if k == "send_data":
            b = bytes(o.get("message", {}).get("buf", []))
            tid = b[8:20]
            if tid not in self.tids and self.blank:
                h, c = self.blank.pop(0)
                c["tid"] = list(tid)
                self.tids[tid] = h
                if h in self.tx:
                    self.tx[h]["tid"] = tid
            h = self.tids.get(tid)
            if h in self.tx:
                self.tx[h]["sends"] += 1
            self.reqs.append(b)
        elif k in ("transaction_ok", "transaction_fail"):
            h = self.num(x["v"], "handle", "value")
            if k == "transaction_ok":
                try:
                    tid = bytes(o["response"]["obj"]["header"]["obj"]["transaction"]["buf"])
                except KeyError:
                    tid = b""
                h = self.tids.get(tid)
            tx = self.tx.pop(h, None)
            if tx:
                self.tids.pop(tx["tid"], None)
                old = self.est.get(tx["path"], 500000)
                self.est[tx["path"]] = max(old, 64 * old if tx["sends"] > 1 else 4 * (self.now - tx["created"]))
        return k, self.num(x["v"], "timeout_ms")

    def can_create(self, req):
        return self.now < 300_000_000 and self.est.get(self.path(req), 500000) * 64 < 400_000_000

    def response(self, *a):
        t = self.clock()
        return self.call("response", "call c ClientUDP response", a, t=t)


IPS = [S(b"10.0.0.1"), S(b"10.0.0.2"), S(b"192.168.0.255"), S(b"2001:db8::1"), S(b"2001:DB8:0:0:0:0:0:1"), S(b"::ffff:10.0.0.1"), S(b"::"), S(b"255.255.255.255")]
BADIPS = [S(b""), S(b"1.2.3"), S(b"1.2.3.4.5"), S(b"256.1.1.1"), S(b"1.2.3.4 "), S(b"fe80::1%eth0"), S(b":::"), S(b"localhost")]
CREDS = [(b"john", b"secret"), (b"john", b"Secret"), (b"", b"k" * 65), (b"al\xc3\xa9", b""), (b"u" * 300, b"pw")]


def rrequest(r, good=0.9):
    q = {"source": r.choice(IPS[:5]), "target": r.choice(IPS)}
    if r.random() < 0.5:
        u, p = r.choice(CREDS)
        q["auth"] = {"username": S(u), "password": S(p)}
    if r.random() < 0.1:
        q["unrelated"] = odd(r)
    if r.random() > good:
        k = r.randrange(6)
        if k == 0:
            q[r.choice(["source", "target"])] = r.choice(BADIPS)
        elif k == 1:
            q[r.choice(["source", "target"])] = oddnot(r, "str")
        elif k == 2:
            q.pop(r.choice(["source", "target"]))
        elif k == 3:
            q["auth"] = oddnot(r, "obj", "undefined")
        elif k == 4:
            q["auth"] = {"username": S(b"u"), "password": S(b"p"), r.choice(["username", "password"]): oddnot(r, "str")}
        else:
            q["auth"] = {r.choice(["username", "password"]): S(b"u")}
    return q


def rinfo(r, good=0.95):
    q = {"address": r.choice(IPS) if r.random() < 0.6 else S(TX.raddr_ip(r)), "port": ST.rport(r), "family": S(b"IPv4"), "size": 20}
    if r.random() > good:
        k = r.randrange(4)
        if k == 0:
            q["address"] = r.choice(BADIPS)
        elif k == 1:
            q["address"] = oddnot(r, "str")
        elif k == 2:
            q.pop(r.choice(["address", "port"]))
        else:
            q["port"] = oddnot(r, "num")
    return q


def funcs(drv, r, i):
    """message_parse and candidate_parse"""
    s = Js(drv, r)
    if i % 2:
        for _ in range(r.randrange(5, 25)):
            x = r.random()
            if x < 0.06:
                s.parse([] if r.random() < 0.3 else [oddnot(r, "buf")])
                continue
            d, _ = ST.rdatagram(r, bad=0.06) if x < 0.5 else ST.rmsg(r)
            # mostly Binding, which is the only method with a representation
            if len(d) >= 20 and r.random() < 0.85 and not (d[0] & 0xC0):
                p = W.parse(d)
                if p:
                    d = W.build(p["cls"], 1, p["tid"], [(t, v) for t, v in p["attrs"] if t not in (W.MI, W.FP)], key=b"k" if p["mi"] else None, fp=p["fp"])
            s.parse([d])
    else:
        for c in r.sample(LINES, min(len(LINES), r.randrange(5, 25))):
            s.candidate([S(c)])
        if r.random() < 0.3:
            s.candidate([] if r.random() < 0.3 else [oddnot(r, "str")])
    return s


LINES = []


def server_mix(drv, r, i):
    s = Js(drv, r)
    s.server()
    seen = []
    for _ in range(r.randrange(4, 30)):
        x = r.random()
        if x < 0.12 or (not s.users and x < 0.3):
            if r.random() < 0.1:
                a = [S(b"n"), S(b"p")]
                a[r.randrange(2)] = oddnot(r, "str")
                s.user(*a[:r.choice([1, 2, 2])])
            else:
                s.user(S(r.choice(ST.NAMES)), S(r.choice(ST.PWS)))
        elif x < 0.16:
            s.process(oddnot(r, "buf"), rinfo(r))
        elif x < 0.2:
            s.process(b"\0\1\0\0", oddnot(r, "obj"))
        else:
            d = r.choice(seen) if seen and x > 0.92 else ST.req(r, s.users)
            seen.append(d)
            s.process(d, rinfo(r))
    return s


def follow(s, lim=80, late=0.1):
    for _ in range(lim):
        k, ms = s.next()
        if k in ("idle", ""):
            return
        if k == "sleep":
            if not ms or s.now + 1000 * ms > 900_000_000:
                return
            s.tick(1000 * ms)
            if s.r.random() < late:
                s.tick(s.r.randrange(2_000_000))


def answer(s, r, d):
    """A response to request d made by the independent encoder."""
    p = W.parse(d)
    if not p:
        return b""
    tx = s.tx.get(s.tids.get(p["tid"]))
    kinds = C.Session.SUCC * 2 + C.Session.ERRS + ["req", "ind"]
    kind = r.choice(kinds)
    sess = C.Session.__new__(C.Session)
    sess.rng = r
    a = C.Session.attrs_for(sess, kind, p["tid"])
    if r.random() < 0.3:
        a.insert(r.randrange(len(a) + 1), (W.SOFTWARE, r.choice([b"", b"server \xff"])))
    kw = {}
    if tx and tx["auth"] and r.random() < 0.85:
        kw["key"] = tx["auth"][1] if r.random() < 0.9 else b"another"
    m = 1 if r.random() < 0.93 else r.choice(C.FOREIGN)
    d = W.build(C.Session.CLS.get(kind, W.ERROR), m, p["tid"], a, fp=r.random() < 0.5, **kw)
    return ST.mutate(r, d) if r.random() < 0.06 else d


def client_mix(drv, r, i):
    s = Js(drv, r)
    x = r.random()
    if x < 0.15:
        s.client(r.choice([oddnot(r, "obj"), {"use_fingerprint": oddnot(r, "bool", "undefined")}]))
    st = {} if x < 0.4 else {"use_fingerprint": x < 0.7}
    if r.random() < 0.1:
        st["other"] = odd(r)
    if not s.client(st):
        return s
    last = ("", None)
    reqs = [rrequest(r, 1.0) for _ in range(r.choice([1, 2, 3]))]
    for _ in range(r.randrange(6, 45)):
        x = r.random()
        if (x < 0.15 or not s.tx) and len(s.tx) < 4:
            q = r.choice(reqs) if r.random() < 0.5 else rrequest(r, 0.8)
            if "source" not in q or "target" not in q or s.can_create(q):
                s.create(q)
                for _ in range(r.randrange(3)):
                    last = s.next()
        elif x < 0.4 and s.reqs:
            if r.random() < 0.06:
                s.response(oddnot(r, "buf"))
            else:
                s.response(answer(s, r, s.reqs[-1] if r.random() < 0.6 else r.choice(s.reqs)))
        else:
            last = s.next()
            if last[0] == "sleep" and r.random() < 0.8 and s.now < 400_000_000:
                k = r.random()
                s.tick(1000 * last[1] if k < 0.6 else r.randrange(1000 * last[1] + 1))
            elif r.random() < 0.15 and s.now < 400_000_000:
                s.tick(r.choice([1, 999, 1000, r.randrange(3_000_000)]))
    follow(s)
    return s


def long_mix(drv, r, i):
    """Histories of hours to months: the unit is half a second, so the binding's numbers pass 2^31."""
    s = Js(drv, r, 500000)
    if not s.client({}):
        return s
    reqs = [rrequest(r, 1.0) for _ in range(2)]
    paths = {s.path(q): [0, 1] for q in reqs}     # samples taken, estimate of the RTO
    for k in range(r.randrange(1, 7)):
        q = r.choice(reqs)
        p = paths[s.path(q)]
        if s.now + 70 * p[1] > 1 << 28 or len(s.tx) > 3:
            break
        h = s.create(q)
        kind, ms = s.next()
        if i % 2 == 0 and k == 0 or r.random() < 0.4:
            # no poll until the answer: a round trip of any length; the estimator divides, which only even
            # first samples survive in these units
            if p[0]:
                continue
            p[0] = 1
            rtt = 2 * r.choice([1, 2, 1000, 2146, 2147, 2148, 4294, 4295, 5000, r.randrange(1, 10000), r.randrange(1, 100000)])
            p[1] = max(p[1], 4 * rtt)
            s.tick(rtt)
            if s.reqs:
                s.response(answer(s, r, s.reqs[-1]))
            s.next()
            continue
        # sleep until it was sent often enough, then answer: the RTO of the path backs off
        n = r.randrange(8)
        for _ in range(40):
            kind, ms = s.next()
            if kind == "send_data":
                n -= 1
                if n <= 0 and r.random() < 0.9:
                    s.response(answer(s, r, s.reqs[-1]))
            elif kind == "sleep" and ms:
                s.tick(min(-(-ms // 500), (1 << 30) - s.now))
                p[1] = max(p[1], -(-ms // 500))
            else:
                break
    for _ in range(30):
        kind, ms = s.next()
        if kind == "sleep" and ms and s.now + ms // 500 < 1 << 30:
            s.tick(-(-ms // 500))
        elif kind not in ("send_data", "transaction_ok", "transaction_fail"):
            break
    return s


def loop(s, r, d):
    """The server's reply to d, or None."""
    e = s.process(d, rinfo(r, 1.0))
    try:
        return bytes(e["v"]["obj"]["data"]["buf"])
    except KeyError:
        return None


def model_replay(drv, r, g):
    """A behaviour of MCBinding (client, server, network) between the two classes."""
    s = Js(drv, r)
    s.server()
    s.client({"use_fingerprint": r.random() < 0.7})
    creds = {"A": CREDS[0], "B": CREDS[1]}
    hs, got = [], {}
    for st in g["s"]:
        k = st[0]
        if k == "create":
            q = {"source": IPS[0], "target": IPS[1]}
            if st[1]["auth"]:
                u, p = creds[st[1]["auth"]]
                q["auth"] = {"username": S(u), "password": S(p)}
            hs.append(s.create(q))
        elif k == "tick":
            s.tick(st[1] * 250000)
        elif k == "next":
            s.next()
        elif k == "user":
            s.user(S(creds[st[1]][0]), S(creds[st[2]][1]))
        else:
            h = hs[int(st[1])] if int(st[1]) < len(hs) else None
            tid = next((t for t, x in s.tids.items() if x == h), None)
            rq = [b for b in s.reqs if b[8:20] == tid]
            if k == "serve" and rq:
                b = loop(s, r, rq[0])
                if b:
                    got.setdefault(h, []).append(b)
            elif k == "deliver" and got.get(h):
                s.response(r.choice(got[h]))
    follow(s, 30)
    return s


MIX = {"long": long_mix, "funcs": funcs, "server": server_mix, "client": client_mix}


def _worker(a):
    exe, jobs, lines = a
    LINES[:] = lines
    drv = C.Drv(exe)
    out = []
    for kind, seed, x in jobs:
        r = random.Random(seed)
        try:
            s = model_replay(drv, r, x) if kind == "model" else MIX[kind](drv, r, x)
            out.append((s.ev, s.script))
        except C.Crash as e:
            return out, (str(e), kind, seed)
    drv.stop()
    return out, None


def sources():
    return sorted(os.path.relpath(f, core.REPO) for d in ("node_stun", "node_ice", "openssl") for f in glob.glob(f"{core.REPO}/node/{d}/*.cpp"))


def run_c35(ctx):
    exe = ctx.build("node_driver.cpp", more=sources())
    n = ctx.scale(1, 12)
    sd = f"{ctx.seed}/C35"
    lines = TX.sdp_lines(ctx, 1500 * n)
    jobs = [("funcs", f"{sd}/f{i}", i) for i in range(300 * n)] + [("server", f"{sd}/s{i}", i) for i in range(220 * n)] \
        + [("client", f"{sd}/c{i}", i) for i in range(450 * n)] + [("long", f"{sd}/l{i}", i) for i in range(120 * n)]
    g = C.dedupe(ctx.model_emit("client/MCBinding.tla", "MCBindingGen.cfg", workers=core.NPROC))
    k = min(len(g), 250 * n)
    jobs += [("model", f"{sd}/m{i}", x) for i, x in enumerate(ctx.rng.sample(g, k))]
    ctx.log(f"{len(g)} maximal behaviours of the model, {k} replayed")
    w = core.NPROC
    with multiprocessing.get_context("fork").Pool(w) as p:
        res = p.map(_worker, [(exe, jobs[i::w], lines) for i in range(w)])
    beh, scr = [], []
    for out, crash in res:
        for e, s in out:
            beh.append(e)
            scr.append(s)
        if crash:
            rep = ctx.write_replay("crash", {"what": "binding crashed or hung", "job": str(crash[1:]), "detail": json.loads(crash[0])})
            d = json.loads(crash[0])
            raise Violation(f"node driver: real code crashed/hung rc={d['rc']}: {d['stderr'][:400]}", rep)
    ctx.validate("node/NodeTrace.tla", beh, what="JS histories", scripts=scr)
    c = {}
    for b in beh:
        for e in b[1:]:
            key = e["e"] + ("" if e["ok"] else " (throws)")
            if e["e"] == "next" and e["ok"]:
                key += "/" + bytes(e["v"].get("obj", {}).get("type", {}).get("str", [])).decode("latin1")
            c[key] = c.get(key, 0) + 1
    ctx.notes["scenario_mix"] = ", ".join(f"{v} {k}" for k, v in sorted(c.items()))
    ctx.assumptions += ["craftnapi and the JS engine are replaced by in-memory values (harness/craftnapi); conversions of JS values by the engine are not covered",
                        "ports given by JS are whole numbers from 0 to 65535", "histories stay within 2^31 units of 1 microsecond or half a second"]
