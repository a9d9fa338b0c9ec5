"""C01-C08: the UDP STUN client against spec/client/ClientUDP.tla."""
import json, multiprocessing, os, random, select, struct, subprocess, sys
from . import core, stunwire as W
from .core import CheckError, Violation

CREDS = {"A": (b"john doe", b"1234"), "B": (b"alice", b"a longer password, beyond sixty-four bytes in order to be hashed first!"),
         "C": (b"bob", b"pw\x00\xff"), "D": (b"long" * 75, b""), "E": (b"\xc3\xa9", b"k" * 64), "F": (b"L" * 600, b"p" * 300)}
V4 = ["0a000001", "0a000002", "c0a80001", "c0a80002"]
V6 = ["20010db8000000000000000000000001", "20010db8000000000000000000000002", "00000000000000000000ffff0a000001"]
PATHS = [(V4[0], V4[1]), (V4[0], V4[2]), (V4[2], V4[1]), (V4[1], V4[0]), (V6[0], V6[1]), (V6[1], V6[0]), (V4[0], V6[2]), (V4[3], V4[3])]
PATHS += [(V6[0], V6[2]), (V6[2], V4[0]), (V4[3], V4[0]), (V4[0], V4[3])]
SW = b"server 1"


class Crash(Exception):
    pass


class Drv:
    """Interactive driver process: one command, one JSON line."""
    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env or {}
        self.start()

    def start(self):
        self.errf = open(self.exe + f".err{os.getpid()}", "w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env={**os.environ, **core.Ctx.ENV, **self.env}, bufsize=0)
        self.buf = b""

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.errf.close()

    def cmd(self, line):
        try:
            self.p.stdin.write(line.encode() + b"\n")
        except (BrokenPipeError, OSError):
            self.fail("driver died")
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 60)
            if not r:
                self.p.kill()
                self.fail("no answer within 60 s")
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                self.fail("driver died")
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def fail(self, why):
        rc = self.p.wait()
        self.errf.seek(0)
        err = self.errf.read().decode("utf-8", "replace")
        self.errf.close()
        if rc == 3:
            raise CheckError("driver rejected script: " + err)
        raise Crash(json.dumps({"why": why, "rc": rc, "stderr": err[-5000:]}))


def opt(x):
    return "-" if x is None else str(x)


def lst(x):
    return [] if x is None else [x]


DEFAULT = {"rc": 7, "rm": 16, "cap": None, "t5": None, "max5": 4, "rto0": 500000, "hdur": None, "allow300": False}
BASES = [0, 1, 10**15, (1 << 63) - 5000, (1 << 64) - 3000, (1 << 64) - 40_000_000, (1 << 63) - 30_000_000]


class Session:
    def __init__(self, drv, rng, cfg, base=None, default=False, fp=True, hash_=None, fresh=True, scale=1):
        self.d, self.rng = drv, rng
        self.ev, self.script, self.said = [], [], []
        self.drawn_live = {}
        self.seen = []          # responses so far
        # microseconds per unit of time of this history
        self.scale = scale
        self.send(f"scale {scale}")
        self.new(cfg, base, default, fp, hash_, fresh)

    def new(self, cfg, base=None, default=False, fp=True, hash_=None, fresh=False):
        self.cfg = {**DEFAULT, **cfg}
        if default and self.scale > 1:
            self.cfg.update(rto0=500000 // self.scale, hdur=3600000000 // self.scale)
        self.now = 0
        self.fp = fp
        self.base = self.rng.choice(BASES) if base is None else base
        c = self.cfg
        if default:
            self.send(f"new default {self.base}")
        else:
            h = "zero" if (hash_ if hash_ is not None else self.rng.random() < 0.1) else "-"
            self.send(f"new {self.base} {c['rc']} {c['rm']} {opt(c['cap'])} {opt(c['t5'])} {c['max5']} {c['rto0']} "
                      f"{opt(c['hdur'])} {int(c['allow300'])} {int(fp)} {h}")
        # the library's default history duration is part of the settings under test only in default mode
        mc = {**c, "cap": lst(c["cap"]), "t5": lst(c["t5"]), "hdur": lst(c["hdur"])}
        self.ev.append({"e": "reset", "cfg": mc, "default": default, "fresh": fresh, "unit": self.scale if default else 1})
        self.tx, self.est = {}, {}
        self.queue = []

    def send(self, line):
        self.script.append(line)
        a = self.d.cmd(line)
        self.said.append(a)
        return a

    # ---- time
    def tick(self, dt):
        self.now += max(0, int(dt))

    # ---- create
    def bound(self, path):
        e = self.est.get(path, self.cfg["rto0"])
        return max(e * (1 << max(0, self.cfg["rc"] - 1)), e * self.cfg["rm"])

    def can_create(self, path):
        return self.now < 300_000_000 and self.bound(path) < 400_000_000

    def create(self, path=0, auth="", attrs=None, unknown=(), rand=None, expect_rnd=True):
        src, dst = PATHS[path] if path < len(PATHS) else far(path)
        a = ",".join(attrs or []) or "-"
        u = ",".join(f"{t}={v.hex()}" for t, v in unknown) or "-"
        if rand is None and self.rng.random() < 0.1 and any(x["words"] for x in self.tx.values()):
            # the random device repeats what it gave for transactions that are still pending
            rand = sum(self.rng.sample([x["words"] for x in self.tx.values() if x["words"]], 1), []) + [self.rng.getrandbits(32) for _ in range(4)]
            expect_rnd = False
        words = rand or [self.rng.getrandbits(32) for _ in range(4)]
        rnd = ",".join(map(str, words))
        au = "-" if not auth else f"{CREDS[auth][0].hex()}:{CREDS[auth][1].hex()}"
        r = self.send(f"create {self.now} {src} {dst} {au} {a} {u} {rnd}")
        h = r.get("h", -1)
        want = self.want(attrs or [], unknown, auth)
        e = {"e": "create", "t": self.now, "h": h, "tid": f"unknown-{h}", "path": f"{src}>{dst}", "auth": auth, "want": want,
             "ok": r["ok"], "rnd": rnd if expect_rnd else "", "used": r.get("used", 0)}
        self.ev.append(e)
        self.tx[h] = {"e": e, "tid": None, "auth": auth, "path": path, "sends": 0, "created": self.now,
                      "words": list(words[:3]) if expect_rnd else None}
        return h

    def want(self, attrs, unknown, auth):
        l = []
        for f in attrs:
            k, _, v = f.partition("=")
            if k == "sw":
                l.append((W.SOFTWARE, v))
            elif k == "user":
                l.append((W.USERNAME, v))
            elif k == "prio":
                l.append((W.PRIO, f"{int(v):08x}"))
            elif k == "uc":
                l.append((W.USECAND, ""))
            elif k == "cling":
                l.append((W.ICECLING, v))
            elif k == "cled":
                l.append((W.ICECLED, v))
        l += [(t, v.hex()) for t, v in unknown]
        if auth:
            l.append((W.USERNAME, CREDS[auth][0].hex()))
        return json.dumps(["request", 1, "cookie", sorted(l), auth or "none", "fp" if self.fp else "nofp"])

    def wire(self, d):
        p = W.parse(d)
        if p is None:
            return "unparsable"
        if p["mi"] is None:
            mi = "none"
        else:
            mi = next((c for c in CREDS if W.mi_ok(d, p, CREDS[c][1])), "bad")
        body = [(t, v.hex()) for t, v in p["attrs"] if t not in (W.MI, W.FP)]
        order = p["order"]
        tail = ([W.MI] if p["mi"] is not None else []) + ([W.FP] if p["fp"] else [])
        ok = order.count(W.MI) <= 1 and order[len(order) - len(tail):] == tail and len(p["tid"]) == 12
        return json.dumps([W.CLSN[p["cls"]], p["method"], "3489" if p["old"] else "cookie" if ok else "order", sorted(body), mi,
                           "fp" if p["fp"] else "nofp"])

    # ---- next
    def next(self):
        r = self.send(f"next {self.now}")
        e = {"e": "next", "t": self.now, "k": r["k"], "h": r.get("h", -1), "why": r.get("why", ""), "data": r.get("data", ""),
             "rtt": r.get("rtt", []), "resp": r.get("resp", ""), "d": r.get("d", 0), "same": False, "wire": ""}
        t = self.tx.get(e["h"])
        if r["k"] == "send":
            if r["bytes"] == "same":
                e["same"] = True
            else:
                b = bytes.fromhex(r["bytes"])
                e["wire"] = self.wire(b)
                if t is not None and t["tid"] is None and len(b) >= 20:
                    t["tid"] = b[8:20]
                    t["e"]["tid"] = b[8:20].hex()
            if t is not None:
                t["sends"] += 1
        elif r["k"] in ("ok", "fail") and t is not None:
            self.tx.pop(e["h"])
            p = t["path"]
            old = self.est.get(p, self.cfg["rto0"])
            if r["k"] == "ok" and t["sends"] <= 1:
                self.est[p] = max(old, 4 * (self.now - t["created"]))
            else:
                self.est[p] = max(old, self.bound(p)) if t["sends"] > 1 else max(old, 4 * (self.now - t["created"]))
        self.ev.append(e)
        return e

    def drain(self, lim=200):
        """Poll at this instant until Sleep or Idle."""
        for _ in range(lim):
            e = self.next()
            if e["k"] in ("sleep", "idle"):
                return e
        return e

    def follow(self, lim=400, late=0.0, until=900_000_000):
        """Poll at the announced times until Idle (or the time budget is used up)."""
        for _ in range(lim):
            e = self.next()
            if e["k"] == "idle":
                return True
            if e["k"] == "sleep":
                if e["d"] <= 0 or self.now + e["d"] > until:
                    return False
                self.now += e["d"]
                if late and self.rng.random() < late:
                    self.now += self.rng.randrange(0, e["d"] + 2)
        return False

    # ---- responses
    def abstract(self, d):
        m = {"parse": False, "cls": "", "tid": "", "mi": "none", "ucr": "", "xor": [], "map": [], "code": [], "err": "", "alt": [], "ua": [], "resp": ""}
        p = W.parse(d)
        if p is None:
            return m
        f = p["first"]
        m.update(parse=True, cls=W.CLSN[p["cls"]] if p["method"] == 1 else "foreign", tid=p["tid"].hex())
        if p["mi"] is not None:
            m["mi"] = next((c for c in CREDS if W.mi_ok(d, p, CREDS[c][1])), "bad")
        m["ucr"] = ",".join(str(t) for t, _ in p["unknown"] if t < 0x8000)
        if W.XORMAPPED in f:
            m["xor"] = [W.ep_of(f[W.XORMAPPED], p["tid"])]
        if W.MAPPED in f:
            m["map"] = [W.ep_of(f[W.MAPPED])]
        if W.ERRCODE in f:
            c, reason = W.errcode_of(f[W.ERRCODE])
            m["code"] = [c]
            m["err"] = f"{c}/{reason.hex()}"
        if W.ALTSRV in f:
            m["alt"] = [W.ep_of(f[W.ALTSRV])]
        if W.UNKNOWN in f:
            m["ua"] = [W.types_of(f[W.UNKNOWN])]
        m["resp"] = f"{p['tid'].hex()}/{p['cls']}/{f[W.SOFTWARE].hex() if W.SOFTWARE in f else 'none'}"
        return m

    def rawresp(self, d, pre=None):
        pre = int(self.rng.random() < 0.4) if pre is None else pre
        self.seen.append(d)
        r = self.send(f"resp {self.now} {pre} {d.hex() or '-'}")
        self.ev.append({"e": "resp", "t": self.now, "m": self.abstract(d), "r": r["r"]})
        return r["r"]

    def addr(self):
        r = self.rng
        ip = bytes.fromhex(r.choice(V4 + V6))
        if r.random() < 0.3:
            ip = bytes(r.getrandbits(8) for _ in ip)
        elif r.random() < 0.4:
            ip = W.special_ip(r)
        return ip, r.choice([0, 1, 3478, 0x2112, 65535, r.randrange(65536)])

    def attrs_for(self, kind, tid):
        r = self.rng
        X = lambda: (W.XORMAPPED, W.xaddr_value(*self.addr(), tid))
        M = lambda: (W.MAPPED, W.addr_value(*self.addr()))
        A = lambda: (W.ALTSRV, W.addr_value(*self.addr()))
        Ec = lambda c: (W.ERRCODE, W.errcode_value(c, r.choice([b"", b"reason", b"x" * r.randrange(1, 9), r.randbytes(r.choice([3, 127, 128, 255, 256, 509, 763])) if r.random() < 0.2 else b"y"]), r.choice([0, 0, r.getrandbits(21)])))
        U = lambda: (r.choice([0x0002, 0x0003, 0x0014, 0x0015, 0x7FFF, r.randrange(0x26, 0x8000)]), bytes(r.getrandbits(8) for _ in range(r.randrange(0, 6))))
        UA = lambda: (W.UNKNOWN, struct.pack(">%dH" % (n := r.randrange(0, 4) if r.random() < 0.9 else r.choice([7, 8, 9, 16, 17, 40, 130])), *[r.randrange(65536) for _ in range(n)]))
        c3 = lambda: r.choice([301, 302, 350, 399])
        c4 = lambda: r.choice([400, 401, 403, 404, 410, 421, 438, 486, 499, r.choice([x for x in range(400, 500) if x != 420])])
        c5 = lambda: r.choice([500, 500, 501, 508, 599])
        cx = lambda: r.choice([0, 1, 99, 100, 200, 299, 600, 601, 699, 700, 799])
        T = {
            "ok": lambda: [X()], "okmap": lambda: [M()], "okboth": lambda: r.sample([X(), M()], 2), "noaddr": lambda: [],
            "okdup": lambda: [X(), X(), M(), M()], "okucr": lambda: [X(), U()], "okucr2": lambda: [U(), X(), U()],
            "ucr": lambda: [U()], "okerr": lambda: [X(), Ec(c4())], "noaddrerr": lambda: [Ec(c5())],
            "300": lambda: [Ec(300), A()], "300noalt": lambda: [Ec(300)], "300map": lambda: [Ec(300), M()], "300ucr": lambda: [Ec(300), A(), U()],
            "3xx": lambda: [Ec(c3())], "3xxalt": lambda: [Ec(c3()), A()], "400": lambda: [Ec(c4())], "4xxua": lambda: [Ec(c4()), UA()],
            "4xxucr": lambda: [Ec(c4()), U()], "420": lambda: [Ec(420), UA()], "420noua": lambda: [Ec(420)], "4xxaddr": lambda: [X(), Ec(c4())],
            "500": lambda: [Ec(c5())], "500ucr": lambda: [Ec(c5()), U()], "500alt": lambda: [Ec(c5()), A()], "600": lambda: [Ec(cx())],
            "600ucr": lambda: [Ec(cx()), U()], "nocode": lambda: [], "nocodeucr": lambda: [U()], "nocodeaddr": lambda: [X(), A()],
            "req": lambda: [X()], "ind": lambda: [X()], "reqerr": lambda: [Ec(c4())],
        }
        return T[kind]()

    CLS = {"ok": W.SUCCESS, "okmap": W.SUCCESS, "okboth": W.SUCCESS, "noaddr": W.SUCCESS, "okdup": W.SUCCESS, "okucr": W.SUCCESS,
           "okucr2": W.SUCCESS, "ucr": W.SUCCESS, "okerr": W.SUCCESS, "noaddrerr": W.SUCCESS, "req": W.REQUEST, "ind": W.INDICATION, "reqerr": W.REQUEST}
    SUCC = ["ok", "okmap", "okboth", "noaddr", "okdup", "okucr", "okucr2", "ucr", "okerr", "noaddrerr"]
    ERRS = ["300", "300noalt", "300map", "300ucr", "3xx", "3xxalt", "400", "4xxua", "4xxucr", "420", "420noua", "4xxaddr", "500", "500ucr",
            "500alt", "600", "600ucr", "nocode", "nocodeucr", "nocodeaddr"]

    def respond(self, h, kind, mi="own", tid=None, method=1, pre=None, fp=None, decorate=True, mutate=None):
        """mi: own (as the transaction requires), none, bad, or a credential id."""
        r = self.rng
        t = self.tx.get(h)
        tid = tid or (t and t["tid"])
        if tid is None:
            return None
        if kind == "junk":
            return self.rawresp(self.junk(tid), pre)
        a = self.attrs_for(kind, tid)
        if decorate:
            if r.random() < 0.3:
                a.insert(r.randrange(len(a) + 1), (W.SOFTWARE, r.choice([SW, b"", b"x"])))
            if r.random() < 0.2:
                a.insert(r.randrange(len(a) + 1), (r.choice([0x8000, 0x8001, 0xFFFF, 0xC001]), b"opt"))
        auth = t["auth"] if t else ""
        who = auth if mi == "own" else mi
        kw = {}
        if who in CREDS:
            kw["key"] = CREDS[who][1]
        elif who == "bad":
            kw["badmi"] = bytes(r.getrandbits(8) for _ in range(20))
        if kw and decorate and r.random() < 0.2:
            kw["after_mi"] = [r.choice([(0x7777, b""), (W.XORMAPPED, W.xaddr_value(*self.addr(), tid)), (W.SOFTWARE, b"late"),
                                        (W.ERRCODE, W.errcode_value(300))])]
        d = W.build(self.CLS.get(kind, W.ERROR), method, tid, a, fp=r.random() < 0.4 if fp is None else fp, pad=r.choice([0, 0, 0x20]), **kw)
        if mutate:
            d = mutate(d)
        return self.rawresp(d, pre)

    def junk(self, tid):
        r = self.rng
        g = W.build(W.SUCCESS, 1, tid, self.attrs_for("ok", tid), fp=True)
        k = r.randrange(9)
        if k == 0:
            return b""
        if k == 1:
            return g[:r.randrange(len(g))]
        if k == 2:
            return g + bytes(r.choice([1, 4]))
        if k == 3:
            return bytes([g[0] | r.choice([0x40, 0x80])]) + g[1:]
        if k == 4:
            i = r.randrange(len(g) - 8)
            return g[:i] + bytes([g[i] ^ (1 << r.randrange(8))]) + g[i + 1:]
        if k == 5:
            return g[:4] + struct.pack(">I", W.COOKIE ^ (1 << r.randrange(32))) + g[8:]
        if k == 6:
            return W.build(W.SUCCESS, 1, tid, [(W.XORMAPPED, b"\x00\x03" + bytes(6))])
        if k == 7:
            return W.build(W.SUCCESS, 1, tid, [], fp=0xFFFF)
        return bytes(r.getrandbits(8) for _ in range(r.randrange(1, 60)))


# ---------------------------------------------------------------- scenario mixes
FOREIGN = [0, 2, 3, 0x011, 0x081, 0x101, 0x801, 0xFFF]
def rcfg(r, **kw):
    u = r.choice([1, 7, 1000, 1000, 33333, 500000])
    c = {"rc": r.choice([1, 2, 3, 3, 4, 5, 7]), "rm": r.choice([1, 2, 3, 16, 16]), "cap": None, "t5": None, "max5": r.choice([0, 1, 2, 4]),
         "rto0": u * r.choice([1, 1, 2, 3]), "hdur": r.choice([None, None, u * r.choice([2, 5, 20])]), "allow300": r.random() < 0.3}
    if c["rc"] > 1 and r.random() < 0.35:
        c["cap"] = u * r.choice([1, 2, 3, 5, 9])
    if r.random() < 0.5:
        c["t5"] = u * r.choice([1, 1, 2, 3, 5, 11])
    c.update(kw)
    c["_u"] = u
    return c


def hd(c):
    """With hdur None the library default (10 minutes of the settings) stays; sessions never exceed it in the model only if stated."""
    return c


def mk(drv, r, c, **kw):
    c = dict(c)
    u = c.pop("_u", 1000)
    s = Session(drv, r, c, **kw)
    s.u = u
    return s


def poll_some(s, r):
    """Poll once or several times, early, at, or late relative to the announced sleep."""
    e = s.next()
    while e["k"] in ("send", "ok", "fail") and r.random() < 0.8:
        e = s.next()
    return e


def advance(s, r, e=None):
    if e is not None and e["k"] == "sleep" and e["d"] > 0 and r.random() < 0.7:
        d = e["d"]
        k = r.random()
        s.tick(d if k < 0.5 else d - 1 if k < 0.6 else d + 1 if k < 0.7 else r.randrange(0, d + 1) if k < 0.85 else d * r.randrange(1, 4))
    else:
        s.tick(r.choice([0, 0, 1, s.u // 2, s.u, 2 * s.u]))


def generic(s, r, n, kinds, mis, pcreate=0.15, presp=0.35, auths=("",), paths=(0,), maxlive=4, late=True):
    done = []
    e = None
    for _ in range(n):
        x = r.random()
        p = r.choice(paths)
        if (not s.tx or x < pcreate) and len(s.tx) < maxlive and s.can_create(p):
            s.create(p, r.choice(auths))
            if r.random() < 0.85:
                e = poll_some(s, r)
        elif x < pcreate + presp and (s.tx or done):
            if done and r.random() < 0.15:
                s.respond(None, r.choice(kinds), mi=r.choice(mis), tid=r.choice(done))
            elif s.tx:
                h = r.choice(sorted(s.tx))
                t = s.tx[h]
                if t["tid"] is not None:
                    if t["tid"] not in done:
                        done.append(t["tid"])
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        s.respond(h, r.choice(kinds), mi=r.choice(mis), method=1 if r.random() < 0.96 else r.choice(FOREIGN))
        else:
            e = poll_some(s, r)
            if r.random() < 0.75:
                advance(s, r, e)
        if s.now > 400_000_000:
            break


def crowd(s, r, n):
    """Many transactions, alive together or one after another."""
    many = n <= 70 and r.random() < 0.5
    for k in range(n):
        p = r.randrange(len(PATHS))
        if not s.can_create(p):
            break
        s.create(p, r.choice(["", "", "A"]))
        if many:
            if r.random() < 0.1:
                s.tick(r.choice([0, 1, s.u]))
                poll_some(s, r)
        else:
            s.drain()
        if not many or r.random() < 0.3:
            h = r.choice(sorted(s.tx)) if s.tx else None
            if h is not None:
                s.respond(h, r.choice(["ok", "ok", "400", "500", "noaddr"]))
            if r.random() < 0.3:
                s.tick(r.choice([1, s.u, 3 * s.u]))
                poll_some(s, r)
    e = s.drain()
    for _ in range(6):
        for h in sorted(s.tx):
            if r.random() < 0.15:
                s.respond(h, r.choice(["ok", "400"]))
        e = s.drain()
        if e["k"] != "sleep":
            break
        s.tick(e["d"] * r.choice([1, 1, 2]))


COUNTS = [255, 256, 256, 257, 258, 300]
def deep(drv, r, prop):
    """Counters of one transaction beyond 2^8: sends, retransmissions before the answer, 5xx responses."""
    u = r.choice([1, 7, 1000])
    n = r.choice(COUNTS)
    c = {"rc": r.choice([257, 258, 300, 513]), "rm": r.choice([1, 2, 16, 257, 300]), "cap": u * r.choice([1, 2, 3]), "t5": None, "max5": 0,
         "rto0": u * r.choice([1, 2]), "hdur": None, "allow300": False}
    if prop == "C05":
        c.update(t5=u * r.choice([1, 2, 5]), max5=r.choice([255, 256, 257, 300]), rc=r.choice([1, 2, 7, 257]))
    s = Session(drv, r, c)
    s.u = u
    h = s.create(0, r.choice(["", "A"]))
    s.drain()
    k = 0
    for _ in range(2000):
        if h not in s.tx:
            break
        t = s.tx[h]
        if prop == "C06" and t["sends"] == n + 1:
            s.respond(h, "ok")
        elif prop == "C05" and r.random() < 0.9:
            s.respond(h, r.choice(["500", "500", "503"]) if "503" in Session.ERRS else "500")
            k += 1
        e = s.drain()
        if e["k"] == "sleep":
            s.tick(e["d"])
    if prop == "C06":
        # the first wait shows what was learned
        for _ in range(2):
            h = s.create(0, "")
            e = s.drain()
            if e["k"] == "sleep":
                s.tick(e["d"] // 2)
            s.respond(h, "ok")
            s.drain()
        s.create(0, "")
        for _ in range(4):
            e = s.drain()
            if e["k"] != "sleep":
                break
            s.tick(e["d"])
    return s


def throng(drv, r, n):
    """n transactions alive at once (nothing is polled to its end before all are created)."""
    u = 1000
    s = Session(drv, r, {"rc": 2, "rm": 2, "cap": None, "t5": None, "max5": 0, "rto0": u * 10, "hdur": None, "allow300": False})
    s.u = u
    for k in range(n):
        s.create(r.randrange(len(PATHS)), "")
        if r.random() < 0.5:
            s.tick(r.choice([1, 2, 3]))
        if r.random() < 0.3:
            s.next()
    s.drain(2 * n)
    for h in r.sample(sorted(s.tx), len(s.tx) // 2):
        s.respond(h, r.choice(["ok", "400"]))
        if r.random() < 0.2:
            s.next()
    s.drain(2 * n)
    s.follow(lim=6 * n)
    return s


def far(n):
    """More paths: addresses that differ in one byte each."""
    a, b = n % 97 + 1, n // 97 + 1
    return (f"0a{b:02x}00{a:02x}", V4[1]) if n % 3 == 0 else (V4[1], f"0a{b:02x}00{a:02x}") if n % 3 == 1 else ("20010db8" + "00" * 10 + f"{b:02x}{a:02x}", "20010db8" + "00" * 11 + "01")


def wide(drv, r, n):
    """Estimates of n paths kept at once: some from a sample, some from a backoff, all looked at again."""
    u = r.choice([10, 1000])
    s = Session(drv, r, {"rc": 4, "rm": 2, "cap": None, "t5": None, "max5": 0, "rto0": u * 100, "hdur": None, "allow300": False})
    s.u = u
    paths = list(range(100, 100 + n))

    def resent(h):
        for _ in range(400):
            e = s.drain()
            if e["k"] != "sleep" or h not in s.tx or s.tx[h]["sends"] > 1:
                break
            s.tick(e["d"])
    for p in paths:
        h = s.create(p, "")
        if r.random() < 0.5:
            resent(h)
        else:
            s.drain()
            s.tick(r.randrange(1, 90) * u)
        s.respond(h, "ok")
        s.drain()
    r.shuffle(paths)
    again = r.sample(paths, 40)
    for p in paths + again:
        if not s.can_create(p):
            break
        h = s.create(p, "")
        resent(h)                 # the first retransmission shows the estimate
        # an error says nothing about the path, an answer to a retransmission is a new backoff
        s.respond(h, "ok" if p in again else "400")
        s.drain()
    return s


def burn(s, n):
    """Very many transactions within the life of one: whatever counts them passes 2^16."""
    e = s.drain()
    r = s.send(f"burn {s.now} {n}")
    s.ev.append({"e": "burn", "t": s.now, "n": n, "wrong": r["wrong"]})


def mix_scaled(drv, r, i):
    """Hours, days and years: one unit of the specification's time is many microseconds.  At most one sample per
    path, of an even number of units, so that the smoothed values stay whole numbers of units."""
    scale = r.choice([10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6, 1 << 31, (1 << 32) + 1, 1 << 36, 1 << 44])
    default = r.random() < 0.25
    if default:
        scale = r.choice([125000, 250000, 500000])
    c = rcfg(r)
    c["_u"] = u = 4
    for k in ("cap", "t5", "hdur"):
        if c[k] is not None or k == "hdur":
            c[k] = u * r.choice([1, 2, 3, 5, 20])
    c["rto0"] = u * r.choice([1, 2, 3])
    c["rm"] = r.choice([1, 2, 16])
    s = mk(drv, r, {"_u": u} if default else c, default=default, scale=scale, base=r.choice([0, 10**15, (1 << 64) - 3 * scale, (1 << 63) - 5 * scale, r.getrandbits(64)]))
    lim = (1 << 61) // scale
    s.can_create = lambda p: s.now + s.bound(p) * 2 < lim
    sampled = set()
    e = None
    for _ in range(r.randrange(10, 60)):
        p = r.randrange(3)
        if s.now * 2 > lim:
            break
        if (not s.tx or r.random() < 0.2) and len(s.tx) < 4 and s.can_create(p):
            s.create(p, r.choice(["", "", "A"]))
            e = poll_some(s, r)
        elif s.tx and r.random() < 0.25:
            h = r.choice(sorted(s.tx))
            t = s.tx[h]
            if t["tid"] is None:
                continue
            kind = r.choice(["ok", "ok", "noaddr", "500", "500", "500", "400", "600", "300"])
            if kind in ("ok", "noaddr"):
                # the client may have processed a deadline whose effect was not returned yet: poll first
                e = s.drain()
                if h not in s.tx:
                    continue
                if t["sends"] <= 1:
                    if t["path"] in sampled or (s.now - t["created"]) % 2:
                        continue
                    sampled.add(t["path"])
            s.respond(h, kind)
        else:
            e = poll_some(s, r)
            advance(s, r, e)
            if r.random() < 0.15:
                # about as long as the history is kept
                s.tick(max(0, s.cfg["hdur"] - r.choice([0, 0, 1, 2, s.u, 40])))
    for p in range(3):
        if s.can_create(p):
            s.create(p, "")
    s.follow(late=0.1, until=lim)
    return s


def mix_c01(drv, r, i):
    c = rcfg(r)
    if i % 600 == 350:
        return throng(drv, r, 260)
    if i % 100 == 50:
        s = mk(drv, r, {**c, "rc": r.choice([2, 3]), "rm": 2})
        if i in (50, 450):
            for p in range(3):
                s.create(p, r.choice(["", "A"]))
            burn(s, r.choice([65531, 65536, 65535, 70000]) if i == 50 else 300)
            for p in range(3):
                s.create(p, "")
            s.drain()
            for h in sorted(s.tx):
                if r.random() < 0.7:
                    s.respond(h, r.choice(["ok", "400"]), mi="own")
            s.follow()
            return s
        crowd(s, r, r.choice([24, 40, 70, 140, 300]) if i < 1200 else r.choice([33, 66, 129, 257, 520]))
        s.follow(late=0.2)
        return s
    auths = ("",) if r.random() < 0.5 else ("", "A", "B")
    s = mk(drv, r, c)
    generic(s, r, r.randrange(10, 60), Session.SUCC + Session.ERRS + ["req", "junk"], ["own", "own", "own", "none", "bad"], auths=auths,
            paths=(0, 1), maxlive=r.choice([1, 2, 6]))
    s.follow(late=0.2)
    return s


def mix_c02(drv, r, i):
    if i % 400 == 150:
        return deep(drv, r, "C02")
    if i % 9 == 4:
        return mix_scaled(drv, r, i)
    if i % 8 == 0:
        s = Session(drv, r, {}, default=True)
        s.u = 500000
        c = {"rc": 7}
    else:
        c = rcfg(r, t5=None)
        if c["rc"] == 1:
            c["cap"] = None
        s = mk(drv, r, c)
    for p in r.sample(range(len(PATHS)), r.randrange(1, 5)):
        if not s.can_create(p):
            break
        s.create(p, r.choice(["", "A"]))
        if r.random() < 0.4:
            s.drain()
            s.tick(r.choice([0, 1, s.u, r.randrange(2 * s.u)]))
    mode = i % 4
    if mode == 0:
        s.follow()
    elif mode == 1:
        s.follow(late=0.5)
    else:
        for _ in range(60):
            e = poll_some(s, r)
            if e["k"] == "idle" or s.now > 400_000_000:
                break
            advance(s, r, e)
            if r.random() < 0.1 and s.tx:
                h = r.choice(sorted(s.tx))
                s.respond(h, r.choice(["req", "junk", "600"]))
        s.follow()
    return s


def mix_c03(drv, r, i):
    c = rcfg(r, allow300=bool(i & 1))
    s = mk(drv, r, c)
    ps = r.sample(range(len(PATHS)), 2)
    for k in range(r.randrange(1, 4)):
        s.create(r.choice(ps), r.choice(["A", "A", "B", "C", "D", "E", ""]))
        s.drain()
        s.tick(r.randrange(s.u + 1))
    for _ in range(r.randrange(4, 24)):
        if not s.tx:
            break
        h = r.choice(sorted(s.tx))
        t = s.tx[h]
        if t["tid"] is None:
            break
        k = r.randrange(15)
        kinds = Session.SUCC + Session.ERRS
        if k >= 13:
            # close to an earlier response
            if s.seen:
                d = r.choice(s.seen[-3:])
                live = [x["tid"] for x in s.tx.values() if x["tid"]]
                s.rawresp(W.near(r, d, s.seen, live))
        elif k == 0:
            tid = bytearray(t["tid"])
            tid[r.randrange(12)] ^= 1 << r.randrange(8)
            s.respond(h, r.choice(kinds), tid=bytes(tid))
        elif k == 1:
            s.respond(h, r.choice(kinds), mi="none")
        elif k == 2:
            s.respond(h, r.choice(kinds), mi="bad")
        elif k == 3:
            s.respond(h, r.choice(kinds), mi=r.choice([x for x in CREDS if x != t["auth"]]))
        elif k == 4:
            s.respond(h, r.choice(["req", "ind", "reqerr"]), mi=r.choice(["own", "none"]))
        elif k == 5:
            s.respond(h, "junk")
        elif k == 6:
            # one bit of a signed response flipped, without FINGERPRINT
            def flip(d):
                j = r.randrange(8 * len(d))
                b = bytearray(d)
                b[j // 8] ^= 1 << (j % 8)
                return bytes(b)
            s.respond(h, r.choice(kinds), fp=False, mutate=flip)
        elif k == 7:
            # second MESSAGE-INTEGRITY, valid for the whole message
            a = s.attrs_for("ok", t["tid"])
            b = W.hdr(W.SUCCESS, 1, t["tid"], 0) + b"".join(W.attr(*x) for x in a) + W.attr(W.MI, bytes(20))
            key = CREDS[t["auth"] or "A"][1]
            d2 = b + W.attr(W.MI, W.mac(key, b))
            s.rawresp(d2[:2] + struct.pack(">H", len(d2) - 20) + d2[4:])
        elif k == 8:
            s.respond(h, "300", mi=r.choice(["none", "bad", "own"]))
        elif k == 9:
            # truncated digest
            d = W.build(W.SUCCESS, 1, t["tid"], s.attrs_for("ok", t["tid"]))
            extra = W.attr(W.MI, bytes(r.choice([0, 16, 19, 24])))
            s.rawresp(d[:2] + struct.pack(">H", len(d) - 20 + len(extra)) + d[4:] + extra)
        elif k == 10:
            s.respond(h, r.choice(kinds), mi="own")
        elif k == 11:
            # a response of another method
            s.respond(h, r.choice(kinds), mi=r.choice(["own", "own", "none"]), method=r.choice(FOREIGN))
        else:
            s.respond(h, "500", mi=r.choice(["none", "bad"]))
        if r.random() < 0.5:
            e = poll_some(s, r)
            if r.random() < 0.4:
                advance(s, r, e)
    # the RTO history shows in a later transaction on the same paths
    for p in ps:
        if s.can_create(p):
            s.create(p, "")
    s.follow()
    return s


def mix_c04(drv, r, i):
    c = rcfg(r)
    s = mk(drv, r, c)
    kinds = Session.SUCC + Session.ERRS
    for j in range(r.randrange(2, 7)):
        p = r.randrange(len(PATHS))
        if not s.can_create(p):
            break
        s.create(p, r.choice(["", "", "A", "B"]))
        s.drain()
        for _ in range(r.choice([0, 0, 1, 2])):
            e = s.drain()
            if e["k"] == "sleep":
                s.tick(e["d"])
        s.tick(r.randrange(0, s.u + 1))
        if not s.tx:
            continue
        h = sorted(s.tx)[-1]
        kind = kinds[(i + j) % len(kinds)]
        s.respond(h, kind, mi="own")
        if r.random() < 0.3:
            s.respond(h, r.choice(kinds), mi="own")
        if r.random() < 0.3:
            s.tick(r.choice([0, 1, 5 * s.u]))
        s.drain()
    s.follow()
    return s


def mix_c05(drv, r, i):
    if i % 400 == 150:
        return deep(drv, r, "C05")
    if i % 9 == 4:
        return mix_scaled(drv, r, i)
    c = rcfg(r)
    if c["t5"] is None and r.random() < 0.8:
        c["t5"] = c["_u"] * r.choice([0, 1, 1, 2, 3, 7, 20])
    if r.random() < 0.5:
        c["max5"] = r.choice([1, 2, 3, 4])
    s = mk(drv, r, c)
    for _ in range(r.choice([1, 1, 2, 3])):
        p = r.randrange(3)
        if s.can_create(p):
            s.create(p, r.choice(["", "A"]))
        s.drain()
        s.tick(r.choice([0, 1, s.u // 2]))
    for _ in range(r.randrange(5, 40)):
        if not s.tx or s.now > 400_000_000:
            break
        h = r.choice(sorted(s.tx))
        x = r.random()
        if x < 0.45:
            s.respond(h, r.choice(["500", "500", "500", "500", "500alt", "600", "ok" if r.random() < 0.2 else "500", "500ucr" if r.random() < 0.1 else "500"]))
        else:
            e = poll_some(s, r)
            advance(s, r, e)
    s.follow(late=0.2)
    return s


def mix_c06(drv, r, i):
    if i % 200 == 150:
        return deep(drv, r, "C06")
    if i % 800 == 50:
        return wide(drv, r, [280, 130, 261, 66][i // 800 % 4])
    if i % 11 == 4:
        return mix_scaled(drv, r, i)
    u = r.choice([1, 3, 1000, 12345])
    c = {"rc": r.choice([3, 5, 7]), "rm": r.choice([2, 16]), "cap": r.choice([None, None, u * 40]), "t5": None, "max5": 0, "rto0": u * r.choice([1, 5, 100]),
         "hdur": r.choice([None, u * 10, u * 100, u * 1000]), "_u": u}
    if i % 10 == 0:
        s = Session(drv, r, {}, default=True)
        s.u = u = 100000
    else:
        s = mk(drv, r, c)
    long = i % 40 == 20     # many samples, many paths
    paths = r.sample(range(len(PATHS)), r.choice([1, 2, 3, 6]) if not long else r.choice([1, 2, 12, len(PATHS)]))
    for _ in range(r.randrange(4, 16) if not long else r.choice([40, 80])):
        p = r.choice(paths)
        if not s.can_create(p):
            break
        h = s.create(p, "")
        s.drain()
        k = r.random()
        if k < 0.55:      # answered before any retransmission
            e = s.next()
            d = e["d"] if e["k"] == "sleep" else 1
            # a zero sample gives a zero RTO; with several transactions the orders of their simultaneous
            # deadlines would be too many to enumerate
            s.tick(max(0 if len(paths) == 1 else 1, r.choice([0, 1, max(0, d - 1), r.randrange(d + 1), min(d, r.randrange(1, 30 * u + 2))])))
            s.respond(h, r.choice(["ok", "okmap", "ok", "ok", "noaddr"]))
        elif k < 0.9:     # answered after retransmissions
            for _ in range(r.choice([1, 1, 2, 3])):
                e = s.drain()
                if e["k"] == "sleep":
                    s.tick(e["d"])
            s.drain()
            if h in s.tx:
                s.respond(h, "ok")
        elif k < 0.95:    # no sample: error response or timeout
            s.respond(h, r.choice(["400", "okucr", "300"]))
        s.drain()
        if r.random() < 0.5:
            s.tick(r.choice([0, 1, u, 10 * u, 10 * u + 1, 100 * u, 1000 * u]))
    # expose the first wait of every path
    for p in paths:
        if s.can_create(p):
            s.create(p, "")
    for _ in range(2 * len(paths) + 4):
        e = s.drain()
        if e["k"] != "sleep" or e["d"] <= 0 or s.now > 500_000_000:
            break
        s.tick(e["d"])
    return s


RND = [[1, 2, 3], [1, 2, 4], [1, 3, 3], [0, 2, 3], [0x80000001, 2, 3], [1, 2, 3 | 0x80000000], [0, 0, 0], [2**32 - 1] * 3, [0x2112A442, 0, 0]]


def mix_c07(drv, r, i):
    s = None
    for k in range(r.randrange(1, 4)):
        fp = r.random() < 0.6
        c = rcfg(r, rc=r.choice([2, 3, 4]), cap=None)
        u = c.pop("_u")
        if s is None:
            s = Session(drv, r, c, fp=fp)
        else:
            s.new(c, fp=fp)
        s.u = u
        live_words = []
        for _ in range(r.randrange(1, 5)):
            auth = r.choice(["", "A", "B", "C", "D", "E", "F"])
            attrs = []
            if r.random() < 0.5:
                attrs.append("sw=" + r.randbytes(r.randrange(1, 14) if r.random() < 0.85 else r.choice([63, 64, 65, 127, 128, 255, 256, 257, 512, 763, 764, 1500])).hex())
            if not auth and r.random() < 0.3:
                attrs.append("user=" + r.randbytes(r.randrange(1, 9) if r.random() < 0.8 else r.choice([127, 128, 256, 509, 512, 513, 763, 1000])).hex())
            if r.random() < 0.4:
                attrs.append(f"prio={r.choice([0, 1, 255, 256, 2**31, 2**32 - 1, r.getrandbits(32)])}")
            if r.random() < 0.3:
                attrs.append("uc")
            if r.random() < 0.4:
                attrs.append(r.choice(["cling=", "cled="]) + f"{r.choice([0, 1, 2**63, r.getrandbits(64)]):016x}")
            r.shuffle(attrs)
            unknown = [(r.choice([0x0002, 0x0026, 0x7FFF, 0x8000, 0xFFFF, 0x8027, r.randrange(0x30, 0x8000)]),
                        bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 100])))) for _ in range(r.choice([0, 0, 1, 2, 3]) if r.random() < 0.95 else r.choice([9, 17, 40, 70, 300]))]
            p = r.randrange(4)
            if not s.can_create(p):
                break
            if live_words and r.random() < 0.35:
                # first draws collide with live transactions
                w = sum(r.sample(live_words, min(len(live_words), r.choice([1, 1, 2]))), []) + [r.getrandbits(32) for _ in range(6)]
                s.create(p, auth, attrs, unknown, w, expect_rnd=False)
            else:
                w = list(r.choice(RND)) if r.random() < 0.6 else [r.getrandbits(32) for _ in range(3)]
                if w in live_words:
                    w = [r.getrandbits(32) for _ in range(3)]
                s.create(p, auth, attrs, unknown, w)
                live_words.append(w)
            if r.random() < 0.5:
                s.drain()
        s.follow() if r.random() < 0.5 else s.drain()
    return s


def mix_c08(drv, r, i):
    if i % 1000 == 150:
        return throng(drv, r, 270)
    if i % 9 == 4:
        return mix_scaled(drv, r, i)
    c = rcfg(r)
    if i % 60 == 30:
        s = mk(drv, r, {**c, "rc": r.choice([1, 2, 3]), "rm": 2, "cap": None})
        crowd(s, r, r.choice([20, 33, 66]))
        s.follow(late=0.2)
        return s
    s = mk(drv, r, c)
    n = r.choice([3, 6, 12])
    generic(s, r, r.randrange(20, 80), ["ok", "500", "500", "400", "noaddr", "600"], ["own"], pcreate=0.3, presp=0.15, auths=("",),
            paths=tuple(range(4)), maxlive=n)
    if r.random() < 0.5:
        # many deadlines passed at once
        s.tick(r.choice([s.u, 10 * s.u, 100 * s.u]))
    s.follow(late=0.1)
    return s


MIX = {f"C0{n}": globals()[f"mix_c0{n}"] for n in range(1, 9)}


def replay_stim(drv, r, g, unit):
    """One stimulus sequence generated by TLC from MCGen."""
    scale = 1
    if not any(st[0] == "resp" for st in g["s"]):
        scale = r.choice([1, 1, 1, 10**6, 3600 * 10**6, (1 << 31) + 1, 1 << 40])
        unit = 1 if scale > 1 else unit
    c = g["cfg"]
    sc = lambda x: None if not x else x[0] * unit
    s = Session(drv, r, {"rc": c["rc"], "rm": c["rm"], "cap": sc(c["cap"]), "t5": sc(c["t5"]), "max5": c["max5"], "rto0": c["rto0"] * unit,
                         "hdur": sc(c["hdur"]), "allow300": c["allow300"]}, scale=scale)
    s.u = unit
    hs, tids = [], {}
    P = {"p": 0, "q": 1}
    for st in g["s"]:
        if st[0] == "create":
            hs.append(s.create(P[st[1]], st[2]))
        elif st[0] == "tick":
            s.tick(st[1] * unit)
        elif st[0] == "next":
            s.next()
            for h, t in s.tx.items():
                if t["tid"]:
                    tids[h] = t["tid"]
        elif st[0] == "resp":
            h = hs[st[1]]
            if h not in tids:
                # the response precedes the poll that returns the first SendData: the id is drawn
                # from the scripted random device
                tids[h] = predict(s, h)
            if tids[h] is None:
                continue
            s.respond(h, st[2], mi=st[3] if st[3] != "none" else "none", tid=tids[h], decorate=False)
    s.follow(lim=120)
    return s


def predict(s, h):
    """Transaction id of a transaction whose first SendData was not returned yet."""
    t = s.tx.get(h)
    if t is None:
        return None
    if not t["e"]["rnd"]:
        return None
    w = t["e"]["rnd"].split(",")[:3]
    return b"".join(struct.pack("<I", int(x)) for x in w)


def _worker(args):
    exe, prop, jobs, env = args
    drv = Drv(exe, env)
    out = []
    for kind, seed, payload in jobs:
        r = random.Random(seed)
        try:
            if kind in ("bmix", "bstim"):
                from . import binding
                s = binding.mix(drv, r, payload[1]) if kind == "bmix" else binding.replay(drv, r, payload[0], payload[1])
            elif kind == "mix":
                s = MIX[payload[0]](drv, r, payload[1])
            else:
                s = replay_stim(drv, r, payload[0], payload[1])
            for t in s.tx.values():
                pass
            out.append((s.ev, s.script, s.said))
        except Crash as e:
            return out, (str(e), kind, seed)
    drv.stop()
    return out, None


def sessions(ctx, exe, prop, jobs):
    """Run jobs in parallel; returns (behaviours, scripts)."""
    n = core.NPROC
    with multiprocessing.get_context("fork").Pool(n) as p:
        envs = [None] * 2 + ctx.locales() + [None] * n
        res = p.map(_worker, [(exe, prop, jobs[k::n], envs[k]) for k in range(n)])
    beh, scr, ans = [], [], []
    for out, crash in res:
        for e, s, a in out:
            beh.append(e)
            scr.append(s)
            ans.append(a)
        if crash:
            rep = ctx.write_replay("crash", {"what": "client crashed or hung", "job": str(crash[1:]), "detail": json.loads(crash[0])})
            d = json.loads(crash[0])
            raise Violation(f"client driver: real code crashed/hung rc={d['rc']}: {d['stderr'][:400]}", rep)
    together(ctx, exe, scr, ans)
    return beh, scr


def together(ctx, exe, scr, ans, threads=6):
    """Some of the histories once more, in several threads of one process at the same time: separate clients (and servers)
    do not know of each other, so each must answer as it did on its own (which is what the specification judges)."""
    pick = ctx.rng.sample(range(len(scr)), min(len(scr), ctx.scale(480, 6000)))
    groups = [[pick[k::2 * threads] for k in range(h, 2 * threads, 2)] for h in (0, 1)]
    outs = ctx.run_many(exe, ["%%\n".join("".join(c + "\n" for i in g for c in scr[i]) for g in gs) for gs in groups], timeout=400,
                        what="clients in threads", modes=[(("threads",), None)] * len(groups))
    for gs, o in zip(groups, outs):
        it = iter(o)
        for g in gs:
            for i in g:
                for n, a in enumerate(ans[i]):
                    b = next(it, None)
                    if b is None:
                        raise core.CheckError("clients in threads: the driver answered too little")
                    if json.loads(b) != a:
                        rep = ctx.write_replay("threads", {"what": "a client answers otherwise while clients in other threads are used", "history": scr[i][:n + 1],
                                                           "alone": a, "together": json.loads(b)})
                        raise Violation(f"clients in threads: {scr[i][n][:60]!r} answered {b[:200]} instead of {json.dumps(a)[:200]}", rep)
    ctx.notes["concurrent_clients"] = f"{len(pick)} histories again, in {threads} threads of 2 processes"


def dedupe(gens):
    """Drop stimulus sequences that are prefixes of others."""
    keyed = sorted({json.dumps([g["cfg"], g["s"]], sort_keys=True)[:-2] for g in gens})
    keep = [k for i, k in enumerate(keyed) if i + 1 == len(keyed) or not keyed[i + 1].startswith(k)]
    return [dict(zip(("cfg", "s"), json.loads(k + "]]"))) for k in keep]


# property -> (model configurations, generators (cfg, simulate?, quick sample), random sessions quick/thorough)
PLAN = {
    "C01": (["MC_two.cfg"], [("Gen_two.cfg", None, 1500), ("Gen_resp.cfg", None, 1500)], 1200),
    "C02": (["MC_two.cfg"], [("Gen_time.cfg", None, 4000)], 1600),
    "C03": (["MC_auth.cfg"], [("Gen_auth.cfg", None, 4000)], 2000),
    "C04": (["MC_one.cfg"], [("Gen_resp.cfg", None, 3000)], 2000),
    "C05": (["MC_one.cfg"], [("Gen_5xx.cfg", None, 4000)], 1800),
    "C06": (["MC_two.cfg"], [("Gen_hist.cfg", (4000, 26), 2500)], 1600),
    "C07": (["MC_auth.cfg"], [], 2500),
    "C08": (["MC_two.cfg"], [("Gen_two.cfg", None, 1500), ("Gen_sim.cfg", (250, 44), 1500)], 1000),
}


def run(ctx):
    prop = ctx.prop
    exe = ctx.build("client_driver.cpp")
    models, gens, nmix = PLAN[prop]
    mod = "client/ClientTrace.tla"
    jobs = [("mix", f"{ctx.seed}/{prop}/{i}", (prop, i)) for i in range(ctx.scale(nmix, 12 * nmix))]
    for cfg, sim, lim in gens:
        args = () if not sim else ("-simulate", f"num={ctx.scale(sim[0], 10 * sim[0])}", "-depth", str(sim[1]), "-seed", str(ctx.seed))
        g = ctx.model_emit("client/MCGen.tla", cfg, args=args, workers=core.NPROC if not sim else 1)
        g = dedupe(g)
        k = min(len(g), ctx.scale(lim, 20 * lim))
        pick = g if k == len(g) else ctx.rng.sample(g, k)
        ctx.log(f"{cfg}: {len(g)} maximal behaviours of the model, {len(pick)} replayed")
        jobs += [("stim", f"{ctx.seed}/{prop}/{cfg}/{i}", (x, ctx.rng.choice([1, 10, 1000, 250000]))) for i, x in enumerate(pick)]
    beh, scr = sessions(ctx, exe, prop, jobs)
    ctx.validate(mod, beh, "ClientTraceWire.cfg" if prop == "C07" else "ClientTrace.cfg", what="client histories", scripts=scr)
    if prop == "C07":
        # the same content must hold along every other mix
        pass
    if prop in ("C01", "C08"):
        # liveness: with fair polling at the announced deadlines every transaction ends
        models = models + [ctx.scale("MC_live_one.cfg", "MC_live.cfg")]
    for cfg in models:
        ctx.model_check("client/MCClientUDP.tla", cfg)
    ctx.notes["scenario_mix"] = f"{len(beh)} histories ({len(jobs)} scenarios)"
    ctx.assumptions += ["histories stay within 2^31 units of their starting time, a unit being 1 microsecond up to several seconds (the start ranges over the 64-bit clock, wrap included)",
                        "SHA-1/HMAC/CRC-32 of stimuli come from Python's hashlib/zlib"]
