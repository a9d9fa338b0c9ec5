"""C27: the intrusive list against spec/list."""
from . import core
from .stun import run_steps

RESETS = [("R", {}), ("R e", {})]
NL, NE, BIG = 5, 9, 60


def step(o):
    return (" ".join(map(str, o)), {"o": list(o)})


class Gen:
    """Random histories; keeps the same abstract state as IList to know what may be done."""
    def __init__(self, r, links):
        self.r, self.links = r, links
        self.lists, self.alive, self.out, self.ne = {}, set(), [], NE

    def unlink(self, i, x):
        for l in self.lists.values():
            if l[0] == i and x in l[1]:
                l[1].remove(x)

    def do(self, o):
        self.out.append(o)
        k, a = o[0], o[1:]
        L = self.lists
        if k == "NL": L[a[0]] = [a[1], []]
        elif k == "DL": del L[a[0]]
        elif k == "ML": L[a[0]] = [L[a[1]][0], L[a[1]][1]]; L[a[1]] = [L[a[1]][0], []]
        elif k == "AL" and a[0] != a[1]: L[a[0]][1] = L[a[1]][1]; L[a[1]][1] = []
        elif k == "NE": self.alive.add(a[0])
        elif k == "DE":
            self.alive.discard(a[0])
            self.unlink(1, a[0]); self.unlink(2, a[0])
        elif k == "ME":
            self.alive.add(a[0])
            for l in L.values():
                l[1] = [a[0] if y == a[1] else y for y in l[1]]
        elif k in ("pb", "pf"):
            self.unlink(L[a[0]][0], a[1])
            L[a[0]][1].insert(0 if k == "pf" else len(L[a[0]][1]), a[1])
        elif k == "PF": L[a[0]][1].pop(0)
        elif k == "PB": L[a[0]][1].pop()
        elif k == "CL": L[a[0]][1] = []
        elif k == "RM": self.unlink(a[0], a[1])

    def rand(self):
        r, L = self.r, self.lists
        k = r.choice(["pb"] * 6 + ["pf"] * 6 + ["PF", "PB", "PF", "PB", "RM", "RM", "RM", "ME", "ME", "DE", "NE", "NE", "AL", "AL", "ML", "NL", "DL", "CL"])
        dead = [i for i in range(1, NL + 1) if i not in L]
        gone = [i for i in range(1, self.ne + 1) if i not in self.alive]
        live, al = sorted(L), sorted(self.alive)
        if k in ("pb", "pf") and live and al: self.do((k, r.choice(live), r.choice(al)))
        elif k in ("PF", "PB"):
            c = [i for i in live if L[i][1]]
            if c: self.do((k, r.choice(c)))
        elif k in ("DL", "CL") and len(live) > (1 if k == "DL" else 0): self.do((k, r.choice(live)))
        elif k == "NL" and dead: self.do((k, r.choice(dead), r.choice(self.links)))
        elif k == "ML" and dead and live: self.do((k, r.choice(dead), r.choice(live)))
        elif k == "AL" and live:
            d = r.choice(live)
            self.do((k, d, r.choice([i for i in live if L[i][0] == L[d][0]])))
        elif k == "NE" and gone: self.do((k, r.choice(gone)))
        elif k == "DE" and len(al) > 2: self.do((k, r.choice(al)))
        elif k == "ME" and gone and al: self.do((k, r.choice(gone), r.choice(al)))
        elif k == "RM" and al: self.do((k, r.choice(self.links), r.choice(al)))

    def drain(self):
        for k in sorted(self.lists):
            while self.lists[k][1]:
                self.do((self.r.choice(["PF", "PB"]), k))


def play(r, ops, links=(1,)):
    g = Gen(r, links)
    for o in ops:
        g.do(tuple(o))
    g.drain()
    return g.out


def run_c27(ctx):
    ctx.assumptions += ["the craftpp dependency (not in the repository) is replaced by the stand-in in harness/craftpp", "elements are pushed to, and lists assigned from, lists of the same link member; nothing is popped from an empty list"]
    r = ctx.rng
    exe = ctx.build("list_driver.cpp", lib=False)
    ctx.model_check("list/MCList.tla", ctx.scale("MCListBig.cfg", "MCListBig.cfg"))
    hs = sorted(ctx.model_emit("list/MCList.tla", "MCList.cfg", workers=1))
    if len(hs) > ctx.scale(3000, 10**9):
        hs = r.sample(hs, 3000)
    beh = [[r.choice(RESETS)] + [step(o) for o in play(r, h)] for h in hs]
    for _ in range(ctx.scale(400, 6000)):
        g = Gen(r, r.choice([(1,), (1, 2)]))
        g.do(("NL", 1, 1))
        g.ne = BIG if r.random() < 0.04 else NE
        for i in range(1, r.choice([2, 4, NE] if g.ne == NE else [BIG]) + 1):
            g.do(("NE", i))
        for _ in range(r.choice([10, 40, 80]) if g.ne == NE else 250):
            g.rand()
        if r.random() < 0.8:
            g.drain()
        beh.append([r.choice(RESETS)] + [step(o) for o in g.out])
    ev = run_steps(ctx, exe, beh, "intrusive lists")
    ctx.validate("list/ListTrace.tla", ev, what="intrusive lists", scripts=[[c for c, _ in b] for b in beh])
