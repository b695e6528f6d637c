"""S05: class-1 I/O of the server (spec/IoServer.tla)."""

AREA = "io"
GEN = """SPECIFICATION Spec
CONSTANTS
    Cs = {"c1", "c2", "c3"}
    Ps = {1, 2}
    Ss = {1, 2}
    Steps = 12
    Careless = ""
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
RPIS = [1000, 2000, 3000, 5000, 10000, 20000]


class Io:
    """A history: what is open is followed, so that what is done makes sense."""

    def __init__(self, rng, kinds):
        self.rng, self.kinds = rng, ["rec"] + kinds
        paths = [[1, k] for k in range(6)] + [[2, 0], [2, 1], [18, 2, 49, 50], [18, 3, 49, 50, 51, 0], [1, 0, 2, 1]]
        rng.shuffle(paths)
        self.scn = dict(Provs=self.kinds, Paths=paths[:len(self.kinds)], Ops=[], Slow=1)
        self.k, self.open, self.old, self.subs, self.nsub, self.mute = 0, [], [], [], 0, set()
        self.waiting = False
        self.op("open", C="mark", P=0, S=0, To=99, Rpi=10000, Orpi=10000, Serial=5)

    def op(self, do, **kw):
        self.scn["Ops"].append(dict(Do=do, **kw))

    def opn(self, p=None, rpi=None, to=None, fail=False):
        rng = self.rng
        self.k += 1
        p = rng.randrange(len(self.kinds)) if p is None else p
        c = dict(C="c%d" % self.k, P=p, S=rng.randrange(4), To=to or self.k, Rpi=rng.choice(RPIS) if rpi is None else rpi, Orpi=rng.choice([1000, 5000, 2000000]),
                 Serial=10 * self.k, Extra=rng.choice([0, 0, 0, 777, 1, 0x40000001 + self.k]))
        self.op("open", **c)
        if not fail:
            self.open.append(c)
        return c

    def close(self, c=None):
        c = c or self.rng.choice(self.open)
        self.open.remove(c)
        self.old.append(c)
        self.op("close", C=c["C"], S=c["S"])

    def outs(self, c, n):
        bad = ["long", "short", "nodata", "one", "three", "type", "addr", "cut"]
        for _ in range(n):
            kind = self.rng.choice(["ok"] * 6 + ["idle", "idle"] + bad)
            self.op("out", C=c["C"], Kind=kind, Extra=self.rng.choice([1, 2, 3, 7, 16, 40]))

    def step(self):
        rng = self.rng
        w = rng.random()
        any_ = rng.choice(self.open) if self.open else None
        if w < 0.14 and len(self.open) < 6:
            if rng.random() < 0.12:
                self.opn(p=-1, fail=True)
            elif rng.random() < 0.1:
                self.opn(rpi=0, fail=True)
            else:
                self.opn()
        elif w < 0.22 and any_:
            self.close()
            if rng.random() < 0.6:
                self.op("drain", Ms=rng.choice([0, 30]))
        elif w < 0.27 and any_:
            if rng.random() < 0.5:
                self.op("close", C=any_["C"], S=any_["S"], N=rng.choice([1, 2]), Extra=0)
            else:
                self.op("close", C=any_["C"], S=any_["S"], N=0, Extra=500)
        elif w < 0.30 and self.old:
            c = rng.choice(self.old)
            self.op("close", C=c["C"], S=c["S"])
        elif w < 0.42:
            for _ in range(rng.choice([1, 1, 3])):
                self.op("set", P=rng.randrange(len(self.kinds)), Kind=rng.choice(["", "place"]))
        elif w < 0.50:
            p = rng.randrange(len(self.kinds))
            self.op("storm", P=p, N=0, Ms=rng.choice([10, 40]), Kind=rng.choice(["", "place"]))
        elif w < 0.60 and any_:
            self.op("settle")
        elif w < 0.63 and any_:
            self.op("rate", Ms=rng.choice([100, 150]))
        elif w < 0.65:
            rec = [p for p, k in enumerate(self.kinds) if k == "rec" and p > 0]
            if rec:
                p = rng.choice(rec)
                self.mute ^= {p}
                self.op("err", P=p, N=1 if p in self.mute else 0)
                if rng.random() < 0.7:
                    self.op("sleep", Ms=rng.choice([5, 25]))
        elif w < 0.83 and any_:
            self.outs(any_, rng.choice([1, 1, 2, 5]))
            if rng.random() < 0.7:
                self.op("sync")
                self.op("image", P=any_["P"])
        elif w < 0.86 and self.old:
            self.outs(rng.choice(self.old), 1)
            self.op("sync")
        elif w < 0.88:
            self.op("out", C="?", Kind="ok", Extra=rng.randrange(99))
        elif w < 0.92 and any_ and self.kinds[any_["P"]] == "struct":
            self.op("watch", C=any_["C"], N=80)
            self.op("sync")
            self.op("image", P=any_["P"])
        else:
            ch = [p for p, k in enumerate(self.kinds) if k == "chan"]
            if ch and (not self.subs or rng.random() < 0.5):
                self.nsub += 1
                parked = rng.random() < 0.3
                self.op("sync")
                self.op("sub", Sub=self.nsub, P=rng.choice(ch), N=1 if parked else 0)
                if not parked:
                    self.subs.append(self.nsub)
            elif self.subs:
                s = rng.choice(self.subs)
                self.subs.remove(s)
                self.op("sync")
                self.op("park", Sub=s)

    def unmute(self):
        for p in sorted(self.mute):
            self.op("err", P=p, N=0)
        self.mute = set()

    def end(self):
        self.unmute()
        for p in range(len(self.kinds)):
            self.op("set", P=p)
        if self.open:
            self.op("settle")
        for c in list(self.open):
            self.outs(c, 1)
            self.op("sync")
            self.op("image", P=c["P"])
        for c in list(self.open):
            self.close(c)
        self.op("drain", Ms=30)
        self.op("sync")
        return self.scn


def mixed(rng, n):
    h = Io(rng, [rng.choice(["struct", "struct", "chan", "rec"]) for _ in range(rng.choice([1, 2, 3, 4]))])
    for _ in range(rng.choice([1, 2, 4])):
        h.opn()
    for _ in range(n):
        h.step()
    return h.end()


def same(rng):
    """Several connections to one provider, opened and closed in any order."""
    kind = rng.choice(["struct", "chan", "rec"])
    h = Io(rng, [kind, "struct"])
    for _ in range(10):
        if len(h.open) < 2 or (rng.random() < 0.5 and len(h.open) < 5):
            h.opn(p=1)
        else:
            h.close()
            h.op("drain", Ms=10)
        h.op("set", P=1, Kind=rng.choice(["", "place"]))
        h.op("settle") if h.open else None
        for c in h.open:
            h.op("out", C=c["C"], Kind="ok")
            h.op("sync")
            h.op("image", P=1)
    return h.end()


def pauses(rng):
    """A provider has nothing to send for a while, and goes on later."""
    h = Io(rng, ["rec", "struct"])
    for p in rng.choice([[1], [1, 2], [1, 1]]):
        h.opn(p=p, rpi=rng.choice(RPIS[:4]))
    for _ in range(rng.choice([1, 2])):
        h.op("settle")
        h.op("err", P=1, N=1)
        h.mute = {1}
        h.op("sleep", Ms=rng.choice([5, 25]))
        h.op("set", P=rng.choice([1, 2]))
        h.op("settle")
        c = rng.choice(h.open)
        h.op("out", C=c["C"], Kind="ok")
        h.op("sync")
        h.unmute()
        h.op("set", P=1)
    return h.end()


def subscribers(rng):
    """Some of the subscribers are busy: the others get everything."""
    h = Io(rng, ["chan"])
    c = h.opn(p=1)
    n = rng.choice([2, 3, 4])
    for s in range(1, n + 1):
        h.op("sub", Sub=s, P=1, N=1 if rng.random() < 0.4 else 0)
    for _ in range(10):
        h.outs(c, rng.choice([1, 1, 1, 3]))
        h.op("sync")
    return h.end()


def watching(rng):
    """What goes in and comes out is looked at and replaced while it flows."""
    h = Io(rng, ["struct"])
    c = h.opn(p=1)
    for _ in range(3):
        h.op("watch", C=c["C"], N=rng.choice([20, 40]))
        h.op("storm", P=1, N=20, Kind=rng.choice(["", "place"]))
    return h.end()


def from_history(rng, hist):
    """What the environment does in a behaviour of IoServerMC."""
    h = Io(rng, ["struct", "chan"])
    h.op("sub", Sub=1, P=2, N=0)
    h.op("sub", Sub=2, P=2, N=1)
    by = {}
    for e in hist:
        d = e["do"]
        if d == "open":
            by[e["c"]] = h.opn(p=e["p"])
        elif d == "close":
            h.close(by[e["c"]])
        elif d == "drain":
            h.op("drain", Ms=10)
        elif d == "set":
            h.op("set", P=e["p"], Kind=rng.choice(["", "place"]))
        elif d == "settle":
            h.op("settle")
        elif d == "out":
            h.op("out", C=by[e["c"]]["C"], Kind=rng.choice(["short", "cut", "one", "nodata"]) if e["cut"] else "ok", Extra=rng.randrange(1, 40))
        elif d == "sync":
            h.op("sync")
            h.op("image", P=1)
    return h.end()


def relax(s):
    s = dict(s)
    s["Slow"] = 4
    return s


def check_s05(ctx):
    rng = ctx.rng
    ctx.assumptions.append("packets between processes of one machine are neither lost nor reordered")
    ctx.model_check("IoServerMC", "IoServerMC.cfg")
    L = [mixed(rng, rng.choice([5, 12, 20])) for _ in range(ctx.pick(140, 900))]
    L += [same(rng) for _ in range(ctx.pick(50, 300))]
    L += [subscribers(rng) for _ in range(ctx.pick(20, 100))] + [pauses(rng) for _ in range(ctx.pick(16, 80))]
    H = ctx.generate("IoServerMC", GEN, simulate=ctx.pick(80, 600), depth=60)
    L += [from_history(rng, x) for x in H[:ctx.pick(80, 600)]]
    ctx.conform(AREA, "IoServerTrace", L, relax=relax, procs=8, par=1)
    # with the race detector: accesses of the sender, the receiver and the application that are not ordered are events too
    W = [watching(rng) for _ in range(ctx.pick(16, 100))]
    W += [mixed(rng, 8) for _ in range(ctx.pick(24, 200))] + [same(rng) for _ in range(ctx.pick(16, 100))] + [subscribers(rng) for _ in range(ctx.pick(8, 60))]
    ctx.conform(AREA, "IoServerTrace", W, relax=relax, procs=8, par=1, race=True)
