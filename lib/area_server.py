"""S01-S04, S06, S07: the server, driven by raw originators."""
TYPES = ["BYTE", "SINT", "INT", "UINT", "DINT", "UDINT", "LINT", "LWORD", "REAL", "LREAL"]
LOCAL = [1, 0]
IDENT = dict(nums=[0x1776, 14, 1, 0x1412, 0x3060], serial=12345, name="Gologix")


def tag(n, t="DINT", k=0, seed=1, small=False):
    return dict(n=n, t=t, arr=k > 0, k=max(k, 1), seed=seed, small=small)


def store(tags, path=LOCAL, kind="map"):
    return dict(path=path, kind=kind, tags=tags)


def op(f, tag="", n=1, idx=-1, **kw):
    d = dict(f=f, svc=0, tag=tag, idx=idx, n=n, eo=0, t="DINT", seed=0, small=False, cls=0, inst=0, attr=0, start=0)
    d.update(kw)
    return d


def read(t, n=1, idx=-1, **kw):
    return op("read", t, n, idx, **kw)


def write(t, typ="DINT", n=1, idx=-1, seed=0, **kw):
    return op("write", t, n, idx, t=typ, seed=seed, **kw)


def req(k, **kw):
    d = dict(k=k, cmd=0, via="", conn="", path=[], ops=[], multi=False, large=False, propose=0, to=0, serial=0, vendor=0, orig=0, bad="", cut=0)
    d.update(kw)
    return d


def svc(via, *ops, conn="", path=LOCAL, **kw):
    return req("svc", via=via, conn=conn, path=path if via == "u" else LOCAL, ops=list(ops), multi=len(ops) > 1, **kw)


def multi(conn, *ops, **kw):
    return req("svc", via="c", conn=conn, path=LOCAL, ops=list(ops), multi=True, **kw)


def bad(base, how, cut=0):
    return dict(base, k="bad", bad=how, cut=cut)


def opn(conn, path=LOCAL, **kw):
    d = dict(to=100 + sum(map(ord, conn)), serial=sum(map(ord, conn)), vendor=0x9009, orig=42)
    d.update(kw)
    return req("open", conn=conn, path=path, **d)


def cls(o):
    """The close request for an open."""
    return dict(o, k="close")


REG = req("reg")


def part(s, *reqs, burst=1):
    return dict(s=s, burst=burst, reqs=list(reqs), junk=[])


def scn(stores, phases, ident=IDENT):
    names, spelt = set(), {}
    for s in stores:
        for t in s["tags"]:                         # one spelling of a name, so that one order holds for all providers
            t["n"] = spelt.get(t["n"].lower(), t["n"])
        names |= {t["n"].lower() for t in s["tags"]}
        spelt.update({t["n"].lower(): t["n"] for t in s["tags"]})
    for ph in phases:
        for p in ph:
            for r in p["reqs"]:
                for o in r["ops"]:
                    if o["tag"]:
                        names.add(o["tag"].lower())
    orders = [sorted(names, key=lambda x: x.encode())]
    by_code = sorted(names, key=lambda x: spelt.get(x, x).encode())
    if by_code != orders[0]:
        orders.append(by_code)
    return dict(stores=stores, orders=orders, ident=ident, phases=phases)


# --------------------------------------------------------------------------------------------------- scenarios

AREA, TRACE = "server", "EipServerTrace"
CONVERT = ["BYTE", "SINT", "INT", "UINT", "DINT", "UDINT", "LINT", "LWORD", "REAL", "LREAL"]
PATHS = [[1, 0], [1, 1], [2, 0], [1, 77], [3, 1], [1, 0, 2, 7], [1, 0, 2, 9, 1, 1], [0x12, 5, 49, 48, 46, 48, 49, 0], [1, 3, 0x12, 4, 49, 46, 49, 46]]


def tags_of(rng, n, arrays=True, names=None):
    """n tags of all kinds of types."""
    L = []
    for i in range(n):
        t = rng.choice(TYPES + ["STRING", "BOOL"])
        k = rng.choice([0, 0, 1, 2, 3, 5, 8]) if arrays and t != "BOOL" else 0
        nm = names[i] if names else "%s%d" % (rng.choice("abmtxz"), i)
        L.append(tag(nm, t, k, rng.randrange(1, 50), rng.random() < 0.4))
    return L


class Table:
    """What the generator remembers of a store, to aim its requests."""

    def __init__(self, tags):
        self.tags = {t["n"]: (t["t"], t["k"] if t["arr"] else 0) for t in tags}

    def name(self, rng):
        return rng.choice(sorted(self.tags))


def spell(rng, n):
    return rng.choice([n, n, n.upper(), n.capitalize()])


def some_read(rng, T, frag=True):
    n = T.name(rng)
    t, k = T.tags[n]
    if rng.random() < 0.08:
        return read(rng.choice(["nope", n + "q", "n.o.p"]))
    nm = spell(rng, n)
    if k == 0:
        return read(nm, idx=rng.choice([-1] * 8 + [0, 1]))
    idx = rng.choice([-1, -1, 0, k - 1, k, rng.randrange(k)])
    rest = k - max(idx, 0)
    cnt = rng.choice([1, rest, rest, rng.randrange(1, k + 1), rest + 1, rest]) if rng.random() < 0.95 else 0
    wide = rng.choice([0, 0, 2, 4])
    if frag and rng.random() < 0.25:
        return op("frag", nm, max(cnt, 1), idx, t=t, eo=rng.randrange(0, max(cnt, 1)), wide=wide)
    return read(nm, cnt, idx, wide=wide)


def some_write(rng, T, convert=0.2, grow=0.1):
    x = rng.random()
    if x < grow:
        n = rng.choice(["new%d" % rng.randrange(3), "p.q%d" % rng.randrange(2)])
        if n not in T.tags:
            t = rng.choice(TYPES + ["STRING"])
            k = rng.choice([1, 1, 2, 4])
            T.tags[n] = (t, k if k > 1 else 0)
            return write(spell(rng, n), t, k, seed=rng.randrange(1, 99), small=rng.random() < 0.3)
    n = T.name(rng)
    t, k = T.tags[n]
    nm = spell(rng, n)
    if rng.random() < convert and t in CONVERT and k:
        t = rng.choice(CONVERT)
    kw = dict(seed=rng.randrange(1, 99), small=rng.random() < 0.5)
    if k == 0:
        return write(nm, t, 1, rng.choice([-1] * 9 + [0]), **kw)
    idx = rng.choice([-1, -1, 0, k - 1, k, rng.randrange(k)])
    rest = k - max(idx, 0)
    cnt = max(1, rng.choice([1, 1, rest, rng.randrange(1, k + 1), rest + 1 if idx >= 0 else rest]))
    return write(nm, t, cnt, idx, wide=rng.choice([0, 0, 2, 4]), **kw)


def some_op(rng, T, w=0.45):
    return some_write(rng, T) if rng.random() < w else some_read(rng, T)


def some_attr(rng, via):
    x = rng.random()
    if x < 0.35:
        return op("gas", cls=1, inst=1, attr=rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 21, 0]))
    if x < 0.6:
        return op("gaa", cls=rng.choice([1, 1, 100, 100, 2, 0x47]), inst=rng.choice([1, 1, 1, 0, 2]))
    if x < 0.7:
        return op("gas", cls=rng.choice([2, 0x47, 0xF4, 300]), inst=1, attr=1)
    if x < 0.85:
        return op("gas", cls=200, inst=rng.choice([0, 1, 2, 3, 4, 200]), attr=rng.choice([1, 1, 1, 2]))
    return op("other", cls=1, inst=1, svc=rng.choice([3, 5, 0x4A, 0x4B, 0x4F]), n=rng.choice([0, 4]))


def some_req(rng, T, conns, path=LOCAL):
    """One well-formed request of any kind."""
    x = rng.random()
    if x < 0.1:
        return rng.choice([req("li"), req("ls"), req("nop", cut=rng.choice([0, 1, 5, 24])),
                           req("unk", cmd=rng.choice([0x99, 0x05, 0x72, 0x1234, 0x71]), cut=rng.choice([0, 3, 8, 30]))])
    if x < 0.3:
        via = rng.choice(["c", "d", "u"]) if conns else rng.choice("du")
        o = some_attr(rng, via)
        return svc(via, o, conn=rng.choice(conns) if via == "c" else "", path=path)
    if x < 0.36 and conns:
        return svc("c", op("sym", start=rng.choice([0, 1, 2, 3, 99])), conn=rng.choice(conns))
    if x < 0.5 and conns:
        ops = [some_op(rng, T) for _ in range(rng.randrange(1, 5))]
        return multi(rng.choice(conns), *ops)
    if x < 0.8 and conns:
        return svc("c", some_op(rng, T), conn=rng.choice(conns))
    o = some_op(rng, T)
    while o["f"] == "frag":
        o = some_op(rng, T)
    return svc("u", o, path=rng.choice([path] * 6 + [[9, 9]]))


def damaged(rng, T, conns):
    """A request of any service with something wrong about it."""
    how = rng.choice(["cut", "pathlen", "seg", "seg", "nopath", "items", "bcutend"])
    via = rng.choice("cccdu") if conns else rng.choice("du")
    o = rng.choice([some_op(rng, T), op("gaa", cls=1, inst=1), op("gas", cls=1, inst=1, attr=1), op("sym"), op("sas", cls=200, inst=1, attr=1), op("other", cls=1, inst=1, svc=0x4A, n=4)])
    if o["f"] == "frag" and via != "c":
        o = op("gas", cls=1, inst=1, attr=1)        # unconnected, its code means something else
    if o["f"] == "other" and how in ("pathlen", "seg", "nopath"):
        how = "cut"         # a service that nobody knows is refused whatever its path
    # (a list of symbols is given whatever attributes are asked for, or none)
    return bad(svc(via, o, conn=rng.choice(conns) if via == "c" else ""), how, rng.randrange(0, 8 if o["f"] == "sym" else 12))


def open_of(rng, c, path, i, **kw):
    d = dict(large=rng.random() < 0.5, propose=rng.choice([0, 0, rng.randrange(1, 1 << 31)]), to=rng.randrange(1, 1 << 31),
             serial=1000 + i, vendor=rng.choice([0x9009, 1, 65535]), orig=rng.choice([42, 43, 0]))
    d.update(kw)
    return opn(c, path, **d)


WITNESS = [tag("w", "DINT", 0, 3), tag("warr", "INT", 4, 5)]



def run(ctx, scenarios, **kw):
    ctx.assumptions += ["the server is driven over the loopback interface, in a network of the driver's own, by originators that share no code with it",
                        "requests of one session are taken in order; those of different sessions in any order between request and reply"]
    ctx.conform(AREA, TRACE, scenarios, par=1, procs=8, **kw)


def watched(ctx, scenarios):
    """Run with the race detector: an access that another one is not ordered with is an event that the specification does not have."""
    ctx.conform(AREA, TRACE, scenarios, par=1, procs=8, race=True)


GEN = """SPECIFICATION Spec
CONSTANTS
    MaxReq = %d
    Careless = "no"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def generated(ctx, quick, thorough):
    """Histories of two originators, generated from the specification: all with two requests of each, or random ones of up to eight."""
    n = ctx.pick(quick, thorough)
    H = [h for h in ctx.generate("EipServerMC", GEN % 1)]
    H += ctx.generate("EipServerMC", GEN % 5, simulate=ctx.pick(60, 600), depth=60)
    longest = []
    for i, h in enumerate(H):       # only those which no later one continues
        if i + 1 == len(H) or H[i + 1][:len(h)] != h:
            longest.append(h)
    ctx.rng.shuffle(longest)
    return [from_history(ctx.rng, h) for h in sorted(longest[:n * 4], key=len, reverse=True)[:n]]


def from_history(rng, hist):
    P = {"1.0": [1, 0], "2.0": [2, 0], "9.9": [9, 9]}
    phases = [[part(0, REG), part(1, REG)]]
    ids, opens = {}, {}
    for h in hist:
        if h["k"] == "open":
            o = opn("k%d" % h["ser"], P[h["path"]], to=100 + h["ser"], serial=h["ser"], vendor=1, orig=h["s"], propose=rng.choice([0, 77]))
            opens[h["ser"]] = o
            if h["path"] != "9.9":
                ids[str(len(ids) + 1)] = o["conn"]
            r = o
        elif h["k"] == "close":
            r = cls(opens.get(h["ser"], opn("", serial=h["ser"], vendor=1, orig=h["s"])))
        elif h["k"] == "unk":
            r = req("unk", cmd=rng.choice([0x99, 0x05, 0x1234]), cut=rng.choice([0, 3]))
        elif h["k"] == "nop":
            r = req("nop")
        elif h["k"] == "bad":
            r = bad(svc("u", read("a", 2)), rng.choice(["cut", "pathlen", "seg", "nopath", "bcut", "items"]), rng.randrange(0, 14))
        else:
            w = write("a", "INT", 2, seed=rng.randrange(1, 99))
            ops = [w, read("none"), read("a", 2)] if h["multi"] else [w if h["f"] == "write" else read("a", 2)]
            if h["via"] == "u":
                r = svc("u", *ops, path=P[h["path"]])
            else:
                r = svc("c", *ops, conn=ids.get(h["conn"], "never"))
        phases.append([part(h["s"] - 1, r)])
    return scn([store([tag("a", "INT", 2, 10)], [1, 0]), store([tag("a", "INT", 2, 20)], [2, 0])], phases)


STORE_GEN = """SPECIFICATION Spec
CONSTANTS
    MaxOps = %d
    Careless = "no"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def store_histories(ctx, quick, thorough):
    """Two sessions at the same table, in rounds of two operations at a time, generated from TagStoreMC."""
    H = ctx.generate("TagStoreMC", STORE_GEN % 5, simulate=ctx.pick(150, 1500), depth=80)
    longest = [h for i, h in enumerate(H) if i + 1 == len(H) or H[i + 1][:len(h)] != h]
    ctx.rng.shuffle(longest)
    return [from_store_history(ctx.rng, h) for h in longest[:ctx.pick(quick, thorough)]]


def from_store_history(rng, hist):
    conns = "pq"
    phases = [[part(i, REG, opn(c, to=60 + i, serial=60 + i, orig=i)) for i, c in enumerate(conns)]]
    todo = {1: [], 2: []}
    for h in hist:
        c = conns[h["s"] - 1]
        if h["f"] == "write":
            o = write(h["raw"], h["t"], len(h["v"]), h["idx"], seed=rng.randrange(1, 99), small=h["t"] != "DINT" or h["v"][0] != "99999")
        elif h["f"] == "read":
            o = read(h["raw"], h["n"], h["idx"])
        elif h["f"] == "list":
            o = op("sym", start=h["start"])
        else:
            o = op("gas", cls=200, inst=h["start"], attr=1)
        via = "c" if h["f"] == "list" else rng.choice("du") if h["f"] == "nth" else rng.choice("ccu")
        todo[h["s"]].append(multi(c, o) if via == "c" and rng.random() < 0.15 and h["f"] in ("read", "write") else svc(via, o, conn=c if via == "c" else ""))
    together = rng.choice([1, 1, 2, 5])
    for i in range(0, max(len(todo[1]), len(todo[2])), together):
        phases.append([part(s - 1, *todo[s][i:i + together], burst=together) for s in (1, 2) if todo[s][i:]])
    end = [svc("c", op("sym"), conn="p"), svc("c", read("a", 3), conn="q"), svc("u", read("x"))]
    phases.append([part(0, end[0], end[2]), part(1, end[1])])
    return scn([store([tag("a", "INT", 3, 10), tag("x", "INT", 0, 5)])], phases)


# S01: every kind of request, one after the other or several at once, on one or several sessions
def s01_each(rng):
    """Every kind of request once, alone, satisfiable and not."""
    tags = [tag("x"), tag("r", "REAL"), tag("arr", "INT", 5), tag("s", "STRING"), tag("sa", "STRING", 3), tag("b", "BOOL")]
    big = tags + [tag("huge", "LINT", 12000, 3), tag("large", "DINT", 15000, 4), tag("strs", "STRING", 900, 5)]
    c = opn("a")
    L = []
    one = lambda *r, t=tags: L.append(scn([store(t)], [[part(0, REG, c, *r)]]))
    for via in "cud":
        for o in ([read("x"), read("r"), read("arr"), read("arr", 5), read("arr", 2, 3), read("s"), read("sa", 3), read("sa", 1, 2), read("b"),
                   read("none"), read("arr", 6), read("arr", 1, 5), read("arr", 3, 3), read("x", 1, 0), read("arr", 0), read("arr", 40000),
                   write("x", seed=2), write("r", "REAL", seed=2), write("s", "STRING", seed=2), write("arr", "INT", 5, seed=2),
                   write("arr", "INT", 2, 2, seed=2), write("arr", "INT", 2, 4, seed=2), write("arr", "INT", 0), write("sa", "STRING", 2, 1, seed=2),
                   write("none", "DINT", 1, 3), write("none", "LREAL", 1), write("x", "DINT", 1, 2)] if via != "d" else []) + [
                   op("gas", cls=1, inst=1, attr=1), op("gas", cls=1, inst=1, attr=7), op("gas", cls=1, inst=1, attr=30), op("gas", cls=2, inst=1, attr=1),
                   op("gas", cls=200, inst=2, attr=1), op("gas", cls=200, inst=99, attr=1), op("gaa", cls=1, inst=1), op("gaa", cls=1, inst=2),
                   op("gaa", cls=100, inst=1), op("gaa", cls=5, inst=1), op("other", cls=1, inst=1, svc=0x4A, n=4), op("other", cls=1, inst=1, svc=3)]:
            one(svc(via, o, conn="a" if via == "c" else ""))
    for o in (op("frag", "arr", 5, t="INT"), op("frag", "arr", 5, t="INT", eo=2), op("frag", "arr", 5, t="INT", eo=5), op("frag", "none", 5, t="INT"),
              op("frag", "sa", 3, t="STRING", eo=1), op("fwrite", "arr", 2, t="INT"), op("sym"), op("sym", start=2), op("sym", start=50),
              op("sas", cls=200, inst=1, attr=1, t="INT")):
        one(svc("c", o, conn="a"))
    for o in (read("huge", 12000), read("large", 15000), read("strs", 700), read("strs", 900), op("frag", "huge", 12000, t="LINT", eo=7000),
              op("frag", "huge", 12000, t="LINT"), op("frag", "strs", 900, t="STRING", eo=100)):
        one(svc("c", o, conn="a"), t=big)
        if o["f"] == "read":
            one(svc("u", o), t=big)
    one(multi("a", read("large", 15000), read("x"), read("large", 9000)), t=big)
    one(multi("a", read("x"), read("none"), write("x", seed=9), read("x"), op("gas", cls=1, inst=1, attr=1), read("sa", 3), op("other", cls=1, inst=1, svc=3)))
    one(multi("a", read("arr", 6), write("arr", "INT", 2, 4), write("s", "STRING", seed=4), write("sa", "STRING", 3, seed=4), read("sa", 3), read("arr", 0), write("arr", "INT", 0)))
    one(multi("a", *[read("x")] * 60))
    one(svc("c", read("x"), conn="nobody"), svc("c", write("x"), conn="nobody"), multi("nobody", read("x")), svc("c", op("sym"), conn="nobody"),
        svc("c", op("gas", cls=1, inst=1, attr=1), conn="nobody"), svc("c", op("gaa", cls=1, inst=1), conn="nobody"))
    for cmd in (0x01, 0x05, 0x52, 0x64, 0x71, 0x72, 0x73, 0x99, 0xFFFF):
        for n in (0, 1, 24, 300):
            one(req("unk", cmd=cmd, cut=n))
    for n in (0, 1, 23, 24, 100):
        one(req("nop", cut=n), req("nop", cut=n), req("ls"), req("li"))
    one(cls(c), cls(c), svc("c", read("x"), conn="a"))
    L.append(scn([store(tags)], [[part(0, req("li"), req("ls"), svc("d", op("gaa", cls=1, inst=1)), REG, req("li"))]]))
    return L


def s01_mix(rng, sessions, n):
    """Some requests of all kinds on each of some sessions."""
    T = Table(tags_of(rng, 6))
    st = [store([tag(k, *v) for k, v in T.tags.items()])]
    pre, main = [], []
    if rng.random() < 0.3:
        st = [store([tag("x")], [1, 5])] + st
    cs = []
    for s in range(sessions):
        mine = ["c%d%d" % (s, i) for i in range(rng.choice([0, 1, 1, 2]))]
        cs += mine
        pre.append(part(s, REG, *[open_of(rng, c, LOCAL, 10 * s + i) for i, c in enumerate(mine)]))
    for s in range(sessions):
        # a connection is named on whichever session: it goes with its originator, which may have several
        use = cs if rng.random() < 0.3 else [c for c in cs if c[1] == str(s)]
        rs = [some_req(rng, T, use) for _ in range(n)]
        if rng.random() < 0.4:
            rs += [damaged(rng, T, use) for _ in range(rng.choice([1, 2]))]
        main.append(part(s, *rs, burst=rng.choice([1, 1, 2, n])))
    return scn(st, [pre, main])


def check_s01(ctx):
    rng = ctx.rng
    ctx.model_check("EipServerMC", "EipServerMC.cfg")
    L = s01_each(rng)
    L += generated(ctx, 100, 1000)
    L += [s01_mix(rng, 1, rng.randrange(6, 20)) for _ in range(ctx.pick(350, 2500))]
    L += [s01_mix(rng, rng.choice([2, 2, 3]), rng.randrange(2, 4)) for _ in range(ctx.pick(150, 1000))]
    rng.shuffle(L)
    run(ctx, L)


# S02: connections
def s02_mix(rng, n):
    """Sessions open, use and close connections to several providers, with ids of every kind."""
    paths = rng.sample(PATHS, rng.choice([2, 3]))
    if rng.random() < 0.4:
        paths = rng.choice([[[1, 0], [1, 0, 2, 7]], [[1, 0, 2, 7], [1, 0, 2, 9]], [[1, 0], [1, 1]], [[2, 0], [1, 0]], [[1, 0], [1, 0, 2, 9, 1, 1], [1, 0, 2, 7]],
                            [[1, 3, 0x12, 4, 49, 46, 49, 46], [1, 3]], [[0x12, 5, 49, 48, 46, 48, 49, 0], [1, 0]]])
    st = [store([tag("id", "DINT", 0, 10 + i), tag("arr", "INT", 3, 20 + i)] + ([tag("only%d" % i, "REAL")] if rng.random() < 0.5 else []), p)
          for i, p in enumerate(paths)]
    sessions = rng.choice([1, 2, 2, 3])
    known, opened, phases = {}, [], [[part(s, REG) for s in range(sessions)]]
    k = 0
    for _ in range(n):
        s = rng.randrange(sessions)
        reqs = []
        for _ in range(rng.randrange(1, 4)):
            x = rng.random()
            if x < 0.35 or not opened:
                c = "k%d" % k
                k += 1
                kw = {}
                if opened and rng.random() < 0.6:
                    # ids that another connection has as well, all but all of the triple that names it
                    o = known[rng.choice(opened)]
                    kw = dict(to=o["to"], propose=rng.choice([0, o["propose"] or 77]))
                    tr = dict(serial=o["serial"], vendor=o["vendor"], orig=o["orig"])
                    f = rng.choice(["serial", "vendor", "orig"])
                    tr[f] = tr[f] + 1 if tr[f] < 65535 else 7
                    if all((q["serial"], q["vendor"], q["orig"]) != (tr["serial"], tr["vendor"], tr["orig"]) for q in known.values()):
                        kw.update(tr)
                known[c] = open_of(rng, c, rng.choice(paths), k, **kw)
                opened.append(c)
                reqs.append(known[c])
            elif x < 0.55:
                c = rng.choice(opened)
                reqs.append(cls(known[c]))
                if rng.random() < 0.15:
                    reqs.append(cls(dict(known[c], serial=(known[c]["serial"] + 7) % 65536)))
                for d in rng.sample(opened, min(2, len(opened))):
                    reqs.append(svc("c", read("id"), conn=d))
            else:
                c = rng.choice(opened)
                reqs.append(rng.choice([svc("c", read("id"), conn=c), svc("c", read("arr", 3), conn=c), svc("c", write("id", seed=rng.randrange(99)), conn=c),
                                        multi(c, read("id"), write("arr", "INT", 1, 1, seed=rng.randrange(99)), read("arr", 3)),
                                        svc("c", op("sym"), conn=c), svc("c", op("gas", cls=1, inst=1, attr=1), conn=c), svc("c", op("gaa", cls=1, inst=1), conn=c),
                                        svc("u", read("id"), path=rng.choice(paths + [[1, 99]])), svc("u", write("id", seed=rng.randrange(99)), path=rng.choice(paths))]))
        phases.append([part(s, *reqs, burst=rng.choice([1, 1, 4]))])
    return scn(st, phases)


def s02_far(rng):
    """Requests for places that are not served, next to places that are; and connections named by the originator's ids."""
    paths = rng.sample(PATHS, rng.choice([1, 2, 3]))
    st = [store([tag("id", "DINT", 0, 10 + i), tag("arr", "INT", 3, 20 + i)], p) for i, p in enumerate(paths)]
    far = [p for q in paths + [[1, 0]] for p in (q + [2, 5], q + [1, 0], q[:2], q[:-2], q[2:], [1, 99], q[:-1] + [(q[-1] + 1) % 256]) if p and len(p) % 2 == 0]
    far = [p for p in far if 0x12 not in p[::2] or p in paths] or [[1, 99]]
    reqs, names = [REG], []
    for i in range(rng.randrange(2, 5)):
        c = "f%d" % i
        names.append(c)
        reqs.append(open_of(rng, c, rng.choice(far if i else paths), i, to=rng.choice([5, 6, 0x5EAD0005]) * 1000 + i))
    for _ in range(rng.randrange(3, 9)):
        c = rng.choice(names)
        o = rng.choice([read("id"), read("arr", 3), write("id", seed=rng.randrange(99)), write("new", "REAL", seed=3), op("frag", "arr", 3, t="INT"), op("sym"),
                        op("gas", cls=1, inst=1, attr=1), op("gaa", cls=1, inst=1)])
        reqs.append(rng.choice([svc("c", o, conn=c), svc("c", o, conn="to:" + c), multi(c, read("id"), write("arr", "INT", 1, 1, seed=4)),
                                multi("to:" + c, read("id"), write("arr", "INT", 1, 1, seed=4)),
                                svc("u", rng.choice([read("id"), write("id", seed=rng.randrange(99)), write("new", "REAL", seed=3)]), path=rng.choice(far + paths))]))
    return scn(st, [[part(0, *reqs, burst=rng.choice([1, 1, 3]))]])


def s02_race(rng):
    """Several originators open, use and close at the same time, with the same proposed id and the same serial number."""
    paths = rng.sample(PATHS, 2)
    st = [store([tag("id", "DINT", 0, 10 + i)], p) for i, p in enumerate(paths)]
    pro = rng.choice([0, 77, 77])
    a, b = [], []
    for s in range(rng.choice([2, 3])):
        c = "s%d" % s
        o = opn(c, rng.choice(paths), propose=pro, serial=5, vendor=9, orig=100 + s, to=500 + rng.choice([0, s]), large=rng.random() < 0.5)
        a.append(part(s, REG, o, svc("c", read("id"), conn=c)))
        b.append(part(s, cls(o), svc("c", read("id"), conn=c)) if rng.random() < 0.5 else part(s, svc("c", write("id", seed=3 + s), conn=c), svc("c", read("id"), conn=c)))
    return scn(st, [a, b])


def check_s02(ctx):
    rng = ctx.rng
    ctx.model_check("EipServerMC", "EipServerMC.cfg")
    L = generated(ctx, 150, 1500)
    L += [s02_far(rng) for _ in range(ctx.pick(100, 800))]
    L += [s02_mix(rng, rng.randrange(2, 9)) for _ in range(ctx.pick(500, 4000))]
    L += [s02_race(rng) for _ in range(ctx.pick(250, 1500))]
    run(ctx, L)
    watched(ctx, [s02_race(rng) for _ in range(ctx.pick(50, 400))] + [s01_mix(rng, 3, 5) for _ in range(ctx.pick(30, 300))])


# S03: the table of tags
def s03_long(rng):
    """Arrays of more elements than fit into a byte."""
    k = rng.choice([256, 257, 300, 600])
    t = rng.choice(["BYTE", "INT", "DINT"])
    reqs = []
    for _ in range(4):
        a = rng.choice([0, 1, 255, k - 256, rng.randrange(k - 1)])
        n = min(rng.choice([255, 256, 257, k - a, rng.randrange(1, k)]), k - a)
        reqs.append(svc(rng.choice("cu"), rng.choice([read, write])("big", n=n, idx=rng.choice([a, a, -1])), conn="a"))
        o = reqs[-1]["ops"][0]
        if o["f"] == "write":
            o.update(t=t, seed=rng.randrange(1, 99))
        if reqs[-1]["via"] == "u":
            reqs[-1]["conn"] = ""
    reqs.append(svc("c", read("big", k), conn="a"))
    return scn([store([tag("big", t, k, rng.randrange(9))])], [[part(0, REG, opn("a"), *reqs)]])


def s03_seq(rng, n, via=None):
    """A history of reads and writes of one session, by all services."""
    T = Table(tags_of(rng, rng.randrange(1, 6)))
    st = [store([tag(k, v[0], v[1], rng.randrange(1, 50), rng.random() < 0.5) for k, v in T.tags.items()])]
    if rng.random() < 0.3:
        # the tag table may have been filled in with names of any case
        for t in st[0]["tags"]:
            t["n"] = t["n"].capitalize()
    reqs = []
    for _ in range(n):
        v = via or rng.choice("cccum")
        if v == "m":
            reqs.append(multi("a", *[some_op(rng, T) for _ in range(rng.randrange(1, 6))]))
        else:
            o = some_op(rng, T)
            if v == "u" and o["f"] == "frag":
                v = "c"
            reqs.append(svc(v, o, conn="a" if v == "c" else ""))
        if rng.random() < 0.3:
            nm = T.name(rng)
            reqs.append(svc("c", read(nm, max(T.tags[nm][1], 1)), conn="a"))
    return scn(st, [[part(0, REG, opn("a"), *reqs, burst=rng.choice([1, 1, 1, 5]))]])


def s03_convert(rng):
    """Values of every type into arrays and tags of every other type."""
    L = []
    for t in CONVERT:
        for u in CONVERT:
            if t != u:
                st = [store([tag("a", t, 3, 5), tag("x", t, 0, 6)])]
                reqs = [svc("c", write("a", u, 1, 1, seed=rng.randrange(99), small=True), conn="a"), svc("c", read("a", 3), conn="a"),
                        svc("c", write("a", u, 2, 0, seed=rng.randrange(99)), conn="a"), svc("c", read("a", 3), conn="a"),
                        svc("u", write("a", u, 3, -1, seed=rng.randrange(99), small=True)), svc("u", read("a", 3)),
                        svc("c", write("x", u, 1, seed=rng.randrange(99), small=True), conn="a"), svc("c", read("x"), conn="a")]
                L.append(scn(st, [[part(0, REG, opn("a"), *reqs)]]))
    for t, u in (("STRING", "DINT"), ("DINT", "STRING"), ("STRING", "SINT"), ("BYTE", "STRING"), ("STRING", "REAL")):
        st = [store([tag("a", t, 3, 5)])]
        L.append(scn(st, [[part(0, REG, opn("a"), svc("c", write("a", u, 1, 1, seed=2), conn="a"), svc("c", read("a", 3), conn="a"),
                                svc("c", write("a", u, 2, -1, seed=2), conn="a"), svc("c", read("a", 3), conn="a"),
                                svc("c", write("a", u, 1, -1, seed=2), conn="a"), svc("c", read("a", 3), conn="a"))]]))
    return L


def s03_race(rng):
    """Sessions read and write the same tags at the same time."""
    T = Table([tag("x", rng.choice(TYPES)), tag("arr", rng.choice(TYPES + ["STRING"]), 4)])
    st = [store([tag(k, v[0], v[1], 3) for k, v in T.tags.items()])]
    pre, main = [], []
    for s in range(rng.choice([2, 2, 3])):
        c = "c%d" % s
        pre.append(part(s, REG, opn(c, to=100 + s, serial=s, orig=s)))
        reqs = []
        for _ in range(rng.randrange(2, 4)):
            n = rng.choice(["x", "arr", "arr"])
            t, k = T.tags[n]
            o = rng.choice([write(n, t, max(k, 1), seed=rng.randrange(1, 99)), read(n, max(k, 1)), read(n, max(k, 1)),
                            write("arr", T.tags["arr"][0], 1, rng.randrange(4), seed=rng.randrange(1, 99))])
            v = rng.choice("ccu")
            reqs.append(svc(v, o, conn=c if v == "c" else ""))
        main.append(part(s, *reqs, burst=4))
    return scn(st, [pre, main])


def check_s03(ctx):
    rng = ctx.rng
    ctx.model_check("EipServerMC", "EipServerMC.cfg")
    ctx.model_check("TagStoreMC", "TagStoreMC.cfg")
    L = s03_convert(rng)
    L += store_histories(ctx, 120, 1200)
    L += [s03_long(rng) for _ in range(ctx.pick(16, 100))]
    L += [s03_seq(rng, rng.randrange(4, 24)) for _ in range(ctx.pick(500, 4000))]
    L += [s03_race(rng) for _ in range(ctx.pick(250, 1500))]
    rng.shuffle(L)
    run(ctx, L)
    watched(ctx, [s03_race(rng) for _ in range(ctx.pick(80, 600))])


# S06: symbols and attribute instances
def s06_one(rng):
    n = rng.choice([0, 1, 2, 3, 7, 12, 40])
    names = set()
    while len(names) < n:
        names.add("".join(rng.choice("abAZz_19." if rng.random() < 0.3 else "abcxyz_019") for _ in range(rng.choice([1, 2, 3, 8, 40, 41, 82, 83, 127]))).lower().strip(".") or "q")
        names = {x for x in names if ".." not in x and x[0] not in "0123456789"}
    tags = tags_of(rng, n, names=sorted(names, key=lambda x: rng.random())) if n else []
    if rng.random() < 0.3:
        for t in tags:
            t["n"] = rng.choice([t["n"], t["n"].upper(), t["n"].capitalize()])
    for t in tags:
        t["k"] = max(t["k"], 1)
    local = store(tags, kind="map" if rng.random() < 0.9 else "nolist")
    other = store(tags_of(rng, 3), [1, 4])
    reqs = [REG, opn("a"), opn("b", [1, 4])]

    def look(k):
        R = []
        for _ in range(k):
            x = rng.random()
            i = rng.choice([0, 1, 2, n, n + 1, n + 2, rng.randrange(n + 2), 256 + 1, 65536 + 1])
            if x < 0.35:
                R.append(svc("c", op("sym", start=rng.choice([0, 1, 2, n, n + 1, n + 9, rng.randrange(n + 2)])), conn=rng.choice("aab")))
            elif x < 0.7:
                R.append(svc(rng.choice("du"), op("gas", cls=200, inst=i, attr=rng.choice([1, 1, 1, 1, 2, 0]))))
            elif n:
                j = rng.randrange(n)
                t = sorted(tags, key=lambda y: y["n"].lower())[j]
                R.append(svc(rng.choice("du"), op("sas", cls=200, inst=j + 1, attr=1, t=t["t"] if rng.random() < 0.9 else "DINT", seed=rng.randrange(99), small=True)))
                R.append(svc("d", op("gas", cls=200, inst=j + 1, attr=1)))
        return R
    reqs += look(6)
    # tags are added
    for nm in rng.sample(["aaa", "zzz", "m5", "Q2", "b.c"], 2):
        reqs.append(svc(rng.choice("cu"), write(nm, rng.choice(TYPES + ["STRING"]), rng.choice([1, 1, 3]), seed=5), conn="a"))
        if reqs[-1]["via"] == "u":
            reqs[-1]["conn"] = ""
    reqs += look(6)
    return scn([local, other], [[part(0, *reqs, burst=1)]])


def check_s06(ctx):
    rng = ctx.rng
    ctx.model_check("TagStoreMC", "TagStoreMC.cfg")
    L = [s06_one(rng) for _ in range(ctx.pick(600, 4000))]
    L += store_histories(ctx, 100, 1000)
    L.append(scn([store([tag("t%04d" % i) for i in range(300)])], [[part(0, REG, opn("a"), svc("c", op("sym"), conn="a"), svc("c", op("sym", start=257), conn="a"),
             svc("d", op("gas", cls=200, inst=256, attr=1)), svc("d", op("gas", cls=200, inst=257, attr=1)), svc("d", op("sas", cls=200, inst=299, attr=1, seed=4)),
             svc("d", op("gas", cls=200, inst=301, attr=1)))]]))
    run(ctx, L)


# S07: identity
def s07_one(rng):
    name = rng.choice(["Gologix", "", "A", "x" * 32, "y" * 33, "z" * 82, "z" * 83, "y" * 84, "x" * 85, "z" * 127, "w" * 128, "v" * 200, "u" * 255, "a b/c-1", "1756-L83E/B"])
    nums = [rng.choice([0, 1, 255, 256, 0x1234, 0x7FFF, -1, -32768, rng.randrange(-32768, 32768)]) for _ in range(5)]
    ident = dict(nums=nums, serial=rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)]), name=name)
    reqs = [req("li")] if rng.random() < 0.3 else []
    reqs += [REG, opn("a")]
    every = []
    for via in "cdu":
        every += [(via, op("gas", cls=1, inst=1, attr=a)) for a in (1, 2, 3, 4, 5, 6, 7)]
        every += [(via, op("gaa", cls=1, inst=1)), (via, op("gaa", cls=100, inst=1))]
        every += [(via, op("gas", cls=1, inst=1, attr=rng.choice([0, 8, 9, 21, 99, 255]))), (via, op("gas", cls=rng.choice([2, 6, 0x47, 0xF5, 101]), inst=1, attr=1)),
                  (via, op("gas", cls=1, inst=rng.choice([0, 2, 255, 256, 257]), attr=rng.choice([1, 7]))),
                  (via, op("gaa", cls=rng.choice([0, 2, 6, 0x47, 99, 101, 300, 257]), inst=1)), (via, op("gaa", cls=rng.choice([1, 100]), inst=rng.choice([0, 2, 257])))]
    rng.shuffle(every)
    for via, o in every[:rng.choice([10, 40])]:
        reqs.append(svc(via, o, conn="a" if via == "c" else ""))
        if rng.random() < 0.1:
            reqs.append(req("li"))
    return scn([store([tag("x")])], [[part(0, *reqs, burst=rng.choice([1, 1, 5]))]], ident=ident)


def check_s07(ctx):
    rng = ctx.rng
    ctx.model_check("EipServerMC", "EipServerMC.cfg")
    L = [s07_one(rng) for _ in range(ctx.pick(500, 4000))]
    run(ctx, L)


# S04: malformed traffic
BADS = ["cut", "pathlen", "seg", "symlen", "type", "crc", "count", "index", "nopath", "bcut", "bcutend", "items", "itemlen", "route", "itemtype"]


def bad_one(rng):
    via = rng.choice("cu")
    how = rng.choice(BADS[:-1] if via == "u" else BADS)
    if via == "c" and rng.random() < 0.3:
        how = rng.choice(["moff", "moffneg", "mcount", "cut"])
        b = multi("v", *[rng.choice([read("x"), read("arr", 2)] + ([write("x", seed=3)] if how != "cut" else [])) for _ in range(rng.randrange(1, 4))])
        return bad(b, how, rng.randrange(0, 14))
    o = rng.choice([read("x"), write("x", seed=4), write("arr", "INT", 3, seed=4), read("arr", 4), write("s", "STRING", seed=4), read("arr", 2, 1)])
    if how in ("type", "crc", "count"):
        o = rng.choice([write("x", seed=4), write("arr", "INT", 3, seed=4), write("s", "STRING", seed=4)])
    if how == "route":
        via = "u"
    if how in ("route", "bcutend"):
        cut = rng.randrange(0, 5)
        return bad(svc(via, rng.choice([o, write("x", seed=4), write("w", seed=4), write("warr", "INT", 4, seed=4)]), conn="v" if via == "c" else "", path=[1, 6]), how, cut)
    return bad(svc(via, o, conn="v" if via == "c" else "", path=[1, 6]), how, rng.randrange(0, 14))


def junk_one(rng):
    """A message out of a valid one, with some bytes changed, left out or put in."""
    T = Table([tag("x"), tag("arr", "INT", 4), tag("s", "STRING")])
    x = rng.random()
    base = rng.choice([REG, req("li"), req("ls"), open_of(rng, "j2", [9, 77], rng.randrange(99)), cls(open_of(rng, "j2", [9, 77], rng.randrange(99)))]) if x < 0.3 \
        else some_req(rng, T, ["j"], [9, 77])
    if x > 0.9:
        return dict(req=base, muts=[], raw=[rng.randrange(256) for _ in range(rng.choice([1, 3, 24, 30, 200]))], udp=rng.random() < 0.6)
    muts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        y = rng.random()
        if y < 0.15:
            muts.append([100000 + rng.randrange(0, 120), 0])
        elif y < 0.3:
            muts.append([200000 + rng.randrange(0, 80), rng.choice([1, 2, 4, 500])])
        elif y < 0.45:
            muts.append([rng.choice([2, 3]), rng.choice([0, 1, 255, 24])])
        else:
            muts.append([rng.randrange(24, 110), rng.choice([0, 1, 255, 127, 128, rng.randrange(256)])])
    return dict(req=base, muts=muts, raw=None, udp=rng.random() < 0.1)


def s04_one(rng, junks):
    junkstore = store([tag("x"), tag("arr", "INT", 4), tag("s", "STRING")], [9, 77], kind="junk")
    vict = store([tag("x"), tag("arr", "INT", 4), tag("s", "STRING")], [1, 6])
    wit = store(WITNESS, [1, 0])
    phases = [[part(0, REG, opn("w", [1, 0])), part(1, REG, opn("v", [1, 6], to=9, serial=9))]]
    w = lambda: [rng.choice([svc("c", read("warr", 4), conn="w"), svc("c", write("w", seed=rng.randrange(99)), conn="w"), svc("c", read("w"), conn="w"),
                             svc("u", write("warr", "INT", 2, 1, seed=rng.randrange(99))), svc("u", read("warr", 4)), req("li"),
                             multi("w", read("w"), write("warr", "INT", 1, 2, seed=rng.randrange(99)), read("warr", 4))]) for _ in range(rng.randrange(1, 4))]
    for i in range(rng.choice([1, 2])):
        ph = [part(0, *w())]
        if rng.random() < 0.6:
            ph.append(part(1, *[bad_one(rng) if rng.random() < 0.7 else svc("c", read("x"), conn="v") for _ in range(rng.randrange(1, 4))]))
        if junks:
            ph.append(dict(s=2 + i, burst=1, reqs=[], junk=[junk_one(rng) for _ in range(junks)]))
        phases.append(ph)
    phases.append([part(0, *w()), part(4, REG, svc("u", read("warr", 4)), opn("n", [1, 0], to=77, serial=77), svc("c", read("w"), conn="n"))])
    return scn([junkstore, vict, wit], phases)


def check_s04(ctx):
    rng = ctx.rng
    ctx.model_check("EipServerMC", "EipServerMC.cfg")
    L = [s04_one(rng, rng.choice([0, 6, 12])) for _ in range(ctx.pick(600, 4000))]
    run(ctx, L)
