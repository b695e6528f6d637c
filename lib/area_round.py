"""E01: several clients of the library and its server."""
from area_multi import params, spelled

GEN = """SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2}
    MaxOps = %d
    Careless = "no"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
SIZES = dict(BOOL=1, SINT=1, INT=2, DINT=4, LINT=8, UINT=2, UDINT=4, LWORD=8, BYTE=1, REAL=4, LREAL=8, STRING=88)
NUM = [t for t in SIZES if t not in ("BOOL", "STRING")]
NAMES = ["a%d", "Tag_%d", "x%dy", "LongTagName_abcdefghijklmnopqrst%d", "z9_%d", "Q%dq"]
CONN = [0, 0, 504, 511, 4000, 4002, 1000, 200]
RAPI = ["single", "list", "map", "multimap", "group", "struct"]
WAPI = ["single", "map", "struct"]


def tag(name, typ, n=0, seed=1, odd=False):
    return dict(name=name, type=typ, n=n, seed=seed, odd=odd)


def world(rng, n, arrays=0.4, big=0.1):
    out = []
    for i in range(n):
        arr = rng.random() < arrays
        typ = rng.choice(NUM + ["STRING"] if arr else NUM + ["BOOL", "STRING", "DINT", "REAL"])
        k = 0
        if arr:
            k = rng.choice([2, 3, 5, 12, 40])
            if rng.random() < big:
                k = rng.choice([100, 250, 600, 1500, 6000 // SIZES[typ]])
            if typ == "STRING":
                k = min(k, 30)
        out.append(tag(rng.choice(NAMES) % i, typ, k, rng.randint(1, 99999), rng.random() < 0.25))
    return out


def part(rng, t, api, write, at=None, n=None, seed=None):
    p = dict(base=t["name"], at=0, n=1, idx=False, bit=-1, type=t["type"], open=False, arr=False, emb=False, seed=seed if seed is not None else rng.randint(1, 9999999),
             odd=rng.random() < 0.3)
    name = spelled(rng, t["name"])
    if t["n"]:
        # what the client writes of an array of strings is one element
        single = write and t["type"] == "STRING"
        p["n"] = n if n else 1 if single or rng.random() < 0.25 else t["n"] if rng.random() < 0.4 else rng.randint(1, t["n"])
        p["at"] = at if at is not None else rng.randint(0, t["n"] - p["n"]) if rng.random() < 0.7 else 0
        p["arr"] = p["n"] > 1 or (rng.random() < 0.3 and not (write and t["type"] == "STRING"))
        p["idx"] = p["at"] > 0 or rng.random() < 0.5
        if p["idx"]:
            name += "[%d]" % p["at"]
    if api == "group" and p["n"] == 1:
        p["arr"] = False
    if not write and p["type"] == "BYTE" and api == "list" and p["arr"]:
        p["arr"] = False
    p["name"] = p["def"] = name
    p["emb"] = not write and api == "struct" and rng.random() < 0.2
    return p


def op(do, api="", parts=(), c=0, must=True, args=()):
    return dict(do=do, api=api, parts=list(parts), args=list(args), must=must, c=c)


def read(rng, tags, c, api=None, many=4):
    api = api or rng.choice(RAPI)
    k = 1 if api == "single" else rng.randint(1, many)
    seen, ps = set(), []
    for _ in range(k):
        p = part(rng, rng.choice(tags), api, False)
        if p["name"].lower() in seen:           # a name twice: only a list can
            continue
        seen.add(p["name"].lower())
        ps.append(p)
    args = params(rng, ps) if api in ("group", "struct") and rng.random() < 0.3 else []
    return op("read", api, ps, c, args=args)


def write(rng, tags, c, api=None, many=4):
    api = api or rng.choice(WAPI)
    k = 1 if api == "single" else rng.randint(1, many)
    ps = [part(rng, t, api, True) for t in rng.sample(tags, min(k, len(tags)))]
    return op("write", api, ps, c)


def wrong(rng, tags, c):
    """What is not there."""
    arrs = [t for t in tags if t["n"]]
    w = rng.random() < 0.5
    api = rng.choice(WAPI if w else RAPI)
    if arrs and rng.random() < 0.6:
        t = rng.choice(arrs)
        p = part(rng, t, api, w, at=t["n"] - rng.choice([0, 0, 1]), n=2)
        p["idx"], p["arr"] = True, True
        if t["type"] == "STRING" and w:
            p["arr"], p["n"], p["at"] = False, 1, t["n"]
        p["name"] = p["def"] = "%s[%d]" % (t["name"], p["at"])
        if t["type"] in ("STRING",) and not w and p["at"] < t["n"]:
            p["at"] = t["n"]
            p["name"] = p["def"] = "%s[%d]" % (t["name"], p["at"])
    else:
        p = part(rng, tag("nothere%d" % rng.randrange(9), "DINT", 3), api, w, at=1, n=1)
        p["arr"] = False
        p["idx"] = True
        p["name"] = p["def"] = p["base"] + "[1]"
    return op("write" if w else "read", api, [p], c, must=False)


def new_tag(rng, i, c):
    t = tag("new%d" % i, rng.choice(NUM + ["STRING", "BOOL"]), 0)
    if t["type"] in NUM and rng.random() < 0.5:
        t["n"] = rng.randint(2, 20)
    p = part(rng, t, "single", True, at=0, n=t["n"] or 1)
    p["arr"], p["idx"] = t["n"] > 0, False
    p["name"] = p["def"] = t["name"]
    return t, op("write", rng.choice(WAPI), [p], c)


def scn(tags, sizes, phases, path=(1, 0)):
    return dict(tags=tags, sizes=sizes, phases=phases, path=list(path))


def route(rng):
    return rng.choice([(1, 0), (1, 0), (1, 3), (2, 17), (1, 0, 2, 4)])


def sequential(rng, n):
    """Calls of several clients, one after the other."""
    tags = world(rng, rng.randint(1, 12))
    k = rng.choice([1, 2, 2, 3])
    ops, m = [], 0
    for _ in range(n):
        c, r = rng.randrange(k), rng.random()
        if r < 0.42:
            ops.append(write(rng, tags, c, many=rng.choice([3, 8, 25])))
        elif r < 0.88:
            ops.append(read(rng, tags, c, many=rng.choice([3, 8, 25])))
        elif r < 0.92:
            ops.append(op("again", c=c))
        elif r < 0.96:
            ops.append(wrong(rng, tags, c))
        else:
            t, o = new_tag(rng, m, c)
            m += 1
            ops.append(o)
            tags.append(t)
    new = {p["base"] for o in ops for p in o["parts"] if p["base"].startswith("new")}
    return scn([t for t in tags if t["name"] not in new], [rng.choice(CONN) for _ in range(k)], [[ops[i:i + 8]] for i in range(0, len(ops), 8)], route(rng))


def together(rng, n, shared=0.3):
    """Several goroutines at the same few tags."""
    tags = world(rng, rng.randint(1, 4), arrays=0.6, big=0.15)
    k = rng.choice([1, 2, 2, 3])
    phases = []
    for _ in range(rng.choice([1, 2])):
        threads = []
        for th in range(rng.choice([2, 2, 3])):
            c = rng.randrange(k) if rng.random() < shared else th % k
            threads.append([(write if rng.random() < 0.5 else read)(rng, tags, c, many=3) for _ in range(n)])
        phases.append(threads)
        if rng.random() < 0.5:
            phases.append([[read(rng, tags, rng.randrange(k), many=4) for _ in range(2)]])
    return scn(tags, [rng.choice(CONN) for _ in range(k)], phases, route(rng))


def from_history(rng, hist):
    """A history of the model: a is an array of two elements, b one value."""
    ta, tb = rng.choice(NUM), rng.choice(NUM + ["STRING", "BOOL"])
    T = dict(a=tag(rng.choice(NAMES) % 1, ta, 2, 5), b=tag(rng.choice(NAMES) % 2, tb, 0, 6))
    threads = {1: [], 2: []}
    for i, h in enumerate(hist["ops"]):
        one = len(h["p"]) == 1
        api = rng.choice((WAPI if h["w"] else RAPI) if one else (["map", "struct"] if h["w"] else ["list", "map", "multimap", "group", "struct"]))
        ps = []
        for q in h["p"]:
            p = part(rng, T[q["t"]], api, h["w"], at=max(0, q["at"]), n=q["n"])
            if api == "group" and p["n"] == 1:
                p["arr"] = False
            ps.append(p)
        threads[h["th"]].append(op("write" if h["w"] else "read", api, ps, h["th"] - 1))
    return scn([T["a"], T["b"]], [rng.choice(CONN), rng.choice(CONN)], [[threads[1], threads[2]]], route(rng))


def every_type(rng):
    """Every type and length by every way of writing and every way of reading."""
    out = []
    for typ in list(SIZES):
        for n in [0, 2, 7] if typ != "BOOL" else [0]:
            t = tag("v", typ, n, 3)
            ops = []
            for w in WAPI:
                for r in RAPI:
                    ops.append(op("write", w, [part(rng, t, w, True, at=0 if rng.random() < 0.5 else None, n=None)], 0))
                    ops.append(op("read", r, [part(rng, t, r, False, at=0, n=n or 1)], 1))
                    if n:
                        ops.append(read(rng, [t], 0, r))
            out.append(scn([t], [rng.choice(CONN), rng.choice(CONN)], [[ops]], route(rng)))
    return out


def large(rng):
    """Values around what fits in a message, and far more."""
    out = []
    for size in [0, 504, 200, 4000]:
        for typ in ["SINT", "INT", "DINT", "LREAL", "STRING", "BYTE"]:
            s = SIZES[typ]
            lens = sorted({max(2, (size or 4002) // s + d) for d in (-12, -8, -4, -2, -1, 0, 1, 2)})
            if typ == "STRING":
                lens = [2, 5, 6, 45, 46, 90]
            tags = [tag("g%d" % i, typ, n, i) for i, n in enumerate(lens)]
            ops = []
            for t in tags:
                if typ != "STRING":
                    ops.append(op("write", rng.choice(WAPI), [part(rng, t, "single", True, at=0, n=t["n"])], 0))
                ops.append(op("read", rng.choice(["single", "map", "struct", "list"]), [part(rng, t, "map", False, at=0, n=t["n"])], 1))
            for o in ops:                       # (BYTEs in a list come back as bytes)
                if o["api"] == "list":
                    o["parts"][0]["arr"] = False
            out.append(scn(tags, [size, size], [[ops]], route(rng)))
    return out


def far(rng, typ, n):
    """Elements far into an array, where their index takes two or four bytes."""
    t = tag("far", typ, n, 7)
    ats = [a for a in (0, 1, 127, 128, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 40000, 65534, 65535, 65536, n - 3) if a < n - 2]
    ops = []
    for a in rng.sample(ats, min(8, len(ats))):
        k = rng.choice([1, 1, 2, 3])
        ops.append(op("write", (api := rng.choice(WAPI)), [part(rng, t, api, True, at=a, n=k)], 0))
        ops.append(op("read", (api := rng.choice(RAPI)), [part(rng, t, api, False, at=a, n=k)], 1))
        b = rng.choice([0, max(0, a - 20), a % 256, a % 32768])
        ops.append(op("read", "single", [part(rng, t, "single", False, at=b, n=min(40, n - b))], 1))
    for o in ops:
        if o["api"] == "list" and typ == "BYTE":
            o["parts"][0]["arr"] = False
    return scn([t], [rng.choice(CONN), rng.choice(CONN)], [[ops]], route(rng))


def scenarios(ctx):
    rng = ctx.rng
    H = ctx.generate("RoundTripMC", GEN % ctx.pick(2, 3))
    rng.shuffle(H)
    out = [from_history(rng, h) for h in H[:ctx.pick(150, 3000)]]
    out += every_type(rng) + large(rng)
    for _ in range(ctx.pick(1, 12)):
        out += [far(rng, rng.choice(["SINT", "INT", "DINT", "REAL", "BYTE", "UINT"]), n) for n in (300, 2000, 33000, rng.choice([50000, 66000]))]
    out += [sequential(rng, rng.choice([8, 20, 40])) for _ in range(ctx.pick(220, 3000))]
    out += [together(rng, rng.choice([3, 6, 10])) for _ in range(ctx.pick(220, 3000))]
    return out


def check_e01(ctx):
    ctx.model_check("RoundTripMC", "RoundTripMC.cfg", unused=["Next"])     # (Next: what only careless ones do)
    ctx.explain.append("RoundTrip.tla: clients that send calls as messages and a server with a table of its own are model-checked against it (tearing, caching, "
                       "returning early, mixing up and repeating are found); generated histories, every type by every way, and random calls of up to three real "
                       "clients, also shared by goroutines, go through the real server; TLC finds the order that explains every result and the table")
    ctx.conform("round", "RoundTripTrace", scenarios(ctx), procs=8, par=1)
    rng = ctx.rng
    ctx.conform("round", "RoundTripTrace", [together(rng, 8, shared=0.6) for _ in range(ctx.pick(16, 300))], procs=8, par=1, race=True)
