"""C14: what a tag path addresses."""

GEN = """SPECIFICATION Spec
CONSTANTS
    Names = {"a", "b"}
    Insts = {"1", "2"}
    Steps = %d
    Forget = TRUE
    Key = "path"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
INTS = ["SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "LWORD", "BYTE", "WORD", "DWORD"]
BITS = {"SINT": 8, "INT": 16, "DINT": 32, "LINT": 64, "USINT": 8, "UINT": 16, "UDINT": 32, "LWORD": 64, "BYTE": 8, "WORD": 16,
        "DWORD": 32, "BOOL": 1}
CODES = {"BOOL": 0xC1, "SINT": 0xC2, "INT": 0xC3, "DINT": 0xC4, "LINT": 0xC5, "USINT": 0xC6, "UINT": 0xC7, "UDINT": 0xC8,
         "REAL": 0xCA, "LREAL": 0xCB, "BYTE": 0xD1, "WORD": 0xD2, "DWORD": 0xD3, "LWORD": 0xD4}
EDGE = [0, 1, 2, 9, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31,
        (1 << 32) - 1]
INSTS = [1, 2, 9, 127, 128, 254, 255, 256, 257, 1000, 32768, 65534, 65535]
READS = ["ptr", "ptr", "single", "list", "map", "multimap", "group", "struct"]


def case(rng, s):
    k = rng.random()
    if k < 0.4:
        return s
    if k < 0.6:
        return s.upper()
    if k < 0.8:
        return s.lower()
    return "".join(rng.choice([c.upper(), c.lower()]) for c in s)


def spell(rng, parts, bit):
    out = []
    for p in parts:
        s = case(rng, p["name"])
        if p["idx"]:
            gap = rng.choice(["", "", "", " "])
            s += "[" + ("," + gap).join(gap * (i == 0 and rng.random() < 0.3) + x for i, x in enumerate(p["idx"])) + "]"
        out.append(s)
    if bit >= 0:
        out.append(str(bit))
    return ".".join(out)


def word(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 7, 8, 20, 39, 40])
    return rng.choice("abcxyz_QT") + "".join(rng.choice("abc_XYZ0123456789") for _ in range(n - 1))


def call(rng, parts, bit=-1, typ=None, api=None, ok=True, n=1, sp=None):
    typ = typ or (rng.choice(INTS + ["BOOL"]) if bit >= 0 else rng.choice(list(CODES)))
    if bit >= 0:
        api = api or rng.choice(READS)
    else:
        api = api or rng.choice(READS + ["write", "wmap", "add"])
    if api == "single" and n > 1:
        api = "list"                                  # shown differently
    if typ in ("USINT", "WORD", "DWORD") and api in ("write", "wmap", "add"):
        typ = "DINT"
    if typ == "BOOL" and api == "add":
        typ = "INT"
    # Go has no types of its own for these
    if bit < 0 and typ in ("USINT", "WORD", "DWORD") and api in ("ptr",):
        typ = rng.choice(["DINT", "INT", "REAL"])
    if api == "add":
        n = 1
    if n > 1 and typ in ("BOOL", "BYTE", "USINT"):
        typ = "DINT"
    return dict(do="call", api=api, parts=parts, bit=bit, spell=sp or spell(rng, parts, bit), type=typ, n=n, ok=ok)


def part(name, *idx):
    return dict(name=name, idx=[str(i) for i in idx])


def entry(rng, name, inst, scope="", pid=0, typ=None, dims=None):
    return dict(scope=scope, pid=pid, inst=inst, name=name, type=typ if typ is not None else rng.choice(list(CODES.values())),
                dims=dims or [])


def from_behaviour(rng, beh):
    names = dict(zip("ab", [word(rng), "T" + word(rng)]))
    insts = dict(zip("12", rng.sample(INSTS, 2)))
    types = {}
    steps = []
    for x in beh:
        if x["do"] == "change":
            steps.append(dict(do="table", entries=[entry(rng, names[e["name"]], insts[e["inst"]]) for e in x["tab"]]))
        elif x["do"] == "list":
            steps.append(dict(do="list"))
        else:
            parts = [dict(name=names.get(p["name"], "Memb"), idx=p["idx"]) for p in x["parts"]]
            steps.append(call(rng, parts, x["bit"], n=rng.choice([1, 1, 3]) if x["bit"] < 0 else 1))
    return dict(fw=rng.choice([32, 32, 21, 20]), steps=steps)


def history(rng, nsteps):
    """Tags in several scopes, listed or not, and paths made of few names so that they collide."""
    names = [word(rng) for _ in range(3)]
    names.append(names[0] + "1")
    members = [word(rng), "Data", names[0]]
    progs = ["Program:" + w for w in rng.sample(["Main", "P2", "x"], rng.choice([0, 1, 2]))]
    pids = dict(zip(progs, rng.sample([3, 153, 300], len(progs))))
    scopes = [""] + progs
    steps, listed, stale = [], False, True
    used = []

    def table():
        es = []
        for s in scopes:
            ns = rng.sample(names, rng.randint(0 if s == "" else 1, len(names)))
            ids = sorted(rng.sample(INSTS, len(ns)))
            es += [entry(rng, n, i, s, pids.get(s, 0), dims=rng.choice([[], [], [5], [2, 3], [2, 2, 2]])) for n, i in zip(ns, ids)]
        return dict(do="table", entries=es)
    fw = rng.choice([32, 32, 32, 21, 20, 16])
    steps.append(table())
    for _ in range(nsteps):
        k = rng.random()
        if k < 0.08:
            steps.append(table())
            stale = True
        elif k < 0.2 or (listed and stale):
            steps.append(dict(do="list"))
            listed, stale = True, False
        else:
            if used and rng.random() < 0.35:
                parts, bit = rng.choice(used)
            else:
                parts = []
                s = rng.choice(scopes)
                if s:
                    parts.append(part(s))
                parts.append(part(rng.choice(names), *[rng.choice(EDGE) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]))
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    parts.append(part(rng.choice(members), *[rng.choice(EDGE) for _ in range(rng.choice([0, 0, 1, 2]))]))
                bit = rng.choice([-1, -1, rng.randint(0, 63)])
                used.append((parts, bit))
            steps.append(call(rng, parts, bit, n=1 if bit >= 0 else rng.choice([1, 1, 1, 2, 5])))
    return dict(fw=fw, steps=steps)


def scenarios(ctx):
    rng, out = ctx.rng, []
    beh = ctx.generate("TagPathMC", GEN % ctx.pick(4, 5))
    rng.shuffle(beh)
    for b in beh[:ctx.pick(500, 5000)]:
        out.append(from_behaviour(rng, b))
    for _ in range(ctx.pick(300, 4000)):
        out.append(history(rng, rng.choice([4, 10, 30])))
    # every bit of every type, by every way of reading
    for typ in BITS:
        for b in sorted({0, 1, BITS[typ] // 2, BITS[typ] - 2, BITS[typ] - 1, BITS[typ], 31, 63} - {-1}):
            if b > 63:
                continue
            out.append(dict(fw=20, steps=[call(rng, [part(word(rng), *rng.choice([[], [3], [300]]))], b, typ, api)
                                          for api in sorted(set(READS)) for _ in range(3)]))
    # every boundary of an index in every place
    for e in EDGE:
        steps = []
        for ps in ([part("Arr", e)], [part("Arr", e, 1)], [part("Arr", 1, e)], [part("Arr", 1, 2, e)], [part("S", e), part("M")],
                   [part("S"), part("M", e)], [part("Program:P"), part("A", e)]):
            steps.append(call(rng, ps))
            steps.append(call(rng, ps))
        out.append(dict(fw=rng.choice([20, 32]), steps=steps))
    # names of every length
    for n in ctx.pick([1, 2, 3, 39, 40, 41, 126, 127, 128, 200, 254, 255], range(1, 256)):
        w = word(rng, n)
        out.append(dict(fw=20, steps=[call(rng, [part(w)]), call(rng, [part("A"), part(w)]), call(rng, [part(w, 7)])]))
    # long paths: the number of words has to fit a byte
    for k in (2, 6, 11, 12, 13, 14):
        ps = [part(word(rng, 38)) for _ in range(k)]
        size = 40 * k
        out.append(dict(fw=20, steps=[call(rng, ps, api=a, ok=size <= 510) for a in ("ptr", "list", "write", "wmap")]))
    # what is no path at all
    bad = ["arr[%d]" % (1 << 32), "arr[%d]" % ((1 << 32) + 3), "arr[1,%d]" % (1 << 33), "arr[99999999999999999999]", "arr[-1]", "arr[]", "arr[1,,2]",
           "arr[ ]", "arr[x]", "arr[1;2]", "arr[,]", "arr[1,]", "arr]", word(rng, 256), "a." + word(rng, 300), "arr[1.5]", "arr[1][2]x]"]
    for b in bad:
        out.append(dict(fw=20, steps=[call(rng, [part("arr")], api=a, ok=False, sp=b) for a in ("ptr", "single", "list", "map", "write", "wmap", "add")]))
    return out


def check_c14(ctx):
    ctx.model_check("TagPathMC", "TagPathMC.cfg")
    ctx.explain.append("TagPath.tla: a client that remembers encoded paths and addresses listed tags by instance, against a target "
                       "that renames, removes and adds tags, always asks for what the caller wrote (TLC; not forgetting at a "
                       "new listing, or sharing encodings between paths, is found); the behaviours, random histories over three "
                       "scopes, every bit of every integer type, every boundary of an index and of a name's length, and malformed "
                       "paths run through all reading and writing interfaces; requests and values are validated by TLC")
    ctx.assumptions.append("after the target has changed its tags the client lists them again before it goes on")
    ctx.conform("path", "TagPathTrace", scenarios(ctx))
