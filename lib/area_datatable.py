"""C12: data-table buffers."""

GEN = """SPECIFICATION Spec
CONSTANTS
    Tags = {"a", "b"}
    MaxOps = %d
    Counting = "count"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
TYPES = ["BOOL", "SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL", "STRING"]
SIZES = dict(BOOL=1, SINT=1, INT=2, DINT=4, LINT=8, UINT=2, UDINT=4, LWORD=8, BYTE=1, REAL=4, LREAL=8, STRING=88)
ARRS = ["SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL"]
STS = [5, 8, 0x13, 0xFF, 2]


def op(o, b=1, **kw):
    return dict(dict(op=o, b=b, how="", tags=[], args=[], name="", valid=True, sts=[], cut=0, seed=0), **kw)


def tag(name, typ, n=0, d=None, emb=False):
    return {"def": d or name, "name": name, "type": typ, "n": n, "emb": emb}


class World:
    """The tags of a target, and what may be added to a buffer."""

    def __init__(self, rng, scalars=6, arrays=3):
        self.rng, self.tags, self.pool = rng, [], []
        for i in range(scalars):
            name = rng.choice(["a%d", "Tag_%d", "Program:Main.x%d", "s%d.mem", "m%dval", "LongTagName_abcdefghijkl%d"]) % i
            t = rng.choice(TYPES)
            self.tags.append(dict(name=name, type=t, n=0, seed=rng.randint(1, 9999)))
            self.pool.append((name, t))
        self.arrays = []
        for i in range(arrays):
            t, n = rng.choice(ARRS), rng.choice([1, 2, 5, 12])
            name = rng.choice(["arr%d", "m%darr", "Program:P.z%d", "st[3].f%d"]) % i
            if rng.random() < 0.1:
                n = 300
            self.tags.append(dict(name=name, type=t, n=n, seed=rng.randint(1, 9999)))
            self.arrays.append((name, t, n))

    def scalar(self):
        r = self.rng
        if r.random() < 0.3 and self.arrays:
            name, t, n = r.choice(self.arrays)
            return tag("%s[%d]" % (name, r.randrange(n)), t)
        return tag(*r.choice(self.pool))

    def missing(self):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return tag("nothere%d" % r.randrange(3), r.choice(TYPES))
        if k < 0.7 and self.arrays:
            name, t, n = r.choice(self.arrays)
            return tag("%s[%d]" % (name, n + r.randrange(3)), t)
        name, t = r.choice(self.pool)
        return tag(name, r.choice([x for x in TYPES if SIZES[x] != SIZES[t]]))

    def array(self):
        r = self.rng
        name, t, n = r.choice(self.arrays)
        at = r.randrange(n)
        k = r.randint(1, min(n - at, 8))
        if r.random() < 0.3:
            return tag(name, t, n) if n > 1 and n < 100 else tag("%s[0]" % name, t, 1)
        return tag("%s[%d]" % (name, at), t, k)

    def several(self, n, arrays=True):
        """Tags that do not have an element in common."""
        out, used = [], set()
        for _ in range(n):
            t = self.array() if arrays and self.arrays and self.rng.random() < 0.4 else self.scalar()
            base = t["name"].split("[")[0] if t["name"][-1] == "]" or t["n"] else t["name"]
            if base not in used:
                used.add(base)
                out.append(t)
        return out

    def param(self, ts):
        """Names with parameters: the digits of some of them are put in."""
        args = []
        for t in ts:
            if self.rng.random() < 0.6:
                i = next((k for k, ch in enumerate(t["name"]) if ch.isdigit()), None)
                if i is not None:
                    if len(args) < 3:
                        args.append(int(t["name"][i]))
                    if int(t["name"][i]) in args:
                        t["def"] = "%s{%d}%s" % (t["name"][:i], args.index(int(t["name"][i])), t["name"][i + 1:])
        return args


def add(rng, w, b, poison=0.05):
    how = rng.choice(["one", "one", "ref", "bulk", "group", "struct"])
    args, valid = [], True
    if how in ("one", "ref"):
        ts = [w.missing() if rng.random() < poison else w.scalar()]
        if how == "one" and rng.random() < 0.05:
            ts, valid = [rng.choice([tag("arr]", "DINT"), tag("x[y]", "INT"), tag("a0", "NONE"), tag("y" * 256, "DINT")])], False
    elif how == "bulk":
        ts = w.several(rng.choice([1, 2, 5, 30]), arrays=False)
        if rng.random() < poison:
            ts.append(w.missing())
    else:
        ts = w.several(rng.choice([1, 2, 4]))
        args = w.param(ts)
        if how == "struct":
            for t in ts:
                t["emb"] = rng.random() < 0.25
        if rng.random() < 0.04 and how == "group":
            ts.append(tag("bad]", "DINT"))
            valid = False
    seen, out = set(), []
    for t in ts:                                     # a map holds each name once
        if t["name"] not in seen:
            seen.add(t["name"])
            out.append(t)
    return op("add", b, how=how, tags=out, args=args, valid=valid)


def history(ctx, steps):
    rng = ctx.rng
    w = World(rng, rng.randint(1, 8), rng.randint(0, 4))
    nb = rng.choice([1, 1, 1, 2, 3])
    ops, names = [], {b: [] for b in range(1, nb + 1)}
    fail = rng.choice([0, 0, 0.08, 0.3])
    refs = {}
    for b in names:
        ops.append(op("new", b))
    for _ in range(steps):
        b = rng.randint(1, nb)
        k = rng.random()
        sts = [rng.choice(STS)] if rng.random() < fail else []
        if k < 0.32:
            a = add(rng, w, b)
            dup = set()
            for t in a["tags"]:                      # one variable per name and buffer
                els = [t["name"]] if t["n"] < 2 else [t["name"].split("[")[0] + "[" + str(i) for i in range(400)]
                dup.update(els)
            ops.append(a)
            if a["valid"]:
                names[b] += [t["name"] for t in a["tags"]]
        elif k < 0.42:
            ops.append(op("sync", b, sts=sts))
        elif k < 0.72:
            ops.append(op("read", b, how=rng.choice(["all", "all", "typed", "raw"]), sts=[0] * rng.randint(0, 1) + sts if sts else [],
                          cut=rng.choice([1, 2, 3, 4, 7, 100, -1]) if rng.random() < fail else 0))
        elif k < 0.88 and names[b]:
            n = rng.choice(names[b])
            if rng.random() < 0.1:
                n = "unknown"
            elif "[" not in n and rng.random() < 0.3:
                n = n + "[0]"
            ops.append(op("remove", b, name=n, sts=sts))
        elif k < 0.96:
            ops.append(op("set", b, name="", seed=rng.randint(1, 999)))
        elif k < 0.98:
            ops.append(op("close", b, sts=sts))
        else:
            ops.append(op("new", b))
            names[b] = []
    ops += [op("read", b, how=h) for b in names for h in ("typed", "all")]
    return dict(tags=w.tags, ops=ops, size=rng.choice([0, 0, 0, 504, 120]), first=rng.choice([0, 0, 254, 65000]))


def bulk(rng, n, size, how):
    """Many tags at once."""
    t = rng.choice(["DINT", "SINT", "INT"])
    tags = [dict(name="z%03d" % i, type=t, n=0, seed=i + 1) for i in range(n if how == "bulk" else 0)]
    tags.append(dict(name="big", type=t, n=n, seed=77))
    ops = [op("new")]
    if how == "bulk":
        ops.append(op("add", how="bulk", tags=[tag(x["name"], t) for x in tags[:-1]]))
    else:
        ops.append(op("add", how=how, tags=[tag(rng.choice(["big", "big[0]"]) if n > 1 else "big[0]", t, n)]))
    if rng.random() < 0.5:
        ops.append(op("sync"))
    if rng.random() < 0.3:
        ops.append(op("add", how="one", tags=[tag("big[1]" if how == "bulk" else "big[%d]" % (n - 1), t)]))
    if rng.random() < 0.4:
        ops.append(op("read", how="all", sts=[0, rng.choice([0, 5]), rng.choice([0, 5])]))
    ops += [op("read", how="all"), op("set", seed=5), op("read", how="typed"),
            op("remove", name=("z%03d" if how == "bulk" else "big[%d]") % rng.randrange(n)), op("set", seed=6), op("read", how="typed")]
    return dict(tags=tags, ops=ops, size=size, first=0)


def scenarios(ctx):
    rng = ctx.rng
    out = []
    beh = ctx.generate("DataTableMC", GEN % ctx.pick(5, 6))
    rng.shuffle(beh)
    for b in beh[:ctx.pick(900, 8000)]:
        w = World(rng, 2, 1)
        one, two = w.pool[0], rng.choice([w.pool[1], ("%s[0]" % w.arrays[0][0], w.arrays[0][1])])
        name = {"a": one, "b": two}
        ops = []
        for x in b:
            if x["op"] == "add":
                ops.append(op("add", how=rng.choice(["one", "ref", "bulk", "group", "struct"]), tags=[tag(*name[x["name"]])]))
            elif x["op"] == "remove":
                ops.append(op("remove", name=name[x["name"]][0], sts=x["sts"]))
            elif x["op"] == "read":
                ops.append(op("read", how=rng.choice(["all", "typed", "raw"]), sts=x["sts"]))
                ops.append(op("set", seed=rng.randint(1, 999)))
            else:
                ops.append(op(x["op"], sts=x["sts"]))
        ops += [op("read", how="all"), op("set", seed=3), op("read", how="typed")]
        out.append(dict(tags=w.tags, ops=ops, size=0, first=0))
    for _ in range(ctx.pick(300, 3000)):
        out.append(history(ctx, rng.choice([6, 12, 25])))
    for n in (1, 2, 254, 255, 256, 257, 300, 520):
        for how in ("bulk", "group", "struct"):
            for size in (0, 504):
                out.append(bulk(rng, n, size, how))
    return out


def check_c12(ctx):
    ctx.model_check("DataTableMC", "DataTableMC.cfg")
    ctx.explain.append("DataTable.tla: the bookkeeping of a client (indices, batches and the cutting of a reply by them) is checked "
                       "against the target's list of entries over all histories of seven calls with refusals; the histories of the "
                       "model and long random ones (tags added singly, with a variable, in bulk, as group or struct, up to 520 at "
                       "once, several buffers, refused and cut replies, values changing between reads) run through the real "
                       "buffers; requests, results and variables are validated by TLC")
    ctx.assumptions.append("a buffer's index is never used again and entries keep their order, as in datatable.go's comments; a "
                           "lost connection (after which it is not known what the target did) is not part of the histories")
    ctx.conform("datatable", "DataTableTrace", scenarios(ctx))
