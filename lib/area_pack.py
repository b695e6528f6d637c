"""K01: the memory layout of structures."""

GEN = """SPECIFICATION Spec
CONSTANTS
    Fields = "%s"
    NFields = %d
    Inner = %d
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
NUMS = {1: ["int8", "uint8"], 2: ["int16", "uint16"], 4: ["int32", "uint32", "float32"], 8: ["int64", "uint64", "float64"]}
ALL = [t for ts in NUMS.values() for t in ts]
PRE = ["timer", "counter", "control", "string"]


def fld(k, t="", n=-1, sub=()):
    return dict(k=k, t=t, n=n, sub=list(sub))


def of_shape(rng, shape):
    out = []
    for f in shape:
        if f["k"] == "bool":
            out.append(fld("bool", n=f["n"] if f["n"] > 1 or rng.random() < 0.2 else -1))
        elif f["k"] == "raw":
            n = f["n"] // f["w"]
            if f["w"] == 1 and rng.random() < 0.3:
                out.append(fld("np", n=n if n > 1 else -1))
            elif f["w"] == 4 and n == 1 and rng.random() < 0.15:
                out.append(fld(rng.choice(PRE)))
            else:
                out.append(fld("num", rng.choice(NUMS[f["w"]]), n if n > 1 else -1))
        else:
            out.append(fld(f["k"], n=f["n"] if f["k"] == "many" else -1, sub=of_shape(rng, f["sub"])))
    return out


def random_field(rng, depth):
    k = rng.random()
    if k < 0.3:
        return fld("bool", n=rng.choice([-1, -1, -1, -1, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]))
    if k < 0.38:
        return fld("np", n=rng.choice([-1, -1, 1, 3, 8]))
    if k < 0.7 or depth <= 0:
        return fld("num", rng.choice(ALL), rng.choice([-1, -1, -1, -1, 0, 1, 2, 3, 5, 9]))
    if k < 0.78:
        return fld(rng.choice(PRE), n=rng.choice([-1, -1, 1, 2]))
    sub = random_fields(rng, rng.choice([1, 2, 2, 3, 4]), depth - 1)
    return fld("one", sub=sub) if rng.random() < 0.5 else fld("many", n=rng.choice([1, 2, 3, 4]), sub=sub)


def random_fields(rng, n, depth):
    return [random_field(rng, depth) for _ in range(n)]


def plain(fields):
    return all(f["k"] not in PRE + ["np"] and plain(f["sub"]) for f in fields)


def test(do, **k):
    t = dict(do=do, room=-1, less=0, more=0, dirty=False, slow=False, used=False, n=0)
    t.update(k)
    return t


def scn(rng, fields, many=False):
    ok = plain(fields)
    ts = [test("pack"), test("unpack", dirty=ok, used=rng.random() < 0.5, more=rng.choice([0, 0, 3]))]
    extra = [test("pack", room=rng.randint(0, 12)), test("unpack", slow=True, dirty=ok), test("unpack", less=rng.randint(1, 9), slow=rng.random() < 0.3),
             test("rows", n=rng.choice([0, 1, 2, 3, 5]), dirty=ok, used=rng.random() < 0.5, slow=rng.random() < 0.3),
             test("rows", n=2, less=rng.randint(1, 9), dirty=ok), test("unpack", less=1), test("pack", room=rng.randint(0, 60))]
    ts += extra if many else rng.sample(extra, 2)
    return dict(seed=rng.randrange(1 << 30), fields=fields, zero=rng.choice([0, 0, 0, 0, 1, 2]), tests=ts)


def scenarios(ctx):
    rng, out = ctx.rng, []
    shapes = ctx.generate("PackLayoutMC", GEN % ("some", 3, 1)) + ctx.generate("PackLayoutMC", GEN % ("all", ctx.pick(3, 4), 0))
    shapes += ctx.generate("PackLayoutMC", GEN % (ctx.pick("some", "all"), 2, 2))
    rng.shuffle(shapes)
    for s in shapes[:ctx.pick(1400, 30000)]:
        out.append(scn(rng, of_shape(rng, s)))
    for _ in range(ctx.pick(500, 12000)):
        out.append(scn(rng, random_fields(rng, rng.choice([1, 2, 3, 4, 5, 6, 10, 16, 24]), rng.choice([0, 1, 2, 3])), many=True))
    # runs of booleans of every length before and after a value of each width
    for n in range(1, ctx.pick(18, 70)):
        for w in (1, 2, 4, 8):
            t = rng.choice(NUMS[w])
            out.append(scn(rng, [fld("bool")] * n + [fld("num", t)] + [fld("bool")] * (n % 9) + [fld("num", "int8")]))
            out.append(scn(rng, [fld("num", "int8"), fld("bool", n=n), fld("bool"), fld("bool", n=w), fld("num", t, rng.choice([-1, 3]))]))
            out.append(scn(rng, [fld("bool")] * (n % 10) + [fld("np")] + [fld("bool")] * (n // 2) + [fld("np", n=w), fld("one", sub=[fld("bool"), fld("num", t)])]))
    # values at every offset
    for n in range(0, ctx.pick(10, 34)):
        for w in (2, 4, 8):
            out.append(scn(rng, [fld("num", "int8", n), fld("num", rng.choice(NUMS[w])), fld("num", "uint8")]))
            out.append(scn(rng, [fld("num", "int8", n), fld("one", sub=[fld("num", "int8"), fld("one", sub=[fld("num", "uint8"), fld("num", rng.choice(NUMS[w]))])]),
                                 fld("num", "int16")]))
            out.append(scn(rng, [fld("num", "int8", n), fld("many", n=3, sub=[fld("num", rng.choice(NUMS[w])), fld("bool", n=n or -1)]), fld("num", "int8")]))
    for p in PRE:
        for n in (-1, 1, 2, 3):
            for _ in range(6):
                out.append(scn(rng, [fld(p, n=n)], many=True))
                out.append(scn(rng, [fld("bool"), fld(p, n=n), fld("num", "int8"), fld("one", sub=[fld("num", "int8"), fld(p)])]))
    return out


def check_k01(ctx):
    ctx.model_check("PackLayoutMC", "PackLayoutMC.cfg")
    if ctx.thorough:
        ctx.model_check("PackLayoutMC", "PackWideMC.cfg")
    ctx.explain.append("PackLayout.tla: the layout of a structure, field by field.  TLC: every value lies on a multiple of its width, values share no "
                       "bytes, no more is left free than needed, other values give other bytes, for every structure up to the bounds; the structures "
                       "generated and random ones of up to 24 fields nested up to 4 deep are built by reflection, packed and unpacked by the real code "
                       "(also with dirty padding, missing bytes, a writer that fails, a reader that gives one byte at a time), and bytes and values "
                       "are validated by TLC")
    ctx.conform("pack", "PackLayoutTrace", scenarios(ctx), par=8)
