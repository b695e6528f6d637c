"""K02: route paths."""

GEN = """SPECIFICATION Spec
CONSTANTS
    MaxItems = %d
    Nums = {0, 1, 2, 14, 18, 255}
    Lens = {7, 14}
    Padded = TRUE
    Gen = TRUE
CONSTRAINT Emit
ACTION_CONSTRAINT Writing
CHECK_DEADLOCK FALSE
"""
BADS = ["", "x", "-1", "256", "1000", "99999999999999999999", "1x", "0x10", "--", "1;2", "slot", "a", "4294967297", "1e2"]


def num(n):
    return dict(k="num", n=n, s="")


def addr(s):
    return dict(k="addr", n=0, s=s)


def badit(s):
    return dict(k="bad", n=0, s=s)


def ip(rng, n=None):
    while True:
        s = ".".join(str(rng.choice([rng.randrange(10), rng.randrange(10, 100), rng.randrange(100, 256)])) for _ in range(4))
        if n is None or len(s) == n:
            return s


def address(rng):
    k = rng.random()
    if k < 0.7:
        return ip(rng)
    n = rng.choice([3, 4, 5, 16, 17, 30, 31, 63, 64, 127, 128, 200])
    return host(rng, n)


def host(rng, n):
    s = [rng.choice("abcxyz0123456789-") for _ in range(n)]
    s[n // 2] = "."
    s[0], s[-1] = "p", "c"
    return "".join(s)


def text(rng, items, plain=False):
    t = [str(i["n"]) if i["k"] == "num" else i["s"] for i in items]
    sep = ","
    if not plain and rng.random() < 0.2:
        sep = ", "
    s = sep.join(t)
    if items and not plain and rng.random() < 0.08:
        s = "[" + s + "]"
    return s


def parse(rng, items, plain=False):
    if len(items) == 1 and items[0]["k"] == "bad" and items[0]["s"] == "":
        items = [badit("x")]                # no text at all is the empty path
    return dict(do="parse", text=text(rng, items, plain), items=items, steps=[], id=0, size=0)


def from_shape(rng, shape):
    return [num(x["n"]) if x["k"] == "num" else addr(ip(rng, x["l"])) if x["k"] == "addr" else badit(rng.choice(BADS)) for x in shape]


def hop(rng, anyport=False):
    p = rng.choice([1, 1, 2, 2, 3, 14, rng.randrange(0, 15)])
    return [num(p), addr(address(rng)) if rng.random() < 0.5 else num(rng.choice([0, 1, 2, 16, 17, 46, 145, 254, 255, rng.randrange(256)]))]


def route(rng, n):
    return [x for _ in range(n) for x in hop(rng)]


def step(k, n=0, s="", b=(), items=(), text=""):
    return dict(k=k, n=n, s=s, b=list(b), items=list(items), text=text)


EDGE = [0, 1, 2, 16, 127, 128, 145, 254, 255, 256, 257, 511, 512, 4660, 32767, 32768, 65279, 65280, 65534, 65535]
WIDE = EDGE + [65536, 65537, 65791, 65792, 1 << 17, 0x123456, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
LIMIT = dict(class_=EDGE)
CUSTOM = [[0x20, 6, 0x24, 1], [0x21, 0, 0x2C, 1], [0x91, 3, 97, 98, 99, 0], [1, 3], [0x28, 9]]


def logical(rng):
    k = rng.choice(["class", "inst", "attr", "elem"])
    return step(k, rng.choice(WIDE if k in ("inst", "elem") else EDGE))


def build(rng, n, bad=False):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.55:
            out.append(logical(rng))
        elif k < 0.7:
            w = rng.choice([1, 2, 3, 7, 8, 39, 40, 254, 255] + ([256, 300] if bad else []))
            out.append(step("sym", s=rng.choice("abcXYZ_") + "".join(rng.choice("abcXYZ_0123456789") for _ in range(w - 1))))
        elif k < 0.85:
            out += [step("port", rng.choice([0, 1, 2, 3, 14])), step(rng.choice(["slot", "addr"]), rng.choice([0, 1, 2, 16, 254, 255]))]
        elif k < 0.93:
            items = route(rng, rng.choice([0, 1, 2, 3]))
            if bad and rng.random() < 0.5:
                items = items[:2] + [badit("x")] + items[2:]
            out.append(step("parse", items=items, text=text(rng, items)))
        else:
            out.append(step("custom", b=rng.choice(CUSTOM)))
    return dict(do="build", text="", items=[], steps=out, id=0, size=0)


def serialize(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.75:
            out.append(logical(rng))
        else:
            out += [step("port", rng.choice([0, 1, 2, 3, 14])), step("addr", rng.choice([0, 1, 2, 16, 254, 255]))]
    return dict(do="serialize", text="", items=[], steps=out, id=0, size=0)


def segments(steps):
    return dict(do="segment", text="", items=[], steps=steps, id=0, size=0)


def near(rng, items):
    """A path that is nearly this one."""
    out = [dict(i) for i in items]
    if not out:
        return route(rng, 1)
    i = rng.randrange(len(out))
    k = rng.random()
    if k < 0.3:
        return out + hop(rng)
    if k < 0.5:
        return out[:-2]
    if out[i]["k"] == "num":
        out[i]["n"] = (out[i]["n"] + rng.choice([1, 2])) % (15 if i % 2 == 0 else 256)
    else:
        s = out[i]["s"]
        out[i]["s"] = s + "0" if rng.random() < 0.3 else s[:-1] + rng.choice("0123456789") if rng.random() < 0.5 else rng.choice("0123456789") + s
    return out


def reach_scn(rng):
    paths = [route(rng, rng.choice([1, 1, 1, 2, 3]))]       # (a server with a provider under no route at all is left open)
    for _ in range(rng.choice([1, 2, 4])):
        paths.append(near(rng, rng.choice(paths)) if rng.random() < 0.6 else route(rng, rng.choice([1, 1, 2, 3, 5])))
    paths = [p for p in paths if p]
    ops, n = [], 0
    for p in rng.sample(paths, len(paths)):
        n += 1
        ops.append(dict(do="handle", text=text(rng, p), items=p, steps=[], id=n, size=0))
    for _ in range(rng.choice([2, 3, 5])):
        p = rng.choice(paths)
        if rng.random() < 0.35:
            p = near(rng, p) or p
        ops.append(dict(do="reach", text=text(rng, p), items=p, steps=[], id=0, size=rng.choice([0, 0, 0, 504, 511, 4002])))
    if rng.random() < 0.3:          # another provider takes the path over
        p = rng.choice(paths)
        ops.append(dict(do="handle", text=text(rng, p), items=p, steps=[], id=n + 1, size=0))
        ops.append(dict(do="reach", text=text(rng, p), items=p, steps=[], id=0, size=0))
    return dict(ops=ops)


def scenarios(ctx):
    rng, out = ctx.rng, []
    shapes = ctx.generate("RoutePathMC", GEN % ctx.pick(4, 5))
    rng.shuffle(shapes)
    ops = [parse(rng, from_shape(rng, s)) for s in shapes[:ctx.pick(4000, 40000)]]
    for n in range(0, 12):
        for _ in range(ctx.pick(30, 400)):
            ops.append(parse(rng, route(rng, n)))
    for n in range(7, 16):                          # every length of an address
        for _ in range(4):
            ops.append(parse(rng, [num(2), addr(ip(rng, n)), num(1), num(rng.randrange(256))]))
            ops.append(parse(rng, [num(1), num(0), num(2), addr(ip(rng, n)), num(2), addr(ip(rng))]))
    for n in list(range(3, 40)) + [100, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512, 600]:
        ops.append(parse(rng, [num(1), addr(host(rng, n)), num(1), num(3)]))
    for n in range(256):                            # every number
        ops.append(parse(rng, [num(n), num(255 - n)]))
        if n < 15:
            ops.append(parse(rng, [num(n), addr(ip(rng))]))
    for b in BADS:                                  # everything bad in every place
        for k in range(0, 5):
            r = route(rng, 2)
            if b or k:
                ops.append(parse(rng, r[:k] + [badit(b)] + r[k:], plain=True))
                ops.append(parse(rng, r[:k] + [badit(b)] + r[k + 1:], plain=True))
    ops.append(parse(rng, []))
    for n in range(1, 9):
        for _ in range(ctx.pick(40, 600)):
            ops.append(build(rng, n))
            ops.append(serialize(rng, n))
        for _ in range(ctx.pick(5, 60)):
            ops.append(build(rng, n, bad=True))
    for k in ("class", "inst", "attr", "elem"):
        vals = range(0, 65536, ctx.pick(251, 7))
        steps = [step(k, v) for v in sorted(set(list(vals) + (WIDE if k in ("inst", "elem") else EDGE)))]
        for i in range(0, len(steps), 40):
            ops.append(segments(steps[i:i + 40]))
            ops.append(dict(segments(steps[i:i + 40]), do="build"))
    rng.shuffle(ops)
    for i in range(0, len(ops), 25):
        out.append(dict(ops=ops[i:i + 25]))
    return out


def check_k02(ctx):
    ctx.model_check("RoutePathMC", "RoutePathMC.cfg")
    rng = ctx.rng
    ctx.explain.append("RoutePath.tla: texts read item by item and taken apart again (TLC: what a text denotes is taken apart into its route, no two "
                       "routes share their bytes, without the padding they do; a provider is reached under its route only).  All texts of the model, every "
                       "number, every length of an address, everything malformed in every place, and random paths built step by step go through the real "
                       "code; clients configured with paths read from a real server with providers under equal and nearly equal paths; bytes and providers "
                       "are validated by TLC")
    ctx.conform("route", "RoutePathTrace", scenarios(ctx), batch=100)
    ctx.conform("reach", "RoutePathTrace", [reach_scn(rng) for _ in range(ctx.pick(250, 4000))], procs=8)
    # a path as long as it may be, and longer
    long = []
    for n, m in [(10, 0), (20, 0), (25, 0), (28, 0), (30, 0), (31, 0), (31, 4), (31, 5), (31, 6), (31, 7), (32, 0), (33, 0), (60, 0), (32, 6), (33, 6), (64, 6), (96, 6)]:
        r = [x for _ in range(n) for x in (num(2), addr(ip(rng, 14)))] + [num(1), num(7)] * m
        ops = [dict(do="handle", text=text(rng, p), items=p, steps=[], id=i + 1, size=0) for i, p in enumerate([r, r[:2]])]
        ops += [dict(do="reach", text=text(rng, r), items=r, steps=[], id=0, size=z) for z in (0, 504)]
        long.append(dict(ops=ops))
    ctx.conform("reach", "RoutePathTrace", long, procs=4)
