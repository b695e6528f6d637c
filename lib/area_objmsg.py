"""A01: messages to objects other than tags."""
AREA, TRACE = "objmsg", "ObjMsgTrace"
KINDS = {1: ["byte"], 2: ["int16", "uint16"], 4: ["int32", "uint32", "float32"], 8: ["int64", "uint64", "float64"], 10: ["struct"]}
EDGE = [0, 1, 2, 6, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 32767, 32768, 65534, 65535]
WIDE = EDGE + [65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]


def seg(k, n=0, s=""):
    return dict(k=k, n=n, s=s, b=[], text="", items=[])


def ans(data=(), st=0, ext=(), other=0, items=()):
    return dict(st=st, ext=list(ext), data=list(data), other=other, items=[list(i) for i in items])


def call(op, segs=(), svc=0, build="builder", path=(), data=(), attrs=(), a=None):
    return dict(do="call", op=op, svc=svc, build=build, segs=list(segs), path=list(path), data=list(data), attrs=list(attrs), ans=a or ans(), kind="")


def read(do, kind=""):
    return dict(call(""), do=do, kind=kind)


def obj(rng, attr=False):
    s = [seg("class", rng.choice(EDGE + [rng.randrange(65536)])), seg("inst", rng.choice(WIDE + [rng.randrange(1 << 32)]))]
    return s + [seg("attr", rng.choice(EDGE + [rng.randrange(65536)]))] if attr else s


def symbols(rng):
    s = []
    for _ in range(rng.randrange(1, 4)):
        s.append(seg("sym", s="".join(rng.choice("abcxyz_019") for _ in range(rng.choice([1, 2, 3, 8, 39, 40])))))
        for _ in range(rng.choice([0, 0, 1, 3])):
            s.append(seg("elem", rng.choice(WIDE)))
    return s


def some_bytes(rng, most=40):
    n = rng.choice([0, 1, 2, 3, 4, 7, 8, 9, rng.randrange(most + 1)])
    return [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]


def some_ans(rng, min_len=0):
    x = rng.random()
    data = some_bytes(rng, rng.choice([10, 60, 400]))
    if x < 0.65:
        return ans(data + [rng.randrange(256) for _ in range(max(0, min_len - len(data)))] if rng.random() < 0.8 else data)
    if x < 0.9:
        return ans(data, st=rng.choice([1, 4, 5, 6, 8, 9, 10, 0x0C, 0x0F, 0x13, 0x14, 0x1E, 0x26, 0x80, 0xFE, 0xFF, rng.randrange(1, 256)]),
                   ext=[rng.choice([0, 1, 0x2107, 0xFFFF]) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
    return ans(data, other=rng.choice([1, 2, 127, 64]))


def identity(rng, name=None):
    if name is None:
        name = "".join(rng.choice("abc XYZ-/19") for _ in range(rng.choice([0, 1, 7, 20, 32, 82, 83, 128, 255])))
    le = lambda v, n: [(v >> (8 * i)) & 255 for i in range(n)]
    b = le(rng.choice(EDGE), 2) + le(rng.choice(EDGE), 2)[::-1] + [rng.randrange(256) for _ in range(14)]
    for _ in range(5):
        b += le(rng.choice(EDGE), 2)
    return b + le(rng.choice(WIDE), 4) + [len(name)] + [ord(c) for c in name] + [rng.randrange(256)]


def service(rng):
    name = "".join(rng.choice("abcXYZ9") for _ in range(rng.choice([0, 1, 14, 15, 16])))
    return [rng.randrange(256) for _ in range(4)] + [ord(c) for c in name] + [0] * (16 - len(name))


def some_call(rng):
    x = rng.random()
    if x < 0.35:
        svc = rng.choice([1, 3, 4, 5, 6, 7, 14, 16, 0x4B, 0x4C, 0x50, 0x33, 0x7F, rng.randrange(1, 0x7F)])
        if svc in (0x54, 0x5B, 0x4E):
            svc = 0x33
        a = some_ans(rng)
        data = some_bytes(rng, rng.choice([20, 300]))
        if rng.random() < 0.2:
            return call("generic", svc=svc, build="bytes", path=long_path(rng, rng.choice([0, 1, 2, 3, 20, 253, 254])), data=data, a=a)
        return call("generic", rng.choice([obj(rng), obj(rng, True), symbols(rng)]) if rng.random() < 0.9 else obj(rng) + symbols(rng), svc=svc, data=data, a=a)
    if x < 0.6:
        return call("attr", obj(rng, True), a=some_ans(rng))
    if x < 0.85:
        return call("list", obj(rng), attrs=[rng.choice(EDGE) for _ in range(rng.choice([0, 1, 2, 3, 8, 40]))], a=some_ans(rng, 2))
    if x < 0.91:
        return call("props", a=some_ans(rng, rng.choice([38, 38, 38, 37, 40])))
    if x < 0.93:
        return forces(rng)
    if x < 0.95:
        return call("faults", a=some_ans(rng, rng.choice([138, 138, 139, 200, 137])))
    if x < 0.975:
        return call("identity", a=ans(items=[identity(rng) for _ in range(rng.choice([1, 1, 2]))]))
    return call("services", a=ans(items=[service(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]))


def forces(rng):
    a = some_ans(rng, rng.choice([8, 8, 8, 7, 12]))
    if len(a["data"]) >= 6 and rng.random() < 0.8:
        a["data"][:4] = [1, 0, 9, 0]
        a["data"][4:6] = [0, 0] if rng.random() < 0.7 else [rng.choice([0, 1, 20]), rng.choice([0, 1])]
    return call("forces", a=a)


def long_path(rng, words):
    """A path of so many words."""
    p = []
    while len(p) < 2 * words:
        left = words - len(p) // 2
        k = rng.choice([w for w in (1, 2, 3) if w <= left])
        b = rng.choice([0x24, 0x28] if k == 3 else [0x20, 0x24, 0x28, 0x30])
        n = rng.choice([300, 65535] if k == 2 else [65536, 1 << 30]) if k > 1 else rng.randrange(256)
        p += [b + k - 1] + ([n] if k == 1 else [0] + [(n >> (8 * i)) & 255 for i in range(2 * k - 2)])
    return p


def serialized(rng, c):
    """The same with the path made by Serialize, where that can."""
    if c["op"] == "generic" and c["build"] == "builder" and all(s["k"] != "sym" for s in c["segs"]) and rng.random() < 0.5:
        c["build"] = "serialize"
    return c


def reads(rng):
    L = []
    for _ in range(rng.choice([0, 0, 1, 3, 8])):
        L.append(read("rest") if rng.random() < 0.15 else read("take", rng.choice(sum(KINDS.values(), [])[:-1])))
    if rng.random() < 0.4:
        L.append(read("rest"))
    if rng.random() < 0.4:
        L.append(read("reset"))
    elif rng.random() < 0.3:
        L.append(read("take", "struct"))
    return L


def scn(steps, size=0):
    return dict(steps=steps, size=size)


GEN = """SPECIFICATION Spec
CONSTANTS
    MaxCalls = 4
    Careless = "no"
    Gen = TRUE
    MaxPathWords <- Seven
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def from_history(rng, hist):
    steps, c = [], None
    for h in hist:
        if "call" in h:
            q = h["call"]
            segs = [seg(s["k"], sum(b << (8 * i) for i, b in enumerate(s["n"]))) for s in q["steps"]]
            c = call(q["op"], segs, q["svc"], "bytes", q["path"], q["data"], [a[0] + 256 * a[1] for a in q["attrs"]])
            if c["op"] == "identity":
                c["ans"] = ans(items=[identity(rng)])
            elif c["op"] == "services":
                c["ans"] = ans(items=[service(rng)])
            steps.append(c)
        elif "st" in h:
            if c["op"] not in ("identity", "services"):
                c["ans"] = ans(h["data"], h["st"], [e[0] + 256 * e[1] for e in h["ext"]], 127 * h["s"])
        else:
            steps.append(read("take", rng.choice(KINDS[h["take"]])))
    return scn(steps)


def scenarios(ctx):
    rng, L = ctx.rng, []
    H = ctx.generate("ObjMsgMC", GEN, simulate=ctx.pick(300, 3000), depth=40)
    H = [h for i, h in enumerate(H) if i + 1 == len(H) or H[i + 1][:len(h)] != h]
    rng.shuffle(H)
    L += [from_history(rng, h) for h in H[:ctx.pick(150, 2500)]]
    for _ in range(ctx.pick(350, 5000)):
        steps = []
        for _ in range(rng.randrange(1, 7)):
            steps += [serialized(rng, some_call(rng))] + reads(rng)
        L.append(scn(steps, rng.choice([0, 0, 504, 1000])))
    # every width of every kind of segment, in every kind of call
    for k in ("class", "inst", "attr"):
        for n in (WIDE if k == "inst" else EDGE):
            o = lambda *ks: [seg(x, n if x == k else rng.choice([1, 300])) for x in ks]
            a = lambda: ans([1, 0, 2, 3])
            L.append(scn([call("generic", o("class", "inst", "attr"), svc=14, a=a()), call("generic", o("class", "inst", "attr"), svc=14, build="serialize", a=a()),
                          call("attr", o("class", "inst", "attr"), a=a()), call("list", o("class", "inst"), attrs=[n % 65536], a=a()), read("rest")]))
    # every status
    for st in range(1, 256):
        steps = []
        for c in (call("generic", obj(rng), svc=0x33), call("attr", obj(rng, True)), call("list", obj(rng), attrs=[1]), call("props"), call("forces"), call("faults")):
            c["ans"] = ans([1, 0, 9, 0, 0, 0] + [7] * 136, st=st, ext=[rng.randrange(65536)] * rng.choice([0, 1, 2]))
            steps.append(c)
        L.append(scn(steps))
    # forces: every bit of the status of the attribute and of its value
    for b in range(16):
        L.append(scn([call("forces", a=ans([1, 0, 9, 0] + d)) for d in ([0, 0, 1 << b & 255, 1 << b >> 8], [1 << b & 255, 1 << b >> 8, 3, 0], [0, 0, 255 - (1 << b & 255), 255 - (1 << b >> 8)])]))
    # faults: every byte of the answer by itself, and answers that are too short
    for n in list(range(0, 138, 6)) + [136, 137, 138, 139]:
        L.append(scn([call("faults", a=ans([0] * n + [255] + [0] * (137 - n))), call("faults", a=ans([7] * n)), call("faults", a=ans(list(range(100, 238)) + [1] * n))]))
    # every service
    for svc in range(1, 0x7F):
        if svc not in (0x54, 0x5B, 0x4E):
            L.append(scn([call("generic", obj(rng), svc=svc, data=some_bytes(rng), a=some_ans(rng)), read("rest")]))
    # paths of any length
    for w in list(range(0, 8)) + [127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258, 300, 383, 384, 511, 512, 513]:
        p = long_path(rng, w)
        L.append(scn([call("generic", svc=0x33, build="bytes", path=p, data=some_bytes(rng), a=ans([5, 6, 7])), read("rest"),
                      call("attr", obj(rng, True), a=ans([1, 2])), read("rest")]))
        if w < 256:
            L.append(scn([call("generic", svc=0x33, build="bytes", path=p + [0x20], data=[1, 2, 3], a=ans([5])), call("attr", obj(rng, True), a=ans([1, 2]))]))
    # many attributes, long answers
    for n in (64, 127, 128, 129, 200, 230, 255, 256, 257, 300, 511, 512, 700):
        L.append(scn([call("list", obj(rng), attrs=[rng.choice(EDGE) for _ in range(n)], a=ans([i % 253 for i in range(rng.choice([2, 4 * n]))])), read("rest")]))
    # names of services, as they are padded and as they are not
    for nm in ("Communications", " a", "a ", "a  b", "", " ", "sixteen sixteen ", "sixteen sixteenx"):
        L.append(scn([call("services", a=ans(items=[[1, 0, 0x20, 1] + [ord(x) for x in nm] + [0] * (16 - len(nm))] * k)) for k in (1, 3)]))
    # much data
    for n in (0, 1, 255, 256, 400, 470, 480, 1000, 1023, 1024, 3000, 3900):
        L.append(scn([call("generic", obj(rng), svc=0x33, data=[i % 256 for i in range(n)], a=ans([i % 251 for i in range(n)])), read("rest"), read("reset")]))
    return L


def check_a01(ctx):
    ctx.model_check("ObjMsgMC", "ObjMsgMC.cfg")
    ctx.model_check("ObjMsgMC", "ObjMsgMC2.cfg")
    ctx.explain.append("ObjMsg.tla: a call composed into bytes, taken apart by the device, answered, and the answer read value by value (TLC: for every object, "
                       "every answer and every way of reading, with paths shorter and longer than may be).  Histories of the model, every service, status, "
                       "width of a number and length of a path, and random calls go through the real client against a device of the harness's own; what it "
                       "was asked, what it answered and what the caller got are validated by TLC")
    ctx.assumptions.append("one call at a time; requests no longer than the connection allows")
    ctx.conform(AREA, TRACE, scenarios(ctx), batch=100)
