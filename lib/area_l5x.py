"""L01: project files."""
AREA, TRACE = "l5x", "ProjectTrace"
BITS = {"SINT": 8, "INT": 16, "DINT": 32, "LINT": 64}
DIGITS = {2: lambda w: w, 8: lambda w: (w + 2) // 3, 16: lambda w: w // 4}


def val(k, t, **x):
    return dict(dict(k=k, t=t, neg=False, base=10, dig=[], num=0, s="", m=[], e=[]), **x)


def digits(n, base):
    d = []
    while n or not d:
        n, r = divmod(n, base)
        d.insert(0, r)
    return d


def num(t, n, base=10):
    """n, which is in the range of the type"""
    w = BITS[t]
    if base == 10:
        return val("num", t, neg=n < 0, dig=digits(abs(n), 10))
    d = digits(n % (1 << w), base)
    return val("num", t, base=base, dig=[0] * (DIGITS[base](w) - len(d)) + d)


def some_num(rng, t=None):
    t = t or rng.choice(list(BITS))
    w = BITS[t]
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    n = rng.choice([0, 1, -1, lo, hi, lo + 1, 7, 10, 100, -100, rng.randint(lo, hi), rng.randint(lo, hi), 1 << rng.randrange(w - 1)])
    return num(t, n, rng.choice([10, 10, 16, 2, 8]))


def atom(rng, t=None):
    t = t or rng.choice(list(BITS) + ["BOOL", "REAL"])
    if t in ("BOOL", "BIT"):
        return val("bool", t, num=rng.randrange(2))
    if t == "REAL":
        return val("real", t, num=rng.choice([0, 1, -1, 1024, -1024, 1536, rng.randint(-10**6, 10**6), rng.randint(-2**31 + 1, 2**31 - 1)]))
    return some_num(rng, t)


WORDS = ["level", "pump 2", "a & b", "<x>", "two\nlines", "it's", "100 %", "naïve", "x; y", "[1]", "a", '"q" z']


def text(rng, empty=0.2):
    return "" if rng.random() < empty else " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3])))


def names(rng, n, pre="T"):
    pool = ["a", "A_1", "Level", "level2", "x", "y", "z9", "Pump", "PUMP_2", "Motor_Run", "i", "Timer1", "zz_top", "B", "c3"]
    rng.shuffle(pool)
    return [p if rng.random() < 0.7 else pre + p for p in pool[:n]]


def struct(rng, strings=False):
    m = [dict(name=n, desc="", alias=False, val=atom(rng, rng.choice([None, None, "BIT"]))) for n in names(rng, rng.randrange(0, 6), "m")]
    if strings:
        m.append(dict(name="DATA", desc="", alias=False, val=val("text", "STRING", s=text(rng))))
    return val("struct", rng.choice(["UDT1", "UDT2", "UDT3", "UDT4"]), m=m)


def tag(rng, name, flat=False):
    if rng.random() < 0.1:
        return dict(name=name, desc="", alias=True, val=val("none", ""))
    x = 0 if flat else rng.random()
    if x < 0.5:
        v = atom(rng)
    elif x < 0.65:
        v = struct(rng)
    elif x < 0.85:
        t = rng.choice(list(BITS) + ["BOOL", "REAL"])
        v = val("arr", t, e=[atom(rng, t) for _ in range(rng.choice([1, 2, 3, 9, 10, 11, 32]))])
    else:
        strings = rng.random() < 0.5
        v = val("arr", "UDT2", e=[struct(rng, strings) for _ in range(rng.choice([1, 2, 5, 12]))])
    return dict(name=name, desc=text(rng, 0.5), alias=False, val=v)


def types(rng, n):
    """types, each of which may have members of those before it"""
    L = []
    for k in range(n):
        m = [dict(name=x, t=rng.choice(["DINT", "BOOL", "TIMER"] + [y["name"] for y in L] * 2), desc=text(rng, 0.4), open=False)
             for x in names(rng, rng.randrange(0, 5), "m")]
        if rng.random() < 0.3:
            at = rng.randrange(len(m) + 1)
            m[at:at] = [dict(name="ZZZZZZZZZZUDT%d0" % (k + 1), t="SINT", desc="", open=True)] + \
                       [dict(name="b%d" % i, t="BIT", desc=text(rng, 0.4), open=True) for i in range(rng.choice([1, 3, 8]))]
        L.append(dict(name="UDT%d" % (k + 1), desc=text(rng, 0.4), members=m))
    rng.shuffle(L)
    return L


def project(rng):
    small = rng.random() < 0.3
    n = lambda k: rng.randrange(0, 2 if small else k)
    progs = [dict(name=p, tags=[tag(rng, x) for x in names(rng, n(7))],
                  routines=[dict(name=r, rungs=[dict(at=str(i), text=text(rng, 0.4)) for i in range(n(5))]) for r in names(rng, n(4), "R")])
             for p in names(rng, n(5), "P")]
    tasks, left = [], [p["name"] for p in progs]
    rng.shuffle(left)
    for t in names(rng, n(4), "task"):
        k = rng.randrange(0, len(left) + 1)
        tasks.append(dict(name=t, progs=left[:k]))
        left = left[k:]
    ops = [".0", ".DATA.1", "[0].2", ".Ch0Data", ".DATA[3].17"]
    notes = lambda: [dict(op=o, text=text(rng)) for o in rng.sample(ops, n(5))]
    return dict(types=types(rng, rng.choice([0, 0, 1, 2, 4])), ctrl=[tag(rng, x, rng.random() < 0.6) for x in names(rng, n(9))], progs=progs, tasks=tasks,
                mods=[{"name": m, "in": notes(), "out": notes(), "bare": 0} if rng.random() < 0.7 else
                      {"name": m, "in": [], "out": [], "bare": rng.randrange(1, 5)} for m in names(rng, n(5), "M")],
                lean=rng.random() < 0.5, l5k=rng.random() < 0.7, text=rng.random() < 0.2, force=rng.random() < 0.3)


def one(v, **x):
    t = lambda n, w: dict(name=n, desc="", alias=False, val=w)
    return dict(dict(types=[], ctrl=[t("v", v)], progs=[dict(name="p", tags=[t("v", v), t("w", val("arr", v["t"], e=[v, v])), t("s", val("struct", "U", m=[t("m", v)]))], routines=[])],
                     tasks=[], mods=[], lean=False, l5k=True, text=False, force=False), **x)


def scenarios(ctx):
    rng, L = ctx.rng, []
    for t, w in BITS.items():
        edge = {0, 1, 2, 9, 10, 100, (1 << (w - 1)) - 1, -1, -2, -(1 << (w - 1))} | {1 << i for i in range(w - 1)} | {-(1 << i) for i in range(w)}
        for n in sorted(edge):
            if ctx.thorough or w < 32 or n in (0, 1, -1) or rng.random() < 0.4:
                for base in (2, 8, 10, 16):
                    L.append(one(num(t, n, base), l5k=rng.random() < 0.5))
    for n in (0, 1, -1, 512, 1024, -1536, 2**31 - 1, -2**31 + 1):
        L.append(one(val("real", "REAL", num=n)))
    for b in (0, 1):
        L.append(one(val("bool", "BOOL", num=b)))
    L += [project(rng) for _ in range(ctx.pick(500, 8000))]
    return L


def check_l01(ctx):
    ctx.model_check("ProjectMC", "ProjectMC.cfg")
    ctx.model_check("ProjectNotesMC", "ProjectNotesMC.cfg")
    ctx.explain.append("Project.tla: what a project file states - values by their digits, in whose scope, comments by their places - and what loading it may give; "
                       "TLC checks a loader that goes through the file digit by digit and tag by tag, and one that goes through the types of tags level by level, against it.  Files are written from abstract projects (every "
                       "base and edge value of every type, random projects), loaded by the real code and the results validated by TLC")
    ctx.assumptions.append("files as Studio 5000 writes them; values of the types SINT, INT, DINT, LINT, REAL, BOOL and text of strings in arrays of structures; "
                           "places of comments to bits of structures are left open")
    ctx.conform(AREA, TRACE, scenarios(ctx), batch=100)
