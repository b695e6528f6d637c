"""C09: replies that are refused, incomplete or damaged."""

GEN = """SPECIFICATION Spec
CONSTANTS
    MaxReq = 3
    Careless = "no"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
TYPES = ["BOOL", "SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL", "STRING", "UDT"]
SLICES = [t for t in TYPES if t not in ("BOOL", "BYTE", "UDT")]
READS = ["read:" + t for t in TYPES] + ["readn:" + t for t in SLICES] + ["single:" + t for t in TYPES if t not in ("UDT", "STRING")]
MULTI = ["list", "map", "multimap", "struct", "group"]
WRITES = ["write:" + t for t in TYPES if t != "UDT"] + ["write:UDT", "writen:DINT", "writen:LREAL", "writen:STRING", "wmap", "wmulti"]
OTHER = ["attr", "attrs", "props", "generic", "identity", "services"]
LISTS = ["listtags", "programs", "subtags", "members", "tattr"]
BUFFER = ["dtnew", "dtadd", "dtaddn", "dtread", "dtraw", "dttyped", "dtremove", "dtclose", "dtref", "dtstruct"]
FEW = ["read:DINT", "read:STRING", "read:UDT", "readn:INT", "readn:STRING", "big", "single:REAL", "write:DINT", "writen:DINT"] + MULTI + \
      ["wmap", "wmulti"] + OTHER + LISTS + ["connect"] + BUFFER
ALL = READS + ["big"] + MULTI + WRITES + OTHER + LISTS + ["connect"] + BUFFER
# the requests an operation sends to a target that answers as it should, at most
REQS = {"big": 3, "listtags": 12, "programs": 3, "subtags": 2, "members": 6, "connect": 3, "dtnew": 1}
STATUSES = [1, 2, 3, 4, 5, 6, 8, 10, 15, 19, 30, 0x2C, 0x80, 0xD0, 0xFF]


def fault(kind, k=1, n=0, m=0, name=""):
    return dict(k=k, kind=kind, n=n, m=m, name=name)


def step(op, *faults):
    return dict(op=op, faults=list(faults))


def scn(steps, rng, **kw):
    slow = any(f["kind"] == "stall" or f["name"] in ("len+", "len1") for s in steps for f in s["faults"])
    size = 504 if any(s["op"] == "big" for s in steps) else rng.choice([0, 0, 504])
    d = dict(steps=steps, size=size, tmo=300 if slow else 3000, fw=rng.choice([32, 32, 20]), fresh=False, list=rng.random() < 0.3)
    d.update(kw)
    return d


def concrete(rng, kind, k):
    """One of the ways in which a reply can be damaged as in the specification."""
    big = rng.randint(1, 1 << 30)
    if kind == "status":
        return fault("status", k, rng.choice(STATUSES), rng.choice([0, 0, 1, 2]))
    if kind == "encap":
        return fault("encap", k, rng.choice([1, 2, 3, 0x64, 0x65, 0x69, big]), rng.choice([0, 1]))
    if kind == "cut":
        return fault("cut", k, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -1, -2, -3, -4, -5]))
    if kind == "body":
        return fault("body", k, rng.choice([0, 1, 2, 5, 6, 8, 10, 14, 16, 18, 20, 22, -1, -2, -4, -8]))
    if kind == "count":
        return fault("field", k, rng.choice([0, 1, 3, 255, 65535]), name=rng.choice(["count", "mcount"]))
    if kind == "odd":
        name = rng.choice(["cmd", "session", "context", "options", "handle", "timeout", "type0", "type1", "seq", "svc", "reserved"])
        return fault("field", k, rng.choice([0, 1, 3, 0xB1, 0xA1, 255, 65535]), name=name)
    if kind == "data":
        c = rng.randint(0, 6)
        if c == 0:
            return fault("more", k, rng.choice([1, 2, 3, 4, 100, 2000]), rng.randint(0, 9))
        if c == 1:
            return fault("junk", k, rng.choice([0, 1, 6, 16, 20, 30, 50, 200]), rng.randint(0, 99))
        if c == 2:
            return fault("bytes", k, rng.choice([1, 1, 2, 5]), rng.randint(0, 9999))
        if c == 3:
            return fault("field", k, rng.choice([0, 0xC1, 0xC3, 0xC4, 0xC5, 0xA0, 0xD3, 0xFF]), name="type")
        if c == 4:
            return fault("field", k, rng.choice([1, 2, 3, 7, 100, 255]), name="ext")
        if c == 5:
            return fault("field", k, rng.choice([0, 1, 2, 3, 6, 20, 65000, 65535]), rng.randint(0, 6), "moff")
        return fault("field", k, rng.choice([1, 3, 65535]), name="len0")
    if kind == "lost":
        c = rng.randint(0, 9)
        if c < 5:
            return fault("tcp", k, rng.choice([0, 1, 12, 23, 24, 25, 30, 40, 44, 46, 48, 50, 52, -1, -2, -3]))
        if c == 5:
            return fault("stall", k, rng.choice([0, 1, 23, 24, 30, 44, 46, 50, -1]))
        if c == 6:
            return fault("field", k, rng.choice([1, 2, 4, 8, 2000, 60000]), name="len+")
        if c == 7:
            return fault("field", k, rng.choice([1, 2, 4, 8, 2000]), name="len1")
        return fault("field", k, rng.choice([1, 2, 4, 8, 10]), name="len-")
    if kind == "stray":
        return fault("stray", k, rng.choice([1, 2, 23, 24, 25, 100]), rng.randint(0, 99))
    raise KeyError(kind)


def scenarios(ctx):
    rng, out = ctx.rng, []
    # every operation with good replies only, one after the other
    out.append(scn([step(o) for o in ALL if o != "connect"], rng))
    out.append(scn([step("connect")] + [step(o) for o in FEW if o != "connect"], rng, list=True))
    # sequences of damages generated from the specification
    beh = [b for b in ctx.generate("RepliesMC", GEN)]
    for b in beh:
        faults = [concrete(rng, k, i + 1) for i, k in enumerate(b) if k != "good"]
        if not faults:
            continue
        op = rng.choice(ALL if len(b) == 1 else ["big", "connect", "listtags", "programs", "subtags", "members", "group", "wmap", "list"])
        if faults[0]["k"] > 1 or rng.random() < 0.5:
            out.append(scn([step(op, *faults)], rng))
        else:
            out.append(scn([step(op, *faults), step(rng.choice(FEW)), step(op)], rng))
    # every damage to every request of every operation
    for op in ALL if ctx.thorough else FEW + rng.sample(ALL, 20):
        for k in range(1, REQS.get(op, 1) + 1):
            if k > 4 and not ctx.thorough and rng.random() < 0.5:
                continue
            for kind in ("status", "encap", "cut", "body", "count", "odd", "data", "lost", "stray"):
                for _ in range(ctx.pick(1, 8)):
                    out.append(scn([step(op, concrete(rng, kind, k))], rng))
    # every length of a reply, every byte after which the connection ends, every status
    for op in rng.sample(ALL, ctx.pick(10, len(ALL))):
        k = rng.randint(1, REQS.get(op, 1))
        steps = [step(op, fault("cut", k, n)) for n in range(0, 20)] + [step(op, fault("cut", k, -n)) for n in range(1, 12)]
        out.append(scn(steps, rng))
        out.append(scn([step(op, fault("tcp", k, n)) for n in range(0, 60, 3)], rng))
        out.append(scn([step(op, fault("body", k, n)) for n in range(0, 30)], rng))
        out.append(scn([step(op, fault("status", k, n, rng.choice([0, 1]))) for n in STATUSES], rng))
    # what is wrong in one reply must not show in the next
    for _ in range(ctx.pick(60, 1500)):
        steps = []
        for _ in range(rng.randint(2, 6)):
            op = rng.choice(ALL)
            fs = [] if rng.random() < 0.4 else [concrete(rng, rng.choice(["status", "encap", "cut", "body", "count", "odd", "data", "lost"]),
                                                         rng.randint(1, REQS.get(op, 1)))]
            steps.append(step(op, *fs))
        out.append(scn(steps, rng, fresh=rng.random() < 0.3))
    return out


def relax(scn):
    s = dict(scn)
    s["tmo"] = max(s["tmo"] * 5, 1500)
    return s


def check_c09(ctx):
    ctx.model_check("RepliesMC", "RepliesMC.cfg")
    ctx.explain.append("Replies.tla: an operation stores its result only if every reply it got is good, and the client can be used "
                       "afterwards; model-checked over all sequences of damages (a client that ignores a status, takes a short "
                       "reply or stores early is found); the generated damages, every kind of damage to every request of every "
                       "operation, every length of a reply and random histories run through the client, validated by TLC")
    ctx.assumptions.append("bytes on the connection that belong to no reply may make requests fail until the caller connects again")
    ctx.conform("replies", "RepliesTrace", scenarios(ctx), relax=relax, par=48)
