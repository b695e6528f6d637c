"""C06: fragmented reads."""

GEN_CFG = """SPECIFICATION Spec
CONSTANTS
    MaxTotal = %(size)d
    MaxReplies = %(replies)d
    Sizes = {%(size)d}
    Statuses = {0, 6, 5}
    Faults = {"", "silent"}
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""

TYPES = [("SINT", 1), ("INT", 2), ("DINT", 4), ("REAL", 4), ("LINT", 8), ("USINT", 1), ("UINT", 2), ("UDINT", 4),
         ("LREAL", 8), ("LWORD", 8), ("BYTE", 1), ("WORD", 2), ("DWORD", 4)]


def with_timeout(sc):
    if any(s["fault"] == "silent" for s in sc["steps"]):
        sc["tmo"] = 250
    return sc


def relax(sc):
    sc = dict(sc)
    if sc.get("tmo"):
        sc["tmo"] = max(2500, sc["tmo"])
    return sc


def scenarios(ctx):
    rng = ctx.rng
    out = []
    beh = ctx.generate("FragReadMC", GEN_CFG % dict(size=4, replies=ctx.pick(4, 5)))
    rng.shuffle(beh)
    silent = [b for b in beh if any(s["fault"] for s in b["steps"])]
    plain = [b for b in beh if b not in silent]
    for i, b in enumerate(plain[:ctx.pick(400, 4000)] + silent[:ctx.pick(60, 400)]):
        # the abstract value is 4 units long; give the units different concrete sizes
        steps = [dict(s) for s in b["steps"]]
        if b["struct"]:
            unit = 3 * (1 + i % 4)           # 12-byte elements
            whole = b["steps"][0]["st"] == 0 and b["steps"][0]["n"] == 4
            sc = dict(type="UDT", elems=4 * unit // 12, start=-1, api="udts")
            if unit == 3:
                sc["api"] = "udt"
            if (whole or b["steps"][0]["st"] == 6) and i % 3 == 0:
                sc["api"] = "single"          # raw bytes: how many there should be is not known to the client
        else:
            typ, size = TYPES[i % len(TYPES)]
            unit = [1, 2, 3, 5, 16, 120][i % 6] if size < 8 else [2, 4, 6, 10, 64][i % 5]
            while 4 * unit % size:
                unit += 1
            n = 4 * unit // size
            sc = dict(type=typ, elems=n, start=[-1, 0, 3, 17][i % 4], api="slice")
            if n == 1:
                sc["api"] = "ptr"
            elif i % 5 == 0:
                sc["api"] = "single"
        for s in steps:
            s["n"] *= unit
        sc.update(steps=steps, tmo=0, seed=i)
        out.append(with_timeout(sc))
    # transport faults at every point, replies that break inside an element, long values
    for fault in ["close", "cut", "short", "encap"]:
        for k in range(3):
            for typ, size in [("DINT", 4), ("REAL", 4), ("INT", 2)]:
                steps = [dict(n=7, st=6, fault="")] * k + [dict(n=0, st=0, fault=fault)]
                out.append(dict(type=typ, elems=12, start=[-1, 2][k % 2], api="slice", steps=steps, tmo=0, seed=k))
    for st in [0x01, 0x02, 0x05, 0x08, 0x0B, 0x1E, 0xFF]:
        for k in range(3):
            steps = [dict(n=5 + k, st=6, fault="")] * k + [dict(n=0, st=st, fault="")]
            out.append(dict(type="DINT", elems=9, start=-1, api="slice", steps=steps, tmo=0, seed=st))
    for i in range(ctx.pick(40, 400)):
        typ, size = rng.choice(TYPES)
        n = rng.randint(2, 40)
        left, steps = n * size, []
        while left > 0 and rng.random() < 0.9:
            k = rng.randint(1, max(1, min(left, rng.choice([3, 9, 50, 200]))))
            steps.append(dict(n=k, st=6, fault=""))
            left -= k
        if left == 0:
            pass                     # ends with an empty final transfer
        if steps and rng.random() < 0.15:
            steps[-1] = dict(n=0, st=6, fault="")
        out.append(dict(type=typ, elems=n, start=rng.choice([-1, 0, 1, 255, 256, 300]), api=rng.choice(["slice", "single"]),
                        steps=steps, tmo=0, seed=i))
    for words, chunk in [(2, 3), (5, 4), (64, 100)]:
        out.append(dict(type="UDINT", elems=words, start=-1, api="bools", tmo=0, seed=words,
                        steps=[dict(n=chunk, st=6, fault="")] * (words * 4 // chunk - 1)))
    # strings: never in fragments
    for n in (1, 2, 3, 5, 11):
        for api in ["strings", "stringsingle"] + (["string"] if n == 1 else []):
            for steps in [[], [dict(n=88 * n, st=6, fault="")], [dict(n=44, st=6, fault="")], [dict(n=88 * (n - 1) + 87, st=6, fault="")],
                          [dict(n=4, st=6, fault="")], [dict(n=50, st=6, fault="")] * 3, [dict(n=0, st=6, fault="")],
                          [dict(n=88, st=0, fault="")], [dict(n=0, st=5, fault="")]]:
                if len(steps) == 1 and steps[0]["st"] == 0 and (steps[0]["n"] == 88 * n or n == 1):
                    continue
                out.append(dict(type="STRING", elems=n, start=rng.choice([-1, 0, 2]), api=api, steps=steps, tmo=0, seed=n))
    # offsets beyond one and two bytes
    for typ, n, chunk in [("DINT", 100, 37), ("DINT", 2000, 480), ("INT", 40000, 4000), ("DINT", 20000, 3990),
                          ("LINT", 10000, 8001), ("SINT", 65535, 480)]:
        size = dict(TYPES)[typ]
        steps = [dict(n=chunk, st=6, fault="")] * (n * size // chunk)
        out.append(dict(type=typ, elems=n, start=-1, api="slice", steps=steps, tmo=0, seed=n))
    return out


def check_c06(ctx):
    ctx.model_check("FragReadMC", "FragReadMC.cfg")
    scs = scenarios(ctx)
    ctx.explain.append("FragRead.tla checked exhaustively for values of 4 units and up to 5 replies; its behaviours "
                       "(the target's decisions) are replayed through Client.Read/Read_single against a scripted target "
                       "and every observed request, reply and result is validated against the specification")
    ctx.assumptions.append("a target reply carries bytes of the addressed value from the offset asked for")
    ctx.conform("frag", "FragReadTrace", scs, relax=relax)
