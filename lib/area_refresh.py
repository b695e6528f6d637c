"""C15: keepalive that polls tags."""

GEN = """SPECIFICATION Spec
CONSTANTS
    Want = %s
    MaxChanges = 3
    MaxConns = 2
    MaxPolls = 4
    Pages = 1
    Careless = "no"
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
NAMES = ["Speed", "x", "Tag_%d", "Motor%d", "LongTagName_abcdefghijklmnopq%d", "q%dz"]


def versions(rng, k, program):
    """Tags that come, go and change places; one stays where it is."""
    pool = [rng.choice(NAMES) for _ in range(rng.randint(2, 9))]
    pool = list({(n % i if "%" in n else n): 0 for i, n in enumerate(pool)})
    if program:
        pool += ["Program:Main." + n for n in pool[:3]]
    keep = rng.randint(1, 12)
    out = []
    for v in range(k):
        tags = [dict(name="Keep", inst=keep, val=4711)]
        insts = [i for i in range(1, 14 + 3 * v) if i != keep]
        rng.shuffle(insts)
        for i, n in enumerate(pool):
            if rng.random() < 0.75:
                tags.append(dict(name=n, inst=insts[i], val=1000 * (i + 1) + rng.choice([0, v])))
        out.append(tags)
    return out


def scn(rng, ops, want=True, **k):
    program = rng.random() < 0.4
    props = rng.choice([[1, 2, 3, 4, 10], [1, 2, 3, 4, 10], [10], [4, 1], [3, 65000, 2]])
    ops = [o if isinstance(o, dict) else dict(op=o, n=0) for o in ops]
    return dict(dict(want=want, props=props, period=rng.choice([2, 5, 10]), page=rng.choice([0, 1, 2, 3]), program=program,
                     noprog=not program and rng.random() < 0.3, prop=rng.randint(0, 4), refuse=0, readers=0, match=False, hurry=False, fw=rng.choice([20, 24, 33]), ops=ops,
                     versions=versions(rng, 1 + sum(o["op"] in ("change", "midchange") for o in ops), program)), **k)


def histories(ctx):
    rng = ctx.rng
    out = []
    for want in (True, False):
        beh = ctx.generate("RefreshMC", GEN % str(want).upper())
        rng.shuffle(beh)
        for b in beh[:ctx.pick(120 if want else 30, 900)]:
            # between two polls of the model the real client may poll more often
            ops = list(b["ops"])
            for i, o in enumerate(ops):
                if o == "change" and rng.random() < 0.3:
                    ops[i] = "midchange"
            out.append(scn(rng, ops, want=b["want"]))
    for i in range(ctx.pick(60, 900)):
        ops = ["connect"]
        for _ in range(rng.randint(3, 9)):
            ops += rng.choice([["change"], ["change"], ["midchange"], ["change", "midchange"], ["midchange", "midchange"], ["change", "change"], ["poll"],
                               ["poll", "poll", "poll"], ["settle"], [dict(op="sleep", n=rng.choice([1, 3, 7]))], ["leave", "connect"],
                               ["leave", "change", "connect"], ["drop", "connect"], ["drop", "change", "connect"]])
        out.append(scn(rng, ops, want=rng.random() < 0.9, readers=rng.choice([0, 0, 2])))
    for i in range(ctx.pick(12, 120)):
        ops = ["connect", "poll", "change", "settle", "change", "settle", "leave", "connect", "poll", "change", "settle"]
        out.append(scn(rng, ops, refuse=rng.randint(1, 12)))
    for i in range(ctx.pick(8, 40)):
        out.append(scn(rng, rng.choice([["change"] * 6, ["poll", "change", "change", "poll", "change"], ["poll"] * 3]), want=False, match=True,
                       props=[1, 2, 3, 4, 10], prop=i % 5))
    return out


def relax(sc):
    return dict(sc, period=max(sc["period"], 40))


def check_c15(ctx):
    ctx.model_check("RefreshMC", "RefreshMC.cfg")
    ctx.assumptions.append("a change of the controller shows in one of the properties polled, with a value it did not have before")
    ctx.explain.append("Refresh.tla: when a client that polls tags has to list them; a client that compares answers and lists page by page is "
                       "model-checked against a target that changes at any moment; its behaviours and random histories, with changes between polls "
                       "and between the pages of a listing, run through the real client; polls, pages, known tags and values are validated by TLC.")
    scs = histories(ctx)
    ctx.conform("refresh", "RefreshTrace", scs, relax=relax, par=16)
    rng = ctx.rng
    race = [scn(rng, ["connect", "poll", "change", "poll", "midchange", "poll", "settle", "change", "leave", "connect", "change", "settle"], readers=4, hurry=True)
            for _ in range(ctx.pick(8, 60))]
    ctx.conform("refresh", "RefreshTrace", race, relax=relax, par=4, race=True)
