"""C03: sequence counts."""
import area_session

OPS = ["read", "readbit", "readarr", "frag", "readudt", "readlist", "readlistbig", "readmap", "readmulti", "single", "write",
       "writearr", "writeudt", "writemap", "writemapbig", "getattr", "getattrlist", "generic", "listall", "listprog",
       "listsub", "tattr", "members", "dtnew", "dtread", "dtlife"]

MC = """SPECIFICATION Spec
CONSTANTS
    Clients = {1, 2}
    Callers = {1, 2}
    Mod = %d
    MaxReq = %d
    Shared = %s
PROPERTIES NoRepeat
CHECK_DEADLOCK FALSE
"""


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for a in OPS:                                   # each kind after each other kind
        ops = []
        for b in OPS:
            ops += [a, b, a]
        out.append(dict(threads=[ops], repeat=1))
        out.append(dict(threads=[[a]], repeat=4))
    for a in OPS:
        out.append(dict(pair=["read", a]))
        out.append(dict(pair=[a, "getattrlist"]))
    if ctx.thorough:
        for a in OPS:
            for b in OPS:
                if a < b:
                    out.append(dict(pair=[a, b]))
    # once round the counter, with everything
    out.append(dict(threads=[OPS], repeat=ctx.pick(700, 3000)))
    out.append(dict(threads=[["read", "write", "getattr"]], repeat=22000))
    out.append(dict(clients=2, other=65535))
    # from several goroutines, also with refusals and lost connections
    for i in range(ctx.pick(12, 120)):
        th = [[rng.choice(OPS) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(2, 8))]
        for t in th:
            # the bookkeeping of listed tags and types is not meant to be shared
            t[:] = [o for o in t if o not in ("listall", "listprog", "listsub", "members")] or ["read"]
        out.append(dict(threads=th, repeat=ctx.pick(60, 300), size=rng.choice([0, 0, 504]),
                        refuse=rng.choice([0, 0, 3, 7]), drop=rng.choice([0, 0, 0, 40, 97])))
    out.append(dict(threads=[["read"]] * 8, repeat=2500))
    out.append(dict(threads=[["read"]] * 8, repeat=1500, clients=2))
    return [dict(dict(clients=1, threads=[], repeat=1, pair=[], other=0, refuse=0, drop=0, size=0), **s) for s in out]


def check_c03(ctx):
    ctx.model_check("SeqCountMC", MC % (4, ctx.pick(7, 10), "FALSE"))
    ctx.explain.append("SeqCountMC checks the counting discipline (one count per client, callers overtaking each other) at a "
                       "small modulus; requests of every kind in every order, more than once round the real 16-bit count, from "
                       "one and several goroutines and clients, are recorded at the target and their counts validated by TLC; "
                       "operations that count separately are driven to the alignment at which their counts meet")
    ctx.assumptions.append("a goroutine does not wait for the connection while the client makes 65535 further requests")
    ctx.conform("seq", "SeqCountTrace", scenarios(ctx), par=1, procs=8, batch=12, confirm=2)
    scs = area_session.concurrent(ctx, ctx.pick(40, 400)) + area_session.keepalive(ctx, ctx.pick(10, 60))
    ctx.conform("session", "EipClientTrace", scs, relax=area_session.relax, par=24)
