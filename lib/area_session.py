"""C01 - C05: the client's session with one target."""
import itertools

GEN = """SPECIFICATION Spec
CONSTANTS
    Threads = {1}
    MaxOps = %(ops)d
    MaxConns = 4
    Large = %(large)s
    Auto = %(auto)s
    Ops = {"connect", "disconnect", "unit"}
    Faults = {"f"}
    MaxFaults = %(faults)d
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""

MC = """SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2%(more)s}
    MaxOps = %(ops)d
    MaxConns = 3
    Large = %(large)s
    Auto = %(auto)s
    Ops = {"connect", "disconnect", "unit"}
    Faults = {"silent"}
    MaxFaults = %(faults)d
    Gen = FALSE
INVARIANT AllInv
VIEW View
"""

UNITS = ["read", "readmap", "readlist", "write", "writemap", "attr", "attrlist", "generic"]
FAULTS = ["silent", "close", "cut", "late", "halflate", "headlate"]
SLOW = {"silent", "late", "halflate", "headlate"}


def op(name, **k):
    return dict(dict(op=name, n=0, force=False, kind=""), **k)


def scn(threads, dec=(), poll=(), auto=True, size=0, vendor=0, ka=False, period=0, jitter=0, tmo=0, zero=False):
    if not tmo and any(d in SLOW for d in list(dec) + list(poll)):
        tmo = 300
    return dict(auto=auto, size=size, vendor=vendor, ka=ka, period=period, threads=threads, dec=list(dec),
                poll=list(poll), jitter=jitter, tmo=tmo, zero=zero)


def relax(sc):
    sc = dict(sc)
    if sc["tmo"]:
        sc["tmo"] = max(sc["tmo"], 2500)
    if sc["ka"]:
        sc["period"] = max(sc["period"], 150)
    return sc


def models(ctx):
    ctx.model_check("EipClientMC", MC % dict(more="", ops=3, large="TRUE", auto="TRUE", faults=2))
    if ctx.thorough:
        for large, auto in itertools.product(["TRUE", "FALSE"], repeat=2):
            ctx.model_check("EipClientMC", MC % dict(more="", ops=4, large=large, auto=auto, faults=2), timeout=1500)
        ctx.model_check("EipClientMC", MC % dict(more=", 3", ops=3, large="FALSE", auto="TRUE", faults=2), timeout=1500)


def concrete(ctx, b, auto, large):
    """A behaviour of the reference client as a scenario for the real one."""
    rng = ctx.rng
    ops = []
    for o in b["ops"][0]:
        if o == "unit":
            o = rng.choice(UNITS)
        ops.append(op(o))
        ops.append(op(rng.choice(["probe", "probe", "quiesce"])))
    dec = []
    for d in b["decs"]:
        if d == "f":
            d = rng.choice(FAULTS)
        elif d == "refuse":
            d = rng.choice(["refuse", "refuse", "encap"])
        dec.append(d)
    size = 0 if large else rng.choice([100, 504, 511])
    if large and rng.random() < 0.4:
        size = rng.choice([512, 513, 1000, 4002])
    return scn([ops], dec, auto=auto, size=size, vendor=rng.choice([0, 0, 0x1234]), zero=rng.random() < 0.15)


def generated(ctx, quick, thorough):
    out = []
    for large, auto in itertools.product([True, False], repeat=2):
        beh = ctx.generate("EipClientMC", GEN % dict(ops=ctx.pick(3, 4), large=str(large).upper(), auto=str(auto).upper(),
                                                     faults=2))
        ctx.rng.shuffle(beh)
        fast = [b for b in beh if "f" not in b["decs"]]
        slow = [b for b in beh if "f" in b["decs"]]
        k = ctx.pick(quick, thorough)
        out += [concrete(ctx, b, auto, large) for b in fast[:k // 3] + slow[:k]]
    return out


def phases():
    """Every fault and refusal at every step of connect, use, reconnect, disconnect."""
    out = []
    for auto, size in itertools.product([True, False], [0, 504]):
        full = ["connect", "read", "disconnect", "connect", "write", "disconnect"]
        for at in range(8):
            for f in FAULTS + ["refuse", "encap"]:
                ops = [x for o in full for x in (op(o), op("probe"))] + [op("quiesce")]
                out.append(scn([ops], ["ok"] * at + [f], auto=auto, size=size))
        for n in range(1, 5):                      # the target hangs up between two operations
            ops = []
            for i, o in enumerate(["connect", "read", "write", "connect", "read", "disconnect", "disconnect"]):
                ops += [op(o), op("probe")]
                if i + 1 == n:
                    ops += [op("drop"), op("quiesce")]
            out.append(scn([ops], auto=auto, size=size))
        # refusals one after the other, then everything works
        for k in range(1, 6):
            ops = [x for _ in range(4) for x in (op("connect"), op("quiesce"))] + [op("read"), op("disconnect"), op("quiesce")]
            out.append(scn([ops], ["refuse"] * k, auto=auto, size=size))
            out.append(scn([ops], (["ok", "refuse"] * k)[:2 * k], auto=auto, size=size))
            out.append(scn([ops], ["close"] * k, auto=auto, size=size))
    return out


def concurrent(ctx, n):
    rng = ctx.rng
    out = []
    # B waits for the connection while A's reply is lost or late
    for f in ["late", "halflate", "headlate", "silent", "close", "cut"]:
        for auto in [True, False]:
            for u in ctx.rng.sample(UNITS, 5):
                a, b = [op("read")], [op("await", n=4), op(u), op("probe"), op(rng.choice(UNITS))]
                out.append(scn([[op("connect")], a, b], ["ok", "ok", f], auto=auto, tmo=400))
                out.append(scn([[op("connect")], [op(u)], [op("await", n=4), op("read")], [op("await", n=4), op("disconnect")]],
                               ["ok", "ok", f], auto=auto, tmo=400))
                out.append(scn([[op("connect")], [op(u)], [op("await", n=4), op("read"), op("read")],
                                [op("await", n=4), op("write"), op("connect"), op("read")]],
                               ["ok", "ok", f], auto=auto, tmo=400))
    # connecting from several sides at once
    for auto in [True, False]:
        for dec in [[], ["refuse"], ["ok", "refuse"], ["ok", "refuse", "refuse"], ["close"], ["ok", "cut"]]:
            for size in [0, 504]:
                out.append(scn([[op("probe")], [op("connect"), op("read")], [op("connect"), op("read")], [op("read"), op("disconnect")]],
                               dec, auto=auto, size=size))
                out.append(scn([[op("connect")], [op("disconnect")], [op("disconnect"), op("connect")], [op("read"), op("read")]],
                               ["ok"] * 2 + dec, auto=auto, size=size))
    for i in range(n):
        k = rng.randint(2, 5)
        threads = [[op("connect")] if rng.random() < 0.8 else [op("probe")]]
        mix = UNITS * 4 + ["probe", "connect", "disconnect"] if i % 2 else UNITS
        for _ in range(k):
            threads.append([op(rng.choice(mix)) for _ in range(rng.randint(2, 8))])
        dec = ["ok"] * rng.randint(2, 12)
        for _ in range(rng.randint(0, 3)):
            dec += [rng.choice(["refuse", "close", "cut", "encap"] if rng.random() < 0.8 else FAULTS)] + ["ok"] * rng.randint(0, 6)
        out.append(scn(threads, dec if rng.random() < 0.7 else [], auto=rng.random() < 0.7, size=rng.choice([0, 0, 504]),
                       jitter=rng.choice([0, 0, 300])))
    return out


def storm(ctx, n):
    """Many operations at once on a target that answers at once."""
    rng = ctx.rng
    out = []
    for i in range(n):
        mix = ["readbig"] if i % 3 == 0 else UNITS + ["readbig"] * 3 if i % 3 == 1 else ["attr", "attrlist", "generic", "read"]
        out.append(scn([[op("connect")]] + [[op(rng.choice(mix)) for _ in range(rng.randint(8, 16))] for _ in range(rng.randint(3, 6))],
                       auto=rng.random() < 0.7, size=rng.choice([0, 0, 504])))
    return out


def keepalive(ctx, n):
    rng = ctx.rng
    out = []
    w, probe, q = op("kawindow", n=6), op("probe"), op("quiesce")
    start, cancel, force = op("kastart"), op("kacancel"), op("kacancel", force=True)
    conn, disc, read = op("connect"), op("disconnect"), op("read")
    nap = op("sleep", n=60)

    def add(ops, poll=(), auto=False, ka=True, **k):
        out.append(scn([ops], poll=poll, auto=auto, ka=ka, period=40, **k))

    for ka in [True, False]:
        for ops in [
            [conn, w, disc, w, q], [conn, w, read, disc, w, conn, w, disc, w], [conn, w, force, w, force, w, disc, w, conn, w],
            [conn, disc, conn, disc, conn, w, disc, w], [force, conn, w, force, disc, force, w], [cancel, cancel, conn, w, cancel, w, disc],
            [start, start, w, conn, w, start, nap, w, disc, w], [conn, force, nap, start, w, force, nap, w, start, w, disc, nap, w],
            [conn, start, start, start, nap, w, force, nap, w, disc, disc, w], [conn, nap, disc, force, force, conn, w, disc],
            [start, nap, force, nap, force, nap, start, conn, w], [conn, force, disc, conn, w, force, nap, conn, nap, w, disc],
            [conn, nap, force, start, force, start, nap, w, disc, start, nap, w], [disc, force, cancel, conn, cancel, w, disc, cancel],
        ]:
            add(ops, ka=ka)
            add(ops, ka=ka, auto=True)
    down = op("kasettle", n=6, kind="down")
    for f in ["refuse", "encap", "close", "cut", "silent", "late", "halflate"]:
        for at in range(1, 4):
            add([conn, down, probe, q, w, conn, w, disc, q], poll=["ok"] * at + [f])
            add([conn, down, probe, force, conn, w, force, nap, w, disc, w], poll=["ok"] * at + [f])
        # the first poll fails
        if f in ("refuse", "encap"):
            add([conn, op("sleep", n=100), read, probe, w, disc, conn, w, disc, w], poll=[f])
        else:
            add([conn, down, probe, q, conn, w, disc, w, q], poll=[f])
    add([conn, w, op("drop"), down, probe, q, conn, w, disc, w])
    add([conn, w, op("drop"), down, probe, disc, force, conn, w, op("drop"), down, probe, q])
    menu = [conn, conn, disc, start, cancel, force, force, read, nap, w, w]
    for i in range(n):
        ops = [rng.choice(menu) for _ in range(rng.randint(5, 12))] + [w]
        poll = []
        add(ops, poll=poll, auto=rng.random() < 0.4, ka=rng.random() < 0.8)
    # from several sides
    for i in range(n // 2):
        th = [[conn]]
        for _ in range(rng.randint(2, 3)):
            th.append([rng.choice([start, force, force, disc, conn, read, op("sleep", n=5)]) for _ in range(rng.randint(3, 8))])
        out.append(scn(th, auto=rng.random() < 0.5, ka=True, period=10))
    return out


def restarts(ctx, n):
    """keepalive is cancelled and started again at once, before the one that was cancelled has noticed"""
    rng = ctx.rng
    w, q, nap, short = op("kawindow", n=6), op("quiesce"), op("sleep", n=60), op("sleep", n=5)
    start, force, conn, disc = op("kastart"), op("kacancel", force=True), op("connect"), op("disconnect")
    out = []
    for i in range(n):
        ops = [conn, rng.choice([nap, short, w])]
        for _ in range(rng.randint(1, 3)):
            ops += [force, start] * rng.choice([1, 1, 2, 3]) + rng.choice([[nap], [short], [w]])
        ops += rng.choice([[force, w], [force, w, start, nap, w], [start, nap, w], [start, start, nap, w, force, w], [disc, w], [disc, conn, nap, w]]) + [disc, w, q]
        out.append(scn([ops], auto=rng.random() < 0.3, ka=True, period=40))
    return out


def common(ctx, what):
    ctx.assumptions.append("the target is a scripted EtherNet/IP endpoint on the loopback network; timeouts are shortened")
    ctx.explain.append("EipClient.tla: a reference client with the intended locking and status discipline is explored "
                       "completely together with an unreliable target; " + what + "; everything observed at the target and "
                       "at the API is validated by TLC against EipClient.tla with the guards of this property switched on")


def check_c01(ctx):
    models(ctx)
    common(ctx, "its behaviours, each fault at each step and concurrent mixes are replayed through the real client")
    scs = generated(ctx, 60, 900) + phases() + concurrent(ctx, ctx.pick(60, 1500))
    ctx.conform("session", "EipClientTrace", scs, relax=relax, par=24)
    ctx.explain.append("some concurrent mixes also run on a single processor, which makes other interleavings likely")
    ctx.conform("session", "EipClientTrace", concurrent(ctx, ctx.pick(24, 800)), relax=relax, par=8, procs=8, drv_env={"GOMAXPROCS": "1"})


def check_c02(ctx):
    models(ctx)
    common(ctx, "late, lost and truncated replies with further callers waiting are replayed through the real client")
    scs = generated(ctx, 30, 400) + concurrent(ctx, ctx.pick(200, 4000)) + storm(ctx, ctx.pick(8, 200))
    ctx.conform("session", "EipClientTrace", scs, relax=relax, par=24)
    ctx.explain.append("operations of several goroutines on a target that answers at once also run with the race detector, whose "
                       "reports no behaviour of the specification contains")
    ctx.conform("session", "EipClientTrace", storm(ctx, ctx.pick(16, 300)), relax=relax, par=2, procs=8, race=True)


def check_c04(ctx):
    models(ctx)
    common(ctx, "connect, use, failure and reconnect histories over all connection sizes are replayed through the real client")
    scs = generated(ctx, 40, 600) + phases() + concurrent(ctx, ctx.pick(60, 800))
    for u in UNITS + ["readbig"]:                   # the same operation before and after reconnecting
        for v in [u] + ctx.rng.sample(UNITS, 2):
            for auto in [True, False]:
                for dec in [[], ["ok"] * 3 + ["close"], ["ok"] * 2 + ["refuse"]]:
                    scs.append(scn([[op(x) for x in ["connect", u, v, "disconnect", "connect", v, u, "disconnect", "connect", u, "drop", "connect", u, v]]],
                                   dec, auto=auto, size=ctx.rng.choice([0, 504])))
    for size in [1, 2, 100, 500, 510, 511, 512, 513, 600, 1023, 1024, 2000, 4000, 4002, 65535]:
        for dec in [[], ["ok", "refuse"], ["ok", "refuse", "refuse"]]:
            for vendor in [0, 1, 0xFFFF]:
                ops = [op("connect"), op("read"), op("disconnect"), op("connect"), op("readlist"), op("disconnect"), op("connect"), op("disconnect")]
                scs.append(scn([ops], dec, size=size, vendor=vendor))
    ctx.conform("session", "EipClientTrace", scs, relax=relax, par=24)


def check_c05(ctx):
    models(ctx)
    common(ctx, "orders of connect, start, cancel, disconnect and poll failures are replayed through the real client")
    scs = keepalive(ctx, ctx.pick(60, 1200))
    ctx.conform("session", "EipClientTrace", scs, relax=relax, par=16, batch=60)
    ctx.explain.append("cancels followed by a start at once run on a single processor, where the one that was cancelled notices last")
    ctx.conform("session", "EipClientTrace", restarts(ctx, ctx.pick(64, 600)), relax=relax, par=2, procs=8, batch=60, drv_env={"GOMAXPROCS": "1"})
