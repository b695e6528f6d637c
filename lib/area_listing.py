"""C10: listing tags."""
import json

GEN = """SPECIFICATION Spec
CONSTANTS
    Main = {1, 2, 4, 5}
    Prog = {1, 3}
    ProgEntry = 2
    Froms = {0, 3}
    Gen = TRUE
    Lists2 = TRUE
    Calls = 1
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""

ATOMIC = [0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD3, 0xD4]


def entry(rng, inst, names, prog=""):
    """An entry with a name of its own, of some type and shape."""
    hidden = rng.random() < 0.12 and not prog
    while True:
        n = rng.choice([1, 2, 3, 8, 17, 40])
        name = rng.choice("ABCdefgX_") + "".join(rng.choice("abcXYZ019_") for _ in range(n - 1))
        if rng.random() < 0.2:
            name = rng.choice(["Program", "Programs", "PROGRAM_", "_x", "Prog"]) + name
        if hidden:
            name = rng.choice(["__" + name, "Local:1:" + name, name + ":I", "Map:" + name, "Task:" + name, "Cxn:Standard:" + name])
        if prog:
            name = "Program:" + prog
        if not hidden and name.startswith("__"):
            continue
        if hidden and name.startswith("Program"):
            continue                                # a module named Program...: whether its tags count is left open
        if name.lower() not in names:
            break
    names.add(name.lower())
    dims = rng.choice([[], [], [], [1], [5], [300], [70000], [2, 3], [4, 5, 6]])
    typ = rng.choice(ATOMIC)
    if rng.random() < 0.2:
        typ = 0xC1 | rng.randint(0, 7) << 8                    # a bit of a host byte
    elif rng.random() < 0.2:
        typ = 0x8000 | rng.choice([0x123, 0x124, 0xFCE, 0x777])  # structures (0x777: its template cannot be read)
    elif rng.random() < 0.1:
        typ |= 0x1000                                           # system reserved type
    if prog:
        typ, dims = 0x1068, []
    return dict(inst=inst, name=name, type=typ | len(dims) << 13, dims=dims, hidden=hidden, prog=prog.lower())


TEMPLATES = [
    dict(id=0x123, name="Pair", tail="n", size=8, handle=7, members=[dict(name="a", type=0xC4, off=0), dict(name="b", type=0xCA, off=4)]),
    dict(id=0x124, name="Outer", tail="n", size=12, handle=8, members=[dict(name="p", type=0x8123, off=0), dict(name="c", type=0xC3, off=8)]),
    dict(id=0xFCE, name="STRING", tail="n", size=88, handle=0xFCE,
         members=[dict(name="LEN", type=0xC4, off=0), dict(name="DATA", info=82, type=0x20C2, off=4)]),
]


def build(rng, main, progs, entry_at):
    names = set()
    scopes = [dict(name="", entries=[entry(rng, i, names, entry_at.get(i, "")) for i in main])]
    for name, insts in progs.items():
        sub = set()
        scopes.append(dict(name=name, entries=[entry(rng, i, sub) for i in insts]))
    return scopes


def change(rng, scopes):
    """The same names on other instances, with other types, or gone; programs come and go."""
    out = []
    for s in scopes:
        if s["name"] and rng.random() < 0.25:
            continue
        es = [dict(e) for e in s["entries"]]
        insts = [e["inst"] for e in es]
        rng.shuffle(insts)
        for e, i in zip(es, insts):
            e["inst"] = i
            if not e["prog"] and not e["hidden"] and rng.random() < 0.3:
                dims = rng.choice([[], [3]])
                e["dims"], e["type"] = dims, rng.choice(ATOMIC + [0x8123, 0x8124]) | len(dims) << 13
        es = [e for e in es if rng.random() > 0.25]
        out.append(dict(name=s["name"], entries=sorted(es, key=lambda e: e["inst"])))
    there = {s["name"].lower() for s in out}
    for s in out:
        s["entries"] = [e for e in s["entries"] if not e["prog"] or e["prog"] in there]
    return out if out[0]["entries"] or rng.random() < 0.2 else scopes


def changed(rng):
    """The structures have other members under the same number."""
    ts = [dict(t, members=[dict(m) for m in t["members"]]) for t in TEMPLATES]
    if rng.random() < 0.5:
        ts[0]["members"][0]["name"] = "other%d" % rng.randint(0, 9)
        if rng.random() < 0.3:
            ts[0]["name"] = "Pear"
    return ts


def gaps(rng, n, start=1):
    out, i = [], start
    for _ in range(n):
        out.append(i)
        i += rng.choice([1, 1, 1, 2, 7, 100])
    return out


def scenarios(ctx):
    rng = ctx.rng
    out = []
    beh = ctx.generate("ListingMC", GEN)
    rng.shuffle(beh)
    for b in beh[:ctx.pick(900, 10 ** 6)]:
        k = rng.choice([1, 1, 60, 254, 30000, 65533, 70000])      # stretch the instance numbers over the widths of a path segment
        if b["from"] > 1:
            k = 1
        stretch = (lambda i: i if i < 3 else i + k - 1)
        main, prog = [stretch(i) for i in b["main"]], [stretch(i) for i in b["prog"]]
        scopes = build(rng, main, {"MainProg": prog}, {2: "MainProg"})
        pages = [[{"": "", "p": "mainprog"}[s["s"]], s["n"], s["st"]] for s in b["steps"] if s["s"] != "progs"]
        st = [s["st"] for s in b["steps"] if s["s"] == "progs"]
        out.append(dict(scopes=scopes, size=0, calls=[dict(api=b["api"], scope="mainprog" if b["api"] == "sub" else "", progs=(st + [0])[0],
                        pages=pages, limit=0, **{"from": b["from"]})]))
    # controllers of all sizes and shapes, paged by what fits and by less
    for i in range(ctx.pick(120, 1200)):
        names = rng.sample(["Main", "P2", "Aux_3", "LongProgramName_With_Digits_0123456789"], rng.randint(0, 4))
        main = gaps(rng, rng.choice([0, 1, 5, 30, 150]) + len(names), rng.choice([1, 2, 200, 65000]))
        at = dict(zip(rng.sample(main, len(names)), names))
        progs = {n: gaps(rng, rng.choice([0, 1, 3, 40])) for n in names}
        calls = []
        for _ in range(rng.randint(1, 3)):
            api = rng.choice(["all", "all", "all", "sub", "progs"]) if names else rng.choice(["all", "progs"])
            pages = []
            if rng.random() < 0.2:
                pages = [[rng.choice([""] + [n.lower() for n in names]), 0, rng.choice([-1, 6, 5, 1, 0x0A, 0x1E])]]
                pages = [[pages[0][0], 2, 6]] * rng.randint(0, 2) + pages
            calls.append(dict(api=api, scope=rng.choice(names).lower() if api == "sub" else "", progs=rng.choice([0, 0, 8, 5, 6]) if api == "all" else 0,
                              pages=pages, limit=rng.choice([0, 0, 1, 2, 3, 10, 17]), **{"from": rng.choice([0, 1, 1, 1, 5]) if api != "progs" else 1}))
        out.append(dict(scopes=build(rng, main, progs, at), size=rng.choice([0, 0, 504]), calls=calls))
    # one client through a history of changes
    for i in range(ctx.pick(150, 2000)):
        scopes = build(rng, [1, 2, 4, 9], {"Main": [1, 2, 5], "P2": [3]}, {2: "Main", 9: "P2"})
        calls = []
        cur = scopes
        for j in range(rng.choice([3, 6, 12])):
            if j and rng.random() < 0.5:
                cur = change(rng, cur)
                calls.append(dict(scopes=cur, templates=changed(rng) if rng.random() < 0.5 else []))
                if calls[-1]["templates"]:               # definitions are kept until everything is listed anew
                    calls.append(dict(api="all", scope="", progs=rng.choice([0, 8]), keep=True, pages=[], limit=2, **{"from": 0}))
            names = [s["name"] for s in cur if s["name"]]
            api = rng.choice(["all"] * 4 + ["progs"] + (["sub"] if names else []))
            pages = [["", rng.randint(0, 2), rng.choice([6, 5, -1])]] if api == "all" and rng.random() < 0.15 else []
            calls.append(dict(api=api, scope=rng.choice(names).lower() if api == "sub" else "", progs=rng.choice([0, 0, 0, 8]) if api == "all" else 0,
                              keep=rng.random() < 0.9, pages=pages, limit=rng.choice([0, 1, 2, 3]), **{"from": rng.choice([0, 1, 1, 3]) if api != "progs" else 1}))
        out.append(dict(scopes=scopes, size=0, calls=calls))
    for s in out:
        s["templates"] = TEMPLATES
    return out


def crowds(ctx):
    """Listings at the same time as other listings, look-ups and reads, and keepalive's."""
    rng, out = ctx.rng, []
    for i in range(ctx.pick(24, 300)):
        scopes = build(rng, [1, 2, 4, 9] + gaps(rng, rng.choice([2, 10, 30]), 20), {"Main": [1, 2, 5], "P2": [3]}, {2: "Main", 9: "P2"})
        crowd, progs = [["all"] * rng.choice([1, 2])], rng.choice([0, 8])
        for _ in range(rng.choice([1, 2, 3])):
            crowd.append([rng.choice(["all", "members", "read", "multi", "table"] + ["progs"] * (progs == 0)) for _ in range(rng.choice([3, 6]))])
        ka = i % 2 == 1
        calls = [dict(api="crowd", scope="", progs=progs, pages=[], limit=rng.choice([0, 1, 3]), crowd=crowd, ka=ka, **{"from": 0}),
                 dict(api="all", scope="", progs=0, keep=True, pages=[], limit=0, **{"from": 0})]
        out.append(dict(scopes=scopes, size=0, calls=calls, templates=TEMPLATES))
    return out


def check_c10(ctx):
    ctx.model_check("ListingMC", "ListingTwiceMC.cfg")
    if ctx.thorough:
        ctx.model_check("ListingMC", "ListingMC.cfg")
    ctx.explain.append("Listing.tla: every client that keeps to the rules (ask on from what was delivered, pass over nothing, make "
                       "progress, stop at a failed page) is explored against every target over all sublists of a small list, with "
                       "termination and completeness as properties; the generated target behaviours (every paging of a "
                       "controller and a program list, with and without the program object, failures everywhere) and large random "
                       "controllers run through ListAllTags/ListSubTags/ListAllPrograms, pages and resulting tags are validated by TLC")
    ctx.assumptions.append("the target's list does not change while it is listed")
    ctx.conform("listing", "ListingTrace", scenarios(ctx))
    ctx.conform("listing", "ListingTrace", crowds(ctx), race=True, procs=4)
