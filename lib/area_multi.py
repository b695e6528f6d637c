"""C07: multi-tag reads; C08: writes; C13: what fits into a message."""

RGEN = """SPECIFICATION Spec
CONSTANTS
    Items = %d
    Limit = 3
    Join = "in-order"
    Fit = TRUE
    Gen = TRUE
CHECK_DEADLOCK FALSE
"""
WGEN = RGEN.replace('    Join = "in-order"\n    Fit = TRUE\n', '    Check = "all"\n')

SIZES = dict(BOOL=1, SINT=1, INT=2, DINT=4, LINT=8, UINT=2, UDINT=4, LWORD=8, BYTE=1, REAL=4, LREAL=8, STRING=88, UDT=12, TINY=4, TAIL=16,
             USINT=1, WORD=2, DWORD=4)
NUM = ["SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL", "USINT", "WORD", "DWORD"]
BITTY = ["SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "WORD", "DWORD", "USINT"]
STS = [0x05, 0x06, 0x08, 0x0F, 0x13, 0x1E, 0xFF, 0x01, 0x04, 0x26]
NAMES = ["a%d", "Tag_%d", "Program:Main.x%d", "s%d.mem", "m%dval", "LongTagName_abcdefghijklmnopqrst%d", "udt[%d].field", "g[1,%d].h"]


def world(rng, scalars, arrays, lengths=(1, 2, 5, 12, 40), more=()):
    more = list(more)
    tags = []
    for i in range(scalars):
        tags.append(dict(name=rng.choice(NAMES) % i, type=rng.choice(NUM + ["BOOL", "STRING", "UDT", "DINT", "REAL"] + more), n=0, seed=rng.randint(1, 99999)))
    for i in range(arrays):
        tags.append(dict(name=rng.choice(["arr%d", "m%darr", "Program:P.z%d", "st[3].f%d"]) % i, type=rng.choice(NUM + ["STRING"]),
                         n=rng.choice(lengths), seed=rng.randint(1, 99999)))
    return tags


def spelled(rng, s):
    return rng.choice([s, s, s, s.upper(), s.lower()])


def item(rng, t, api):
    """One item about tag t."""
    it = dict(base=t["name"], at=0, n=1, bit=-1, type=t["type"], open=False, arr=False, emb=False)
    name = spelled(rng, t["name"])
    if t["n"]:
        it["at"] = rng.randrange(t["n"])
        if rng.random() < 0.3:
            it["at"] = 0
        if rng.random() < 0.65:
            it["n"] = rng.randint(1, t["n"] - it["at"])
            if api != "list":
                it["arr"] = True
            else:
                it["arr"] = rng.random() < 0.5
        if it["at"] or rng.random() < 0.5:
            name += "[%d]" % it["at"]
    if t["type"] in BITTY and it["n"] == 1 and not it["arr"] and rng.random() < 0.2:
        it["bit"] = rng.randrange(8 * SIZES[t["type"]])
        name += ".%d" % it["bit"]
    elif api in ("list", "map", "multimap") and rng.random() < 0.1 and not (it["n"] > 1 and (t["type"] == "STRING" or api != "list")):
        it["open"], it["arr"] = True, False
    if api == "group":
        if it["n"] == 1:
            it["arr"] = False
        if t["type"] in ("USINT", "WORD", "DWORD") and it["bit"] < 0:
            it["type"] = dict(USINT="BYTE", WORD="UINT", DWORD="UDINT")[t["type"]]
        if t["type"] in ("UDT", "TINY", "TAIL"):
            return None
    if api == "struct" and it["n"] == 1 and it["arr"] and rng.random() < 0.7:
        it["arr"] = False
    it["name"] = it["def"] = name
    it["emb"] = api == "struct" and rng.random() < 0.2
    return it


def params(rng, items):
    args = []
    for it in items:
        if rng.random() < 0.5:
            i = next((k for k, ch in enumerate(it["name"]) if ch.isdigit() and "." not in it["name"][:k + 1]), None)
            if i is None:
                continue
            d = int(it["name"][i])
            if d not in args and len(args) < 3:
                args.append(d)
            if d in args:
                it["def"] = "%s{%d}%s" % (it["name"][:i], args.index(d), it["name"][i + 1:])
    return args


def base(api):
    return dict(api=api, tags=[], items=[], args=[], size=0, nolarge=False, fails={}, whole=dict(k=0, kind="", st=0),
                lenient=False, pad=False, back=False, again=False, tmo=0)


def trouble(rng, sc, paths, p=0.35, partial=True):
    if rng.random() > p or not paths:
        return
    k = rng.random()
    if k < 0.6:
        for q in rng.sample(sorted(paths), min(len(paths), rng.choice([1, 1, 2]))):
            sc["fails"][q] = rng.choice(STS)
        sc["lenient"] = rng.random() < 0.4
    else:
        sc["whole"] = dict(k=rng.choice([1, 1, 2, 3]), kind=rng.choice(["status", "status", "encap", "close", "cut"]), st=rng.choice(STS))
        if rng.random() < 0.1:
            sc["whole"]["kind"], sc["tmo"] = "silent", 250


def path_of(it):
    n = it["name"].lower()
    return n[:n.rindex(".")] if it.get("bit", -1) >= 0 else n


def read_call(rng, api, n, size, many=False):
    sc = base(api)
    sc["tags"] = world(rng, max(1, n // 2), max(1, n // 4), (300, 20, 7) if many else (1, 2, 5, 12, 40), ("TINY", "TAIL"))
    seen = set()
    for _ in range(n):
        it = item(rng, rng.choice(sc["tags"]), api)
        if it is None or (api in ("map", "multimap", "group") and it["name"] in seen):
            continue
        seen.add(it["name"])
        sc["items"].append(it)
    e = [i for i in sc["items"] if i["emb"]]
    if e:                                            # the fields of the embedded struct are next to each other
        at = sc["items"].index(e[0])
        sc["items"] = sc["items"][:at] + e + [i for i in sc["items"][at:] if not i["emb"]]
    if api in ("struct", "group"):
        sc["args"] = params(rng, sc["items"])
    if rng.random() < 0.05 and sc["items"]:          # a tag that does not exist, or too many elements
        it = rng.choice(sc["items"])
        if it["bit"] < 0 and it["name"] not in sc["fails"]:
            sc["fails"][path_of(it)] = 5
    sc["size"], sc["nolarge"] = size
    sc["pad"] = rng.random() < 0.5
    sc["back"] = rng.random() < 0.1
    sc["again"] = rng.random() < 0.1
    trouble(rng, sc, {path_of(i) for i in sc["items"]})
    return sc


LIMITS = [(0, False), (504, False), (504, True), (4000, False), (200, False), (1000, False), (4000, True), (300, True)]
APIS = ["list", "list", "map", "multimap", "struct", "struct", "group"]


def reads(ctx):
    rng, out = ctx.rng, []
    beh = ctx.generate("MultiReadMC", RGEN % ctx.pick(5, 6))
    rng.shuffle(beh)
    for b in beh[:ctx.pick(500, 5000)]:
        # a unit of size is 60 DINTs, three of them fit; alike items are read under the same name
        api = rng.choice(["list", "struct"])
        sc = base(api)
        sc["tags"] = [dict(name=t, type="DINT", n=60 * b["size"][t], seed=i + 1) for i, t in enumerate(sorted(b["size"]))]
        for it in b["items"]:
            n = 60 * b["size"][it["path"]]
            sc["items"].append(dict(base=it["path"], at=0, n=n, bit=-1, type="DINT", open=False, arr=True, emb=False, name=it["path"]))
            sc["items"][-1]["def"] = it["path"]
        sc["size"] = 3 * 60 * 4 + 60
        for k, m in enumerate(b["log"]):
            if m["whole"]:
                sc["whole"] = dict(k=k + 1, kind=rng.choice(["status", "close", "encap"]), st=rng.choice(STS))
            i = 0
            for st in m["sts"]:
                if st:
                    sc["fails"][b["items"][len([x for y in b["log"][:k] for x in y["sts"]]) + i]["path"]] = rng.choice(STS)
                i += 1
        sc["lenient"] = rng.random() < 0.3
        out.append(sc)
    for _ in range(ctx.pick(900, 9000)):
        out.append(read_call(rng, rng.choice(APIS), rng.choice([1, 2, 3, 5, 9, 20]), rng.choice(LIMITS)))
    for _ in range(ctx.pick(60, 500)):
        out.append(read_call(rng, rng.choice(APIS), rng.choice([60, 120, 250]), rng.choice(LIMITS), rng.random() < 0.3))
    # around the limit: n tags of one type fill the message or its reply
    for size in (200, 504, 1000):
        for typ, per in (("SINT", 10), ("DINT", 12), ("LINT", 16), ("STRING", 98), ("BOOL", 10), ("UDT", 24), ("TINY", 12), ("TAIL", 24)):
            for name in ("t%03d", "a_rather_long_name_for_a_tag_%03d"):
                n0 = size // max(per, len(name) + 10)
                for n in sorted({max(1, n0 + d) for d in (-1, 0, 1, 2)} if ctx.thorough else {max(1, n0 + rng.choice([-1, 0, 1])), 2 * n0 + 1}):
                    sc = base(rng.choice(["list", "map", "struct"]))
                    sc["size"] = size
                    for i in range(n):
                        sc["tags"].append(dict(name=name % i, type=typ, n=0, seed=i + 1))
                        sc["items"].append({"base": name % i, "at": 0, "n": 1, "bit": -1, "type": typ, "open": False, "arr": False,
                                            "emb": False, "name": name % i, "def": name % i})
                    out.append(sc)
    for api in ("list", "map", "multimap", "group"):
        out.append(base(api))                         # nothing at all
    return out


# ---------------------------------------------------------------- writes

WTYPES = ["SINT", "INT", "DINT", "LINT", "UINT", "UDINT", "LWORD", "BYTE", "REAL", "LREAL"]


def witem(rng, t, api):
    it = dict(name=spelled(rng, t["name"]), type=t["type"], n=1, kind="scalar", seed=rng.randint(1, 99999), len=0, nest=[])
    if t["n"]:
        at = rng.randrange(t["n"])
        if rng.random() < 0.75:
            it["kind"] = "slice"
            it["n"] = rng.randint(1, t["n"] - at)
            if api == "struct" and rng.random() < 0.3:
                it["kind"] = "array"
        if at or rng.random() < 0.5:
            it["name"] += "[%d]" % at
        if t["type"] in ("STRING", "BOOL"):
            if it["kind"] == "array":
                it["kind"] = "slice"
            if it["kind"] == "slice":
                it["kind"] = "strings" if t["type"] == "STRING" else "bools"
    if it["n"] == 1 and it["kind"] == "scalar":
        k = rng.random()
        if t["type"] == "STRING" and k < 0.3:
            it["kind"], it["len"] = "longstr", rng.choice([0, 1, 81, 82, 82, 83, 84, 85, 100, 300])
        elif t["type"] in ("DINT", "INT", "SINT") and k < 0.04 and "[" not in it["name"]:
            it["kind"] = "bit"
            it["name"] += ".%d" % rng.randrange(8)
        elif k < 0.05 and t["type"] not in ("UDT", "STRING"):
            it["kind"] = "ptr"
        elif k < 0.07 and api != "struct":
            it["kind"] = rng.choice(["nil", "int"])
    return it


def write_call(rng, api, n, size):
    sc = base(api)
    sc["ext"] = rng.choice([-1, -1, 0x2105, 0])
    sc["tags"] = world(rng, max(1, n // 2 + 1), max(1, n // 3))
    seen = set()
    for t in sc["tags"]:
        if t["type"] in ("USINT", "WORD", "DWORD"):
            t["type"] = rng.choice(WTYPES)
    if api == "struct":
        for i in range(rng.choice([0, 0, 1, 2])):
            fs = []
            for k in range(rng.randint(1, 4)):
                f = dict(name="M%d" % k, type=rng.choice(WTYPES + ["STRING", "BOOL"]), n=1, kind="scalar", seed=rng.randint(1, 9999), len=0, nest=[])
                if f["type"] in WTYPES and rng.random() < 0.3:
                    f["n"], f["kind"] = rng.randint(1, 5), rng.choice(["slice", "array"])
                if rng.random() < 0.15:
                    f = dict(name="S%d" % k, type="", n=1, kind="nest", seed=0, len=0,
                             nest=[dict(name="Q", type="INT", n=1, kind="scalar", seed=5, len=0, nest=[]),
                                   dict(name="R", type="REAL", n=1, kind="scalar", seed=6, len=0, nest=[])])
                fs.append(f)
            nm = "nest%d" % i

            def declare(prefix, f):
                if f["kind"] == "nest":
                    for g in f["nest"]:
                        declare(prefix + "." + f["name"], g)
                else:
                    sc["tags"].append(dict(name=prefix + "." + f["name"], type=f["type"], n=f["n"], seed=3))
            for f in fs:
                declare(nm, f)
            sc["items"].append(dict(name=nm, type="", n=1, kind="nest", seed=0, len=0, nest=fs))
            seen.add(nm)
    own = [t for t in sc["tags"] if not t["name"].startswith("nest")]
    for _ in range(1 if api == "single" else n):
        t = rng.choice(own)
        it = witem(rng, t, api)
        if it["type"] == "UDT" and api == "struct":
            continue                                     # written member by member
        # one write per element: the order in a map is not defined
        if t["name"].lower() in seen:
            continue
        seen.add(t["name"].lower())
        if rng.random() < 0.03:
            it["type"] = rng.choice([x for x in WTYPES if x != it["type"]]) if it["type"] in WTYPES else it["type"]
        elif rng.random() < 0.03:
            it["name"] = "nothere_" + it["name"].replace(":", "")
        sc["items"].append(it)
    if not sc["items"]:
        return None if api == "single" else sc
    sc["size"], sc["nolarge"] = size
    sc["again"] = rng.random() < 0.1
    paths = {i["name"].lower() for i in sc["items"] if i["kind"] not in ("nest", "bit")}
    trouble(rng, sc, paths)
    for p in list(sc["fails"]):
        if sc["fails"][p] == 6:
            sc["fails"][p] = 7
    return sc


def writes(ctx):
    rng, out = ctx.rng, []
    beh = ctx.generate("WriteMC", WGEN % ctx.pick(5, 6))
    rng.shuffle(beh)
    for b in beh[:ctx.pick(400, 4000)]:
        sc = base("map")
        sc["ext"] = rng.choice([-1, 0x2105])
        for i, it in enumerate(b["items"]):
            n = 60 * b["size"][it["path"]]
            sc["tags"].append(dict(name="t%d" % i, type="DINT", n=n, seed=i + 1))
            sc["items"].append(dict(name="t%d" % i, type="DINT", n=n, kind="slice", seed=i + 7, len=0, nest=[]))
        sc["size"] = 3 * 60 * 4 + 60
        i = 0
        for k, m in enumerate(b["log"]):
            if m["whole"]:
                sc["whole"] = dict(k=k + 1, kind=rng.choice(["status", "close", "encap", "cut"]), st=rng.choice([5, 8, 255]))
            for st in m["sts"]:
                if st:
                    sc["fails"]["t%d" % i] = rng.choice([5, 8, 255])
                i += 1
        sc["lenient"] = rng.random() < 0.3
        out.append(sc)
    for _ in range(ctx.pick(1100, 9000)):
        api = rng.choice(["single", "single", "map", "map", "struct"])
        sc = write_call(rng, api, rng.choice([1, 2, 3, 5, 9, 20]), rng.choice(LIMITS))
        if sc:
            out.append(sc)
    for _ in range(ctx.pick(50, 400)):
        sc = write_call(rng, rng.choice(["map", "struct"]), rng.choice([60, 150, 300]), rng.choice(LIMITS))
        out.append(sc)
    for typ in WTYPES + ["BOOL", "STRING", "UDT"]:
        for api in ("single", "map", "struct"):
            for n in (0, 1, 2, 50, 300):
                if (typ in ("BOOL", "STRING", "UDT") and n) or (api == "struct" and typ == "UDT"):
                    continue
                sc = base(api)
                sc["ext"] = -1
                sc["tags"] = [dict(name="x", type=typ, n=n, seed=1)]
                sc["items"] = [dict(name="x", type=typ, n=max(1, n), kind="slice" if n else "scalar", seed=n + 5, len=0, nest=[])]
                out.append(sc)
    # every kind of value refused in every way: alone, and with an accepted one before or after it
    for typ in WTYPES + ["BOOL", "STRING", "UDT"]:
        for api in ("single", "map", "struct"):
            if api == "struct" and typ == "UDT":
                continue
            for st, ext in [(1, -1), (1, 0x107), (5, 0), (0x10, -1), (0x1E, -1), (0xFF, 0x2105), (0xFF, -2), (rng.randint(2, 254), -1)]:
                st = 7 if st == 6 else st
                for more in ([] if api == "single" else ["", "before", "after"]) or [""]:
                    sc = base(api)
                    sc["ext"] = ext
                    sc["tags"] = [dict(name="x", type=typ, n=0, seed=1), dict(name="y", type="INT", n=0, seed=2)]
                    sc["items"] = [dict(name="x", type=typ, n=1, kind="scalar", seed=5, len=0, nest=[])]
                    if more:
                        sc["items"].insert(0 if more == "before" else 1, dict(name="y", type="INT", n=1, kind="scalar", seed=7, len=0, nest=[]))
                    sc["fails"] = {"x": st}
                    sc["lenient"] = rng.random() < 0.5
                    out.append(sc)
    return out


def relax(sc):
    sc = dict(sc)
    if sc.get("tmo"):
        sc["tmo"] = max(2500, sc["tmo"])
    return sc


def check_c07(ctx):
    ctx.model_check("MultiReadMC", "MultiReadMC.cfg")
    ctx.explain.append("MultiRead.tla: a client that cuts the list anywhere until each part fits, over all item sizes and all "
                       "decisions of the target, never asks for a wrong, missing or repeated item and returns the values in "
                       "order (TLC); its behaviours and random calls of every reading interface (ReadList, ReadMap, ReadMulti "
                       "with struct and map, ReadTagGroup) with scalars, arrays, strings, bits, structures and open types, one "
                       "to 250 tags, six connection sizes, refused tags, lost and cut messages run against the real client; "
                       "requests and results are validated by TLC")
    ctx.conform("multi", "MultiReadTrace", reads(ctx), relax=relax)


def check_c08(ctx):
    ctx.model_check("WriteMC", "WriteMC.cfg")
    ctx.explain.append("Write.tla: a client filling messages up to the limit, over all sizes and decisions of the target, says "
                       "that it succeeded exactly when everything was acknowledged (TLC); its behaviours and random Write, "
                       "WriteMap and WriteMulti calls (all types, slices, arrays, nested structs, structures, long strings, "
                       "unsupported values, refusals with and without extended status, lost and cut answers) run against the "
                       "real client; every write request - path, type, count, values - and every result is validated by TLC")
    ctx.conform("write", "WriteTrace", writes(ctx), relax=relax)


def check_c13(ctx):
    ctx.model_check("MultiReadMC", "MultiReadMC.cfg")
    ctx.model_check("WriteMC", "WriteMC.cfg")
    ctx.explain.append("the size guards of MultiRead.tla and Write.tla: no message of several services exceeds what the target "
                       "granted, nor do the replies it asks for, and the items are asked for in order, none lost or repeated; "
                       "calls around the limits of five connection sizes run against the real client and are validated by TLC")
    ctx.assumptions.append("the connection size counts the sequence count and everything after it; replies are measured as the "
                           "target builds them")
    ctx.conform("multi", "MultiReadTrace", reads(ctx), relax=relax)
    ctx.conform("write", "WriteTrace", writes(ctx), relax=relax)
