"""C11: structure types."""

GEN = """SPECIFICATION Spec
CONSTANTS
    Len1 = 3
    MaxFail = %d
    Gen = TRUE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
ATOMIC = [0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xCA, 0xCB, 0xD1, 0xD2, 0xD3, 0xD4]
IDS = [[0x123, 0xFCE, 0x0F5], [1, 2, 3], [0xFFF, 0xF01, 0x100], [255, 256, 257], [0x800, 0x7FF, 9]]


def word(rng, used):
    while True:
        w = rng.choice("ABCdef_ZX") + "".join(rng.choice("abcXYZ019_") for _ in range(rng.choice([0, 1, 3, 10, 38])))
        if w.lower() not in used:
            used.add(w.lower())
            return w


def template(rng, tid, subs, n=None):
    """A template whose structure members are, in order, those of subs."""
    n = rng.choice([0, 1, 2, 5, 30]) if n is None else n
    kinds = [0] * n + list(subs)
    if n:
        order = sorted(rng.sample(range(n + len(subs)), len(subs)))
        kinds, it = [0] * (n + len(subs)), iter(subs)
        for i in order:
            kinds[i] = next(it)
    used, off, ms = set(), 0, []
    for s in kinds:
        info = 0
        if s:
            typ = 0x8000 | s
            if rng.random() < 0.4:
                typ, info = typ | 0x2000, rng.choice([1, 2, 10, 65535])
        else:
            typ = rng.choice(ATOMIC)
            if rng.random() < 0.2:
                typ, info = 0xC1, rng.randint(0, 7)
            elif rng.random() < 0.3:
                typ, info = typ | 0x2000, rng.choice([1, 5, 256, 40000])
            elif rng.random() < 0.1:
                typ |= 0x9000 if rng.random() < 0.5 else 0x1000
        ms.append(dict(name=word(rng, used), info=info, type=typ, off=off))
        off += rng.choice([0, 1, 4, 8, 200, 70000])
    name = word(rng, set())
    return dict(id=tid, name=name, tail=rng.choice(["", "n", "nEEBA", "n;x"]), size=max(off, 4), handle=rng.randint(0, 65535),
                members=ms, extra=rng.choice([0, 0, 1, 3, 8]))


def scenarios(ctx):
    rng = ctx.rng
    out = []
    beh = ctx.generate("TemplateMC", GEN % ctx.pick(1, 2))
    rng.shuffle(beh)
    for b in beh[:ctx.pick(900, 8000)]:
        ids = dict(enumerate(rng.choice(IDS), 1))
        ids[9] = 0x456
        ts = [template(rng, ids[i + 1], [ids[s] for s in subs if s], None if any(s == 0 for s in subs) else rng.choice([0, 2]))
              for i, subs in enumerate(b["shape"][:b["n"]])]
        call = dict(api=rng.choice(["members", "members", "all"]), tops=[ids[1]],
                    attrs=[[ids[s["i"]], s["s"], rng.choice([1, 2, 4, 5]) if s["n"] else 0] for s in b["steps"] if s["a"] == "attrs"],
                    parts=[[ids[s["i"]], s["n"], s["s"]] for s in b["steps"] if s["a"] == "part"])
        calls = [call]
        if rng.random() < 0.3:                        # once more, without trouble
            calls.append(dict(api="members", tops=[ids[1]], attrs=[], parts=[]))
        out.append(dict(templates=ts, calls=calls, units=3, size=0, fresh=rng.random() < 0.3))
    # families of all shapes and sizes, in small and large parts, with lost connections
    for i in range(ctx.pick(200, 2000)):
        n = rng.randint(1, 9)
        ids = rng.sample(range(1, 0x1000), n)
        ts = []
        for k in range(n):
            subs = [rng.choice(ids[k + 1:]) for _ in range(rng.choice([0, 1, 1, 2, 4]))] if k < n - 1 else []
            ts.append(template(rng, ids[k], subs, rng.choice([None, None, 60])))
        chunk = rng.choice([1, 7, 8, 9, 100, 400, 4000])
        calls = []
        for _ in range(rng.randint(1, 3)):
            parts = []
            for t in ts:
                m = rng.choice([0, 3, 200])
                parts += [[t["id"], max(1, chunk), 6]] * m
                if rng.random() < 0.05:
                    parts.append([t["id"], 0, rng.choice([-1, 6, 5, 0xFF])])
            api = rng.choice(["members", "members", "all"])
            tops = [ids[0]] if api == "members" else rng.sample(ids, rng.randint(1, n))
            calls.append(dict(api=api, tops=tops, parts=parts,
                              attrs=[[rng.choice(ids), rng.choice([-1, 5, 0]), rng.choice([1, 2, 4, 5])]] if rng.random() < 0.15 else []))
        out.append(dict(templates=ts, calls=calls, units=0, size=rng.choice([0, 0, 504]), fresh=rng.random() < 0.5))
    return out


def check_c11(ctx):
    ctx.model_check("TemplateMC", "TemplateMC.cfg")
    ctx.explain.append("Template.tla: every client that asks for what is missing, and only for what whole definitions name, against "
                       "every split and failure of the definitions of four families of templates (alone, nested, shared, missing), "
                       "with termination and single fetching as properties; its behaviours and random families with up to nine "
                       "templates and 60 members run through ListMembers and ListAllTags; requests and the resulting member trees "
                       "are validated by TLC, which derives the expected tree from the definitions")
    ctx.assumptions.append("templates do not contain themselves; definitions do not change")
    ctx.conform("template", "TemplateTrace", scenarios(ctx))
