"""K03: the numbers of structure types."""
import os
import re


def count():
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "kinds.go")).read()
    return len(re.findall(r"^\t\w+\{\},$", src, re.M))


def scenarios(ctx):
    rng, out = ctx.rng, []
    every = list(range(-4, count()))
    for _ in range(ctx.pick(2, 30)):
        rng.shuffle(every)
        for i in range(0, len(every), 6):
            some = every[i:i + 6]
            zero = rng.choice([0, 0, 0, 1, 2])
            out.append(dict(seed=rng.randrange(1 << 30), kinds=some, do="name", zero=zero))
            for do in ("write", "map"):
                out.append(dict(seed=rng.randrange(1 << 30), kinds=some, do=do, zero=zero))
    return out


def check_k03(ctx):
    ctx.model_check("TypeNameMC", "TypeNameMC.cfg")
    ctx.explain.append("TypeName.tla: the text and the number of a structure type, built field by field.  TLC: every hidden byte of the layout is named "
                       "once, in step with the layout of PackLayout.tla, types of the same text take the same room, published examples come out; then the "
                       "real code names 480 declared types and the predefined ones, and the real client writes values of them (one by one and several in "
                       "a message) to a target that records number, count and bytes; TLC validates each against text, CRC and layout of the specification")
    ctx.conform("naming", "TypeNameTrace", scenarios(ctx), par=8)
