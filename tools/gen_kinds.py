"""Writes harness/kinds.go: the named structure types that K03 names and writes."""
import random
import subprocess

rng = random.Random(7)
NUM = ["int8", "int16", "int32", "int64", "uint16", "uint32", "uint64", "float32", "float64"]
OWN = {"celsius": "float32", "count": "int32", "code": "int16", "wide": "uint64"}
PRE = ["TIMER", "COUNTER", "CONTROL", "STRING"]
NAMES = ["Pump", "Motor_Run", "X", "UDT", "AB_12", "recipeStep", "Valve2Way", "Z_", "StationData", "t", "PID_Loop", "Long_Name_Of_A_Structure_Type_Of_40_Chr"]
types, levels = [], []
used = set()


def name():
    while True:
        n = rng.choice(NAMES) + (str(rng.randint(0, 999)) if rng.random() < 0.9 else "")
        if len(n) <= 40 and n.lower() not in used:
            used.add(n.lower())
            return n


def add(fields, depth):
    n = name()
    types.append((n, fields))
    levels.append(depth)
    return n


def arr(p=0.3, most=12):
    return "[%d]" % rng.randint(1, most) if rng.random() < p else ""


def num():
    return rng.choice(list(OWN)) if rng.random() < 0.1 else rng.choice(NUM)


def sub(depth):
    return rng.choice([n for (n, _), d in zip(types, levels) if d < depth])


def field(depth):
    k = rng.random()
    if k < 0.4:
        return ["bool"] * rng.choice([1, 1, 1, 2, 3, 7, 8, 9, 16, 17])
    if k < 0.75 or depth == 0:
        return [arr(0.35, 120) + num()]
    if k < 0.83:
        return [arr(most=3) + "lgxtypes." + rng.choice(PRE)]
    return [arr(0.4, 3) + sub(depth)]


def shape(depth, n):
    out = []
    for _ in range(n):
        out += field(depth)
    return out[:60]


for t in NUM + list(OWN):
    add([t], 0)
add(["bool"], 0)
for n in (2, 8, 9, 33):
    add(["bool"] * n, 0)
for a in ("int8", "[2]int32", "lgxtypes.TIMER", "[2]lgxtypes.COUNTER", "lgxtypes.STRING", "lgxtypes.CONTROL"):
    for n in (1, 8):
        add(["bool"] * n + [a, "bool"], 0)
for s in ("", "[2]"):
    x = add(["int32", "bool", "bool"], 0)
    add(["bool", s + x, "bool", "bool", "int16"], 1)
    add(["bool", s + add(["bool"] * 3, 0), "bool", s + x], 1)
while len(types) < 480:
    d = rng.choice([0, 1, 1, 2, 2, 3])
    if d > 0 and len([x for x in levels if x < d]) == 0:
        continue
    add(shape(d, rng.choice([1, 2, 3, 4, 5, 8, 14])), d)

with open("harness/kinds.go", "w") as f:
    f.write("package main\n\n// Written by tools/gen_kinds.py.\n\nimport \"github.com/danomagnum/gologix/lgxtypes\"\n\n")
    for n, t in OWN.items():
        f.write("type %s %s\n" % ("own_" + n, t))
    for n, fs in types:
        f.write("\ntype %s struct {\n" % n)
        i = 0
        for t in fs:
            for o in OWN:
                if t == o or t.endswith("]" + o):
                    t = t[:len(t) - len(o)] + "own_" + o
            f.write("\tF%d %s\n" % (i, t))
            i += 1
        f.write("}\n")
    f.write("\nvar kinds = []any{\n" + "".join("\t%s{},\n" % n for n, _ in types) + "}\n")
subprocess.run(["gofmt", "-w", "harness/kinds.go"], check=True)
