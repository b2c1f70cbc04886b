import random
from lib.common import parse_events

SH = "1 2 2 1 1 2"


def hist_lines(h):
    L = [f"begin {SH}"]
    for o in h:
        if o["op"] in ("dump", "load"):
            L.append(f"{o['op']} {o['k']} {o['f']}")
        elif o["op"] == "set":
            L.append(f"set {o['k']} {o['i']} {o['x']}")
        else:
            L.append(f"hurt {o['f']} x " + " ".join(map(str, o["tok"])) + " | " + " ".join(map(str, o["side"])))
    return L + ["params x"]


def rand_lines(rng):
    shapes = [(rng.randint(1, 4), rng.randint(1, 4)) for _ in range(3)]
    if rng.random() < .5:
        shapes[1] = shapes[0][::-1]
    shapes[2] = shapes[0]
    L = ["begin " + " ".join(f"{a} {b}" for a, b in shapes)]
    cur = list(shapes)
    for _ in range(rng.randint(3, 14)):
        k = rng.randint(1, 3)
        r, c = cur[k - 1]
        op = rng.choice(["dump", "dump", "load", "load", "set", "fill", "fill", "rnd", "copy", "hurt", "dumpbad", "loadmiss", "params"])
        f = rng.choice([1, 1, 2])
        if op in ("dump", "load"):
            L.append(f"{op} {k} {f}")
        elif op == "set":
            L.append(f"set {k} {rng.randint(1, r * c)} {rng.choice([0, 1, 2, 11, 1000])}")
        elif op == "fill":
            how, d = rng.choice(["v", "m", "cv", "cm"]), rng.randint(1, 4)
            states = list(range(d)) if how[-1] == "v" else sorted(rng.sample(range(8), d))
            left, w = r * c + rng.choice([0, 0, 0, 0, 1, -1]), []
            for i, s in enumerate(states):
                x = left if i == d - 1 else rng.randint(0, max(left, 0))
                w.append((s, max(x, 0)))
                left -= x
            L.append(f"fill {k} {how} " + " ".join(f"{a} {b}" for a, b in w))
        elif op == "rnd":
            L.append(f"rnd {k} {rng.choice('mc')} {rng.randint(1, 4)}")
        elif op == "copy":
            q = rng.randint(1, 3)
            if q != k:
                cur[k - 1] = cur[q - 1]
                L.append(f"copy {k} {q}")
        elif op == "hurt":
            n = rng.choice([r * c, r * c, r * c - 1, 0, r * c + 2])
            tok = [rng.choice([0, 1, 2, 3, 3, 2, 1, -1 if rng.random() < .3 else 4]) for _ in range(n)]
            side = rng.choice([[], [-1], [r, c], [c, r], [r * c, 1]])
            L.append(f"hurt {f} x " + " ".join(map(str, tok)) + " | " + " ".join(map(str, side)))
        elif op == "dumpbad":
            L.append(f"dumpbad {k} {rng.choice(['isdir', 'full', 'nodir'])}")
        elif op == "loadmiss":
            L.append(f"loadmiss {k}")
        else:
            L.append("params x")
    return L


def run(ctx):
    rng = random.Random(ctx.seed)
    cfg = "SPECIFICATION Spec\nCONSTANTS K = {}\n EMIT = {}\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("ConfigStoreMC", cfg.format(3 if ctx.quick else 4, "FALSE") + "PROPERTIES RoundTrip DumpLoad OthersKept ShapeKept\n")
    S = ctx.gen_scenarios("ConfigStoreMC", cfg.format(3, "TRUE") + "INVARIANT Emit\n")
    rng.shuffle(S)
    L = []
    for h in S[:700 if ctx.quick else 10000]:
        L += hist_lines(h)
    for _ in range(700 if ctx.quick else 8000):
        L += rand_lines(rng)
    for _ in range(150 if ctx.quick else 1500):
        n = rng.randint(2, 4)
        a, b = rng.sample(range(n), 2)
        kind = rng.choice(["send", "bcast", "ring"])
        if kind == "ring":
            a, b = rng.randint(1, n - 1), 0
        L.append(f"mpi {kind} {n} {a} {b} {rng.randint(1, 4)} {rng.randint(1, 4)}")
    exe = ctx.build("p26.cpp", shim=True, simmpi=True, flags=["-O0"])
    text = "\n".join(L) + "\n"
    ctx.conform("ConfigStoreTrace", lambda: parse_events(ctx.run(exe, [ctx.sub("d")], stdin=text).stdout))
