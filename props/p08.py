import random
from lib.common import parse_events


def rand(rng, n):
    L = []
    for _ in range(n):
        L.append("begin")
        for _ in range(rng.randint(4, 25)):
            x, k = rng.random(), rng.randint(1, 2)
            if x < .15:
                L.append(f"{rng.choice(['resize', 'ctor'])} {k} {rng.randint(0, 5)} {rng.randint(0, 5)} {rng.choice([0, 0, 3, -2])}")
            elif x < .2:
                L.append(f"copy {k} {3-k}")
            elif x < .25:
                L.append(f"extract {k} {rng.randint(0, 4)} {rng.randint(0, 4)} {rng.choice([0, 4])}")
            else:
                L.append(f"{rng.choice(['set', 'sets', 'add', 'adds'])} {k} {rng.randint(0, 5)} {rng.randint(0, 5)} {rng.randint(-50, 50)}")
    return L


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS Shape Injective Emit\nPROPERTY CellLocal\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("ObsMatMC", f"SPECIFICATION Spec\nCONSTANTS K = {4 if ctx.quick else 5}\n EMIT = FALSE\nVIEW View\n" + inv)
    scn = ctx.gen_scenarios("ObsMatMC", "SPECIFICATION Spec\nCONSTANTS K = 3\n EMIT = TRUE\n" + inv)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    L = []
    for s in scn[:2500 if ctx.quick else 50000]:
        L.append("begin")
        L += [" ".join(map(str, h)) for h in s]
    exe = ctx.build("p08.cpp", flags=["-fsanitize=address,undefined"])
    for kind in ("int", "dbl", "cplx"):
        text = "\n".join(L + rand(rng, 300 if ctx.quick else 4000)) + "\n"
        ctx.conform("ObsMatTrace", lambda: parse_events(ctx.run(exe, [kind], stdin=text).stdout))
