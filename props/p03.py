import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS VarNonNegative InitIff MeanInHull ConstantSeries ExactDiv Emit\nPROPERTIES ResetFresh\nCHECK_DEADLOCK FALSE\n"
    k = 5
    scn = ctx.gen_scenarios("EmaMC", f"SPECIFICATION Spec\nCONSTANTS K = {k}\n Vals = {{0,1,3,7}}\n Windows = {{1,3}}\n EMIT = TRUE\n" + inv)
    ctx.model_check("EmaMC", "SPECIFICATION Spec\nCONSTANTS K = 6\n Vals = {0,1,2,5}\n Windows = {1,3}\n EMIT = FALSE\n" + inv)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    L = []
    for s in scn[:3000 if ctx.quick else 10 ** 6]:
        L.append(f"begin {s['w']} 1")
        sg = rng.choice([1, -1])
        L += [("reset" if o == 99 else f"u {sg*o} 1") for o in s["ops"]]
    for _ in range(200 if ctx.quick else 4000):
        w = rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 1000])
        L.append(f"begin {w} {2 if w == 50 and rng.random() < .5 else 0}")
        for _ in range(rng.randint(3, 60)):
            x = rng.random()
            if x < 0.9:
                v = rng.choice([rng.randint(-64, 64), rng.randint(-8, 8), 7])
                L.append(f"u {v} 8")
            elif x < 0.95:
                L.append("reset")
            else:
                L.append("copy")
    text = "\n".join(L) + "\n"
    exe = ctx.build("p03.cpp", flags=["-fsanitize=address,undefined"])
    ctx.conform("EmaTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
