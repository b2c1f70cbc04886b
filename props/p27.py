import random
from props.p31 import builds
from props.p38 import recorder

MC = "SPECIFICATION Spec\nCONSTANTS NR = %d\n A2s = {%s}\n Los = {0,3,5}\n His = {9,401}\n WU = %d\n Depth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS StartsLegal LargestIsOne OneState WarmOnce\nPROPERTIES StaysWarm Borrowed\n"


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(3, "0,1,4,9", 2, 2)] if ctx.quick else [(3, "0,1,4,9", 2, 4), (4, "0,1,9", 1, 2), (2, "0,1,2,4,9,16", 3, 4)]):
        ctx.model_check("EngineMC", MC % q, label="%d ranks, weights %s, warm-up %d, depth %d" % q)
    exe = builds(ctx, "engine.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for kind in range(4):
            for _ in range(60 if kind < 2 else 24):
                r, c = rng.choice([(2, 2), (2, 3), (1, 3), (3, 2), (1, 2), (3, 3)] if kind < 2 else [(2, 2)] * 5 + [(3, 3)] * (rnd % 2))
                J.append((kind, f"{sd()} I {r} {c} {2 if kind < 2 or r < 3 else 1} {rng.randint(1, 5)} {rng.randrange(3)} {rng.choice([1, 1, 1, 0])} %d %d {rng.randint(0, 3)}" % rng.choice([(0, 401), (0, 401), (1, 401), (3, 401), (0, 13), (0, 21), (0, 9)])))
            for r in range(1, 7):
                for c in (r, r + 1, r + 3):
                    for bc in (0, 1):
                        for t in (0, 1):
                            if c > 1:
                                J.append((kind, f"{sd()} V {r} {c} {bc} {t}"))
            J += [(kind, f"{sd()} V {r} {r} 1 1") for r in (7, 8, 9, 10, 12)]
        ctx.conform_all("EngineTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::2]) for k in range(4) for i in range(2)])
    ctx.assumptions.append("the threshold 0 of the scenarios stands for 1e-9: amplitudes that are zero up to rounding count as zero")
