import random
from props.p31 import builds
from props.p38 import recorder

MC = "SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n Dim = %d\n Name = \"%s\"\n Par <- %s\n Vals <- %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Hermitian %s\n"


def laws(ctx, which):
    for q in ([(1, 2, 2, "xxz", "ParX", "V2"), (2, 2, 1, "tfim", "ParT", "V0")] if ctx.quick else
              [(1, 2, 2, "xxz", "ParX", "V3"), (1, 2, 2, "tfim", "ParT", "V2"), (2, 1, 2, "xxz", "ParX", "V2"), (2, 2, 1, "j1j2", "ParX", "V0"), (2, 2, 1, "tfim", "ParT", "V1")]):
        ctx.model_check("EstimateMC", MC % (*q, which), label="%dx%d D=%d %s %s%s: %s" % (*q, which))


def run(ctx):
    rng = random.Random(ctx.seed)
    laws(ctx, "Derivative Scaling")
    exe = builds(ctx, "engine.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for kind in range(4):
            for _ in range(30 if kind < 2 else 6):
                m = rng.choice(["xxz", "j1j2", "tfim"])
                r, c = rng.choice([(2, 2)] * 4 + [(2, 3), (3, 2)] if kind < 2 else [(2, 2)])
                p = [rng.choice([-2, -1, 1, 2, 3]) for _ in range(5)]
                if m == "tfim":
                    p = [rng.choice([0, 1, 3]), 0, 0, 0, 0]
                if kind > 1 and m == "xxz":
                    p[4] = 0
                pick = rng.choice([-1, -2, -2] if m == "tfim" else [-2, -2, 1, 2, rng.randint(0, r * c)])
                J.append((kind, f"{sd()} X {r} {c} 2 {m} {rng.randint(1, 5)} {rng.randrange(3)} {pick} " + " ".join(map(str, p))))
        ctx.conform_all("EstimateTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::2]) for k in range(4) for i in range(2)])
    ctx.assumptions.append("configurations of zero amplitude are left out of the list that is summed over (their local energy is 0/0)")
