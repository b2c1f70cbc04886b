import random
from props.p31 import builds
from props.p38 import recorder

MC = "SPECIFICATION Spec\nCONSTANTS NS = %d\n NP = %d\n Vals <- %s\nCHECK_DEADLOCK FALSE\nINVARIANTS CenteringWorks RowsVanish PushThrough Positive ShiftFree Filter Orthogonal\n"


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(3, 2, "V2"), (4, 1, "V1")] if ctx.quick else [(3, 2, "V1"), (4, 2, "V2"), (5, 1, "V1"), (3, 3, "V2")]):
        ctx.model_check("NatGradMC", MC % q, label="%d samples of %d parameters over %s" % q)
    exe = builds(ctx, "natgrad.cpp", kinds=(0, 1))
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 20):
        J = []
        for kind in range(2):
            for _ in range(60):
                g = "%d %d %d" % rng.choice([(1, 2, 1), (2, 2, 1), (1, 3, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 1, 1)])
                run_ = lambda hi=5: f"{rng.randint(1, hi)} {rng.randrange(3)}"
                J.append((kind, f"{sd()} T {g} {run_()} {rng.randint(1, 3)}"))
                J.append((kind, f"{sd()} G {g} {run_(4)} {rng.randint(1, 3)} {rng.choice([1, 2, 4, 8])}"))
                J.append((kind, f"{sd()} S {g} {run_(4)} {rng.randint(1, 3)} {rng.choice([1, 2, 4])} {rng.choice([1, 2, 4])} {rng.randrange(2)}"))
                n = rng.choice([1, 2, 4, 8])
                J.append((kind, f"{sd()} E {n} {rng.choice([k for k in (1, 2, 4) if k <= n])} {rng.randrange(3)} {rng.randrange(2)} {rng.randrange(3)} {rng.randrange(5)} {rng.choice([0, 0, 1, 1, 1, 2])}"))
                J.append((kind, f"{sd()} D {rng.choice([4, 8, 8])} {rng.choice([1, 2, 4])} {rng.randrange(3)} {rng.randrange(2)} {rng.randrange(3)} {rng.randrange(5)} {rng.choice([1, 2, 4])}"))
        ctx.conform_all("NatGradTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::3]) for k in range(2) for i in range(3)])
    ctx.assumptions.append("eigenvalues never lie exactly on a hard cutoff; the eigensolver behind LAPACKE is the stand-in's; ScaLAPACK is not compiled in, so the distributed solver must refuse")
