import random
from lib import ruleslib as L


def run(ctx):
    rng = random.Random(ctx.seed + 20)
    L.laws(ctx, "clip", 3 if ctx.quick else 9, cv="{0, 1, 2, 3}", cn="{0, 2, 3, 5}")
    # clipping acts for first-order rules only: L-BFGS with the same thresholds must ignore them
    L.run(ctx, [L.line(rng, ["sgd", "sgd", "mom", "nag", "ada", "adam", "lbfgs"], clip=True) for _ in range(900 if ctx.quick else 20000)])
