import random
from lib import ruleslib as L


def run(ctx):
    rng = random.Random(ctx.seed + 21)
    L.run(ctx, [L.line(rng, ["sgd", "mom", "nag", "ada", "adam"], sel=True) for _ in range(1500 if ctx.quick else 30000)])
    L.run(ctx, [L.line(rng, ["mom", "nag", "ada", "adam"], clip=True, quad=True) for _ in range(500 if ctx.quick else 5000)])
