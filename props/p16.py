import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 16)
    O.mc(ctx, Algs='{"sgd"}', Retries="{0}", Energies="{1, 2, 3}", Kinds='{"ok"}', MaxIter=5, Pats="{1, 2, 3}", ETols="{0, 1, 2}", Stops="{2, 99}", Rolls="{FALSE}")
    L = []
    # all short energy/gradient histories at the thresholds
    for i in range(3500 if ctx.quick else 40000):
        m = rng.randint(1, 9)
        sc = [(rng.choice([1, 2, 3, 4, 7, -2]), rng.choice([1, 2]), rng.choice([3, 4, 4, 5, 6, 9]) * rng.choice([1, 1, -1]), 5) for _ in range(m + 2)]
        L.append(O.line(sc, chk="flow,conv,ranks", alg=rng.choice(["sgd", "sgd", "mom", "sr"]), auto=0, retries=0, maxIter=m, pat=rng.choice([1, 2, 3, 5, 99]), etol=rng.choice([0, 0, 1, 2, 3]), gtol=rng.choice([0, 0, 3, 4, 5]),
                        stop=rng.choice([99, 99, 99, 0, 1, 2, m - 1]), x0=1000, n=rng.choice([1, 1, 1, 2, 3]), elem=rng.choice("dc"), junk=rng.randint(0, 1)))
    O.run(ctx, L)
