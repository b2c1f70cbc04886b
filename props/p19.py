import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 19)
    O.mc(ctx, Algs='{"sgd"}', Retries="{0}", Energies="{1, 2}", Kinds='{"ok"}', MaxIter=3, Sels="{0, 1, 2, 3}", Rolls="{FALSE}")
    L = []
    for i in range(3000 if ctx.quick else 30000):
        selI, selN = rng.choice([(0, 1), (0, 2), (0, 3), (1, 0), (2, 0), (3, 0), (3, 1), (2, 2), (4, 3)])
        L.append(O.rnd(rng, chk="flow,state,lr,log,ranks", alg=rng.choice(["sgd", "sr"]), auto=0, rollb=0, jsonl=1, selI=selI, selN=selN, phase=rng.choice([0, 1, 2, 3, 4]), maxIter=rng.randint(1, 8), lrs="128", x0=100000,
                        eonly=rng.randint(0, 1), det=0, es=[1, 2, 3, 4, 5], gs=[64, 32, -64], errs=[0, 1, 1, 2]))
    O.run(ctx, L)
