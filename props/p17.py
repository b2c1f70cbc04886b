import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 17)
    O.mc(ctx, Algs='{"sgd"}', Retries="{1}", Energies="{1, 2}", Kinds='{"ok", "s1", "s4"}', MaxIter=3)
    L = []
    for i in range(1500 if ctx.quick else 15000):
        L.append(O.rnd(rng, chk="flow,log,ckpt,state,lr,ranks", alg=rng.choice(["sgd", "mom", "sr"]), auto=rng.randint(0, 1), jsonl=rng.choice([1, 1, 0]) or 1, csv=1, ck=rng.choice([0, 1, 2, 3]), maxIter=rng.randint(1, 10),
                        pat=rng.choice([2, 99]), stop=rng.choice([1, 2, 3, 99, 99]), lrs=rng.choice(["4", "4,2,8,1", "1,3"])))
    for i in range(400 if ctx.quick else 4000):   # with step selection
        L.append(O.rnd(rng, chk="flow,log,ckpt,lr,ranks", alg=rng.choice(["sgd", "sr"]), auto=0, rollb=0, jsonl=1, csv=1, ck=rng.choice([0, 1, 2]), maxIter=rng.randint(1, 8), selI=rng.choice([0, 3]), selN=rng.choice([1, 2, 3]), lrs="128", x0=100000))
    O.run(ctx, L)
