import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 18)
    O.mc(ctx, Algs='{"mom"}', Retries="{1}", Energies="{1}", Kinds='{"ok", "s1", "s4"}', MaxIter=3)
    L = []
    for i in range(1000 if ctx.quick else 10000):
        L.append(O.rnd(rng, chk="flow,state,result,lr,conv,log,ckpt,stats,ranks", alg=rng.choice(["sgd", "mom", "nag", "sr"]), n=1, runs=rng.choice([2, 3]), auto=rng.randint(0, 1), jsonl=1, csv=1, ck=rng.choice([0, 1, 2]),
                        pat=rng.choice([2, 99]), stop=rng.choice([1, 2, 99, 99]), lrs=rng.choice(["4", "4,2,8,1"])))
    for i in range(400 if ctx.quick else 4000):
        L.append(O.rnd(rng, chk="flow,state,result,lr,conv,log,ckpt,stats,ranks", alg=rng.choice(["sgd", "sr"]), n=1, runs=2, auto=0, rollb=0, jsonl=1, csv=1, selI=rng.choice([0, 2, 3]), selN=rng.choice([0, 1, 2]), lrs="128", x0=100000))
    O.run(ctx, L)
