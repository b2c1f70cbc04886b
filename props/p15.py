import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 15)
    O.mc(ctx, Algs='{"sgd"}', Retries="{0, 1}", Energies="{1, 2, 3}", Kinds='{"ok"}', MaxIter=4, Pats="{1, 9}", Stops="{1, 99}")
    L = []
    S = O.mc(ctx, emit=True, Algs='{"sgd"}', Retries="{0}", Energies="{1, 2, 3}", Kinds='{"ok"}', MaxIter=4, Pats="{1, 9}", Stops="{1, 99}", Rolls="{FALSE}")
    for c in rng.sample(S, min(len(S), 800 if ctx.quick else 10000)):
        p = c["p"]
        L.append(O.line(O.script_of(c["hist"]), chk="flow,state,result,lr,ranks", alg="sgd", auto=0, maxIter=4, pat=p["pat"], stop=p["stopAt"] if "stopAt" in p else p.get("stop", 99), x0=1000, n=rng.choice([1, 1, 2])))
    for i in range(1500 if ctx.quick else 15000):
        L.append(O.rnd(rng, chk="flow,state,result,lr,ranks", alg=rng.choice(["sgd", "mom", "nag", "sr"]), auto=rng.randint(0, 1), pat=rng.choice([1, 2, 3, 99]), stop=rng.choice([0, 1, 2, 3, 99, 99]), etol=rng.choice([0, 0, 1]),
                        maxIter=rng.randint(0, 9), es=rng.choice([[-3, -2, -2, -1], [0, 1, 2], [5, 6, 7, 8], [-1000000, 0, 1000000], [-7, 7]])))
    O.run(ctx, L)
