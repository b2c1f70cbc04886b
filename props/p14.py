import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed + 14)
    O.mc(ctx, Algs='{"mom"}', Retries="{1}", Energies="{1}", Kinds='{"ok", "s1", "s4"}', MaxIter=3)
    L = []
    for alg, kinds in (("mom", '{"ok", "s1", "s4"}'), ("nag", '{"ok", "s1", "s4"}'), ("sr", '{"ok", "s3", "s4"}')):
        for c in rng.sample(S := O.mc(ctx, emit=True, Algs=f'{{"{alg}"}}', Retries="{0, 1}", Energies="{1}", Kinds=kinds, MaxIter=3 if ctx.quick else 4), min(len(S), 500 if ctx.quick else 8000)):
            p = c["p"]
            h = [dict(k=x["k"], e=3 - i % 2) for i, x in enumerate(c["hist"])]
            L.append(O.line(O.script_of(h), chk="flow,state,lr,result,ranks", alg=alg, auto=int(p["auto"]), retries=p["retries"], rollb=int(p["rollb"]), maxIter=3 if ctx.quick else 4, x0=1000, lrs=rng.choice(["4", "4,2,8,1"])))
    for i in range(1200 if ctx.quick else 15000):
        L.append(O.rnd(rng, chk="flow,state,lr,result,ranks", alg=rng.choice(["sgd", "mom", "nag", "sr"]), auto=1))
    O.run(ctx, L)
