import random
from lib import optlib as O


def run(ctx):
    rng = random.Random(ctx.seed)
    if ctx.quick:
        O.mc(ctx, Algs='{"sgd", "sr"}', Retries="{0, 1}", Energies="{1}", Kinds='{"ok", "s1", "s3", "s4"}', MaxIter=3)
    else:
        O.mc(ctx, Algs='{"sgd", "sr"}', Retries="{0, 1, 2}", Energies="{1, 2}", Kinds='{"ok", "s1", "s3", "s4"}', MaxIter=3)
    L = []
    chk = "flow,ranks,stats"
    # every outcome history the specification allows, replayed in the real optimizer
    for alg, kinds in (("sgd", '{"ok", "s1", "s2", "s4"}'), ("sr", '{"ok", "s3", "s4"}')):
        S = O.mc(ctx, emit=True, Algs=f'{{"{alg}"}}', Retries="{0, 1}" if ctx.quick else "{0, 1, 2}", Energies="{1}", Kinds=kinds, MaxIter=3)
        rng.shuffle(S)
        for c in S[:1500 if ctx.quick else 20000]:
            p = c["p"]
            e0 = [(3 - i % 2) for i in range(len(c["hist"]))]
            h = [dict(k=x["k"], e=e0[i]) for i, x in enumerate(c["hist"])]
            L.append(O.line(O.script_of(h), chk=chk, alg=alg, auto=int(p["auto"]), retries=p["retries"], rollb=int(p["rollb"]), maxIter=3, x0=1000))
    # longer random histories, thresholds hit exactly, several ranks, complex energies
    for i in range(1500 if ctx.quick else 20000):
        alg = rng.choice(["sgd", "mom", "sr"])
        rollb = rng.randint(0, 1)
        sc = []
        for k in range(rng.randint(2, 14)):
            sc.append((rng.choice([-1, 0, 1, 1, 2, 3, 50, 400]), rng.choice([1, 1, 1, 1, 4, 5, 16, 64]), 64 * rng.choice([1, 1, 1, 1, 4, 5, 16]), rng.choice([5, 5, 5, 3, 1])))
        L.append(O.line(sc, chk=chk, alg=alg, auto=rng.randint(0, 3) and 1, retries=rng.randint(0, 3), rollb=rollb, maxIter=rng.randint(1, 8), x0=1000, sk10=rng.choice([7, 13, 23, 37]),
                        n=rng.choice([1, 1, 1, 2, 3]), elem=rng.choice("dc"), junk=rng.randint(0, 1), win=rng.choice([1, 3, 7])))
    O.run(ctx, L)
