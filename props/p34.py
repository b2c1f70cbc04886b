import random
from props.p31 import builds
from props.p38 import recorder

MC = "SPECIFICATION Spec\nCONSTANTS NR = %d\n Sh = %d\n Wu = %d\n Sw = %d\n NK = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS SameCount OneKey Pooled AsPredicted InStep\nPROPERTY Ends\n"


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(2, 2, 1, 2, 2), (3, 2, 1, 1, 1)] if ctx.quick else [(2, 4, 2, 2, 2), (3, 2, 1, 2, 2), (2, 2, 1, 3, 3)]):
        ctx.model_check("MeasureMC", MC % q, label="%d ranks, %d samples, %d warm-up sweeps, %d sweeps, %d observables" % q)
    exe = builds(ctx, "meas.cpp", (0, 1))
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for kind in (0, 1):
            for i in range(150):
                r, c = rng.choice([(2, 2), (2, 3), (3, 2), (1, 3), (1, 2), (3, 3)])
                n = rng.choice([1, 2, 2, 3, 3, 4, 5])
                total, sweeps, wu = rng.randint(1, 5 * n), rng.choice([1, 1, 2, 3]), rng.randint(0, 3)
                if i % 25 == 0:
                    total = rng.randint(10, 24) * n
                ops = rng.choice(["x", "x", "xd", "xr", "rx", "r", "rxdr"])
                sig = (-1, -1) if rng.random() < 0.55 else (rng.randrange(n), rng.choice([0, 0, rng.randint(1, 1 + wu), rng.randint(1, 2 + wu + sweeps * 4)]))
                J.append((kind, f"{sd()} {r} {c} {rng.choice([2, 3])} {n} {rng.randrange(3)} {total} {sweeps} {wu} {rng.randrange(2)} {rng.randrange(2)} {rng.randrange(2)} {rng.choice(['.', './', 'out', 'a/b'])} {ops} {sig[0]} {sig[1]}"))
            J += [(kind, f"{sd()} F {f} {n}") for f in range(6) for n in (1, 2, 3) if f < 4 or n == 1]
        ctx.conform_all("MeasureTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::3]) for k in (0, 1) for i in range(3)])
