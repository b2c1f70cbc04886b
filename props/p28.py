import random
from props.p31 import builds
from props.p38 import recorder
from props.p33 import laws


def run(ctx):
    rng = random.Random(ctx.seed)
    laws(ctx, "Sampled Scaling")
    exe = builds(ctx, "engine.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for kind in range(4):
            for _ in range(26 if kind < 2 else 8):
                m = rng.choice(["xxz", "j1j2", "tfim"])
                r, c = rng.choice([(2, 2)] * 4 + [(2, 3), (3, 2)] if kind < 2 else [(2, 2)])
                p = [rng.choice([-2, -1, 1, 2, 3]) for _ in range(5)]
                if m == "tfim":
                    p = [rng.choice([0, 1, 3]), 0, 0, 0, 0]
                if kind > 1 and m == "xxz":
                    p[4] = 0
                ops = "".join(rng.choice("vvn") for _ in range(rng.randint(1, 3)))
                J.append((kind, f"{sd()} M {r} {c} 2 {m} {rng.randint(1, 4)} {rng.randrange(3)} {rng.randint(1, 7)} {rng.randint(1, 3)} 0 {rng.randrange(2)} {ops} " + " ".join(map(str, p))))
        ctx.conform_all("EstimateTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::2]) for k in range(4) for i in range(2)])
    ctx.assumptions.append("samples come from a scripted updater; what the real updaters draw is judged by P31")
