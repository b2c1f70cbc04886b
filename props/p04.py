import itertools
import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    n, b = (4, 5) if ctx.quick else (5, 6)
    ctx.model_check("SuwaTodo", f"SPECIFICATION Spec\nCONSTANTS MaxN = {n}\n B = {b}\nINVARIANTS RingIsGood Stationary SwapGood\nCHECK_DEADLOCK FALSE\n")
    vecs = []
    for k, bb in ((1, 6), (2, 6), (3, 5), (4, 3)) if ctx.quick else ((1, 20), (2, 20), (3, 9), (4, 5), (5, 3)):
        vecs += [v for v in itertools.product(range(bb + 1), repeat=k) if any(v)]
    ctx.notes["exhaustive_weight_vectors"] = len(vecs)
    for _ in range(300 if ctx.quick else 5000):
        k = rng.randint(2, 12)
        style = rng.random()
        if style < .3:
            v = [rng.randint(0, 4) for _ in range(k)]
        elif style < .6:
            v = [rng.choice([0, 1, 1, 2]) for _ in range(k)]
            v[rng.randrange(k)] = rng.randint(1, 40)
        else:
            v = [rng.randint(0, 30) for _ in range(k)]
        if any(v):
            vecs.append(tuple(v))
    for _ in range(8 if ctx.quick else 60):      # weights of very different size
        k = rng.randint(2, 5)
        v = [rng.randint(1, 5) for _ in range(k)]
        for i in rng.sample(range(k), rng.randint(1, k - 1)):
            v[i] = rng.randint(200, 20000 if ctx.quick else 200000)
        vecs.append(tuple(v))
    lines = []
    for v in vecs:
        lines.append(f"{rng.choice([0, 0, -3, 60, -60, 300, -300])} " + " ".join(map(str, v)))
    exe = ctx.build("p04.cpp")
    text = "\n".join(lines) + "\n"
    ctx.conform("SuwaTodoTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout), begin=lambda e: True,
                constants="CONSTANTS MaxN = 1\n B = 1")
    ctx.assumptions.append("the update consumes uniformly distributed random bits; one draw of 64 bits decides the target")
