import itertools
import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    ctx.model_check("JastrowMC", f"SPECIFICATION Spec\nCONSTANTS MaxN = {3 if ctx.quick else 4}\n B = {2 if ctx.quick else 1}\nINVARIANTS Symmetric Local FieldIsDifference Bijection\nCHECK_DEADLOCK FALSE\n")
    L = []
    for ly, lx in itertools.product(range(1, 4 if ctx.quick else 5), repeat=2):
        n = ly * lx
        for rep in range(6 if ctx.quick else 30):
            L.append(f"begin {ly} {lx} " + " ".join(str(rng.choice([0, 1, 1, 2, 3])) for _ in range(n)))
            if n == 1:
                L.append("fill 1 1 1")
                continue
            for _ in range(rng.randint(2, 10)):
                if rng.random() < .15:
                    L.append(f"fill {rng.randint(-9, 9)} {rng.randint(-9, 9)} {rng.randint(-99, 99)}")
                else:
                    i, j = rng.sample(range(n), 2)
                    L.append(f"set {rng.choice(['set', 'sets', 'ref', 'refs'])} {i} {j} {rng.randint(-99, 99)}")
        # every pair once, distinct values: no two pairs share storage
        if n > 1:
            L.append(f"begin {ly} {lx} " + " ".join("1" for _ in range(n)))
            for q, (i, j) in enumerate(itertools.combinations(range(n), 2)):
                if rng.random() < .5:
                    i, j = j, i
                L.append(f"set {rng.choice(['set', 'sets', 'ref', 'refs'])} {i} {j} {q + 1}")
    exe = ctx.build("p35.cpp", shim=True, simmpi=True, flags=["-O0", "-D_GLIBCXX_ASSERTIONS"])
    text = "\n".join(L) + "\n"
    ctx.conform("JastrowTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
