import random
from props.p31 import builds
from props.p38 import recorder

MC = 'SPECIFICATION Spec\nCONSTANTS K = %d\n Pat = %d\n MinS = %d\n R = %d\n C = %d\n BC = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n'
LOOP = "Sound Prompt Complete Agrees\nPROPERTY Restarts"
COVER = "Halves OnceEach"


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(4, 2, 2, 2, 2, 0, LOOP), (0, 1, 1, 3, 3, 0, COVER), (0, 1, 1, 2, 4, 0, COVER)] if ctx.quick else
              [(5, 2, 2, 2, 2, 0, LOOP), (5, 1, 3, 2, 2, 0, LOOP), (5, 3, 1, 2, 2, 0, LOOP)] + [(0, 1, 1, r, c, bc, COVER) for r, c, bc in ((2, 2, 0), (3, 3, 0), (2, 5, 0), (4, 3, 0), (3, 3, 1), (1, 4, 0), (4, 1, 0))]):
        ctx.model_check("SimpleUpdateMC", MC % q, label="K=%d patience %d min %d, %dx%d bc=%d" % q[:6])
    exe = builds(ctx, "su.cpp", (0, 1))
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 15):
        J = []
        for kind in (0, 1):
            add = lambda *a: J.append((kind, " ".join(str(x) for x in (sd(), *a))))
            for _ in range(40):
                add("M", 1, 1, 0, 1, 2, "".join(rng.choice("aaaaparab") for _ in range(25)))
            for _ in range(12):
                add("K", 1, 1, 0, 1, rng.choice([2, 2, 3]), "112223" if rng.random() < 0.5 else "1222")
            for r, c, bc, D, P, k in [(2, 2, 0, 2, 2, 8), (2, 2, 0, 2, 3, 2), (2, 3, 0, 2, 2, 6), (3, 2, 0, 2, 2, 6), (3, 3, 0, 1, 2, 4), (3, 3, 1, 1, 2, 4), (2, 3, 1, 1, 2, 2)]:
                for _ in range(k):
                    add("N", r, c, bc, D, P, "sts")
                    add("X", r, c, bc, D, P, "sts")
                    if not bc:
                        add("T", r, c, bc, D, P, "sts")
            for r, c in ((1, 2), (1, 3), (1, 5), (2, 1), (3, 1), (5, 1)):
                for _ in range(3):
                    add("N", r, c, 0, 2, 2, "sts")
        ctx.conform_all("SimpleUpdateTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::3]) for k in (0, 1) for i in range(3)])
    ctx.assumptions.append("sweeps are judged for Hamiltonians diagonal in the physical basis, for which the result does not depend on the order of the gates; general gates are judged by P39 and the evolution operator by its exact exponential")
