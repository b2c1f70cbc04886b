import random
from props.p31 import builds
from props.p38 import MC, recorder


def run(ctx):
    rng = random.Random(ctx.seed)
    laws = "Places Identity Linear Commute Real Relabel"
    for q in ([(2, 2, 0, 1, laws)] if ctx.quick else [(2, 2, 0, 2, laws), (1, 4, 0, 2, laws), (4, 1, 0, 2, laws), (3, 2, 0, 1, laws)]):
        ctx.model_check("StatesMC", MC % q, label="%dx%d bc=%d depth %d" % q[:4])
    exe = builds(ctx, "states.cpp", (0, 1))
    sd = lambda: rng.randrange(1, 10**6)
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for r, c, bc, D, P, k in [(2, 2, 0, 2, 2, 6), (2, 2, 0, 2, 3, 3), (2, 3, 0, 2, 2, 4), (3, 2, 0, 2, 2, 4), (1, 3, 0, 3, 3, 3), (3, 1, 0, 3, 3, 3), (3, 3, 0, 2, 2, 2), (3, 3, 1, 1, 2, 3), (2, 2, 1, 2, 2, 3), (3, 2, 1, 1, 2, 3), (2, 3, 1, 1, 2, 3), (1, 2, 0, 3, 4, 2)]:
            for _ in range(k):
                for kind in (0, 1):
                    gates = ("h" if r == 1 else "v" if c == 1 else "hvABCD")
                    ops = "".join(rng.choice(gates) if rng.random() < 0.65 else rng.choice("RNwc") for _ in range(3 if r * c > 6 or bc else 6))
                    J.append((kind, f"{sd()} G {r} {c} {bc} {D} {P} {ops}"))
        for r, c, bc, D, P, k in [(1, 2, 0, 3, 2, 3), (1, 2, 0, 3, 3, 2), (2, 1, 0, 3, 2, 3), (1, 4, 0, 2, 2, 2), (4, 1, 0, 2, 2, 2), (2, 2, 0, 2, 2, 4), (2, 2, 0, 2, 3, 1), (2, 3, 0, 2, 2, 3), (3, 2, 0, 2, 2, 3), (3, 3, 0, 2, 2, 1), (3, 3, 1, 2, 2, 1)]:
            for _ in range(k):
                for kind in (0, 1):
                    gates = ("hhh" if r == 1 else "vvv" if c == 1 else "hvABCD" if r * c <= 6 else rng.choice(["hA", "vB", "CD", "hC", "vD"]))
                    J.append((kind, f"{sd()} E {r} {c} {bc} {D} {P} {gates}"))
        ctx.conform_all("StatesTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::3]) for k in (0, 1) for i in range(3)])
    ctx.assumptions.append("local energies are compared where the cluster is joined to the rest by bonds of dimension one, so that they are expectation values of the whole state; elsewhere they are mean-field estimates and only the state is compared")
