import random
from lib.common import parse_events
from props.p31 import builds

MC = 'SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n BC = %d\n Depth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nPROPERTY Local\n'


def recorder(ctx, exe, kind, lines):
    return lambda: parse_events(ctx.run(exe[kind], stdin="\n".join(lines) + "\n").stdout)


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(1, 3, 0, 2, "Places Identity Linear Relabel")] if ctx.quick else [(1, 3, 0, 2, "Places Identity Linear Relabel"), (2, 2, 0, 2, "Places Identity Linear Relabel")]):
        ctx.model_check("StatesMC", MC % q, label="%dx%d bc=%d depth %d" % q[:4])
    exe = builds(ctx, "states.cpp", (0, 1))
    sd = lambda: rng.randrange(1, 10**6)
    # rows, columns, periodic, bond dimension, levels, how many
    cases = [(2, 2, 0, 3, 2, 6), (2, 2, 0, 2, 3, 3), (2, 2, 1, 2, 2, 4), (2, 3, 0, 2, 2, 3), (3, 2, 0, 2, 2, 3), (2, 3, 1, 2, 2, 1), (3, 2, 1, 2, 2, 1), (1, 2, 0, 3, 4, 2), (2, 1, 0, 3, 4, 2),
             (1, 3, 0, 3, 3, 3), (3, 1, 0, 3, 3, 3), (1, 5, 0, 2, 2, 2), (5, 1, 0, 2, 2, 2), (3, 3, 0, 2, 2, 1), (1, 1, 0, 1, 3, 1)]
    for rnd in range(1 if ctx.quick else 12):
        J = []
        for r, c, bc, D, P, k in cases:
            for _ in range(k):
                for kind in (0, 1):
                    pool = "nq+alLgspw"
                    ops = "".join(rng.sample("nqi", 2)) + "".join(rng.choice(pool) for _ in range(6 if r * c < 6 else 3)) + rng.choice("aL")
                    J.append((kind, f"{sd()} S {r} {c} {bc} {D} {P} {ops}"))
        ctx.conform_all("StatesTrace", [recorder(ctx, exe, k, [l for q, l in J if q == k][i::3]) for k in (0, 1) for i in range(3)])
