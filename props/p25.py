import random
from concurrent.futures import ThreadPoolExecutor
from lib.common import parse_events
from props.p31 import builds

MC = "SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n P = %d\n B = %d\n Start <- %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Detailed Stationary Conserves Connected\n"


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(2, 2, 2, 3, "StartSeq"), (1, 3, 3, 3, "StartTri")] if ctx.quick else [(2, 2, 2, 4, "StartSeq"), (1, 3, 3, 4, "StartTri"), (3, 1, 3, 4, "StartTri"), (1, 4, 2, 4, "StartSeq"), (4, 1, 2, 4, "StartSeq")]):
        ctx.model_check("SamplerMC", MC % q, label="%dx%d, %d states, weights to %d" % q[:4])
    exe = builds(ctx, "upd.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    q = ctx.quick
    for rnd in range(1 if q else 8):
        J = []          # (executable, line)
        for cx in (0, 1):
            for kind, P in (("ex", 2), ("ex", 3), ("full", 2), ("hub", 4), ("full", 3)):
                for r, c in ((2, 2), (2, 3), (3, 2), (3, 3)) + (() if q else ((2, 4), (4, 2), (3, 4), (4, 3))):
                    J.append((cx, f"{kind} {r} {c} {rng.choice([1, 2, 2])} {P} 0 chain {6 if q else 12}"))
                J.append((cx, f"{kind} 2 2 2 {P} 1 chain 5"))
                J.append((cx, f"{kind} 2 3 2 {P} 0 same 2"))
            for r, c, P, f in ((3, 3, 2, 0), (3, 4, 3, 0), (4, 3, 2, 0), (3, 3, 5, 1), (4, 3, 5, 1)):
                J.append((cx, f"tnn {r} {c} 2 {P} {f} chain 6"))
            for kind, P in (("exp", 2), ("exp", 3), ("fullp", 2)):
                for L in (2, 3):
                    J.append((2 + cx, f"{kind} {L} {L} {2 if L == 2 else 1} {P} 0 chain {6 if q else 12}"))
                J.append((2 + cx, f"{kind} 2 2 2 {P} 0 same 2"))
            # distributions
            n = 4000 if q else 12000
            J += [(cx, f"ex 2 2 2 2 0 pi {n}"), (cx, f"ex 2 2 2 3 0 pi {n}"), (cx, f"full 2 2 2 2 0 pi {n}"), (cx, f"hub 2 2 2 4 0 pi {n}"), (cx, f"ex 2 2 2 2 0 kern {n}"), (cx, f"ex 2 2 2 3 0 kern {n}"),
                  (2 + cx, f"exp 2 2 2 2 0 pi {n}"), (2 + cx, f"exp 2 2 2 2 0 kern {n}"), (2 + cx, f"exp 3 3 1 2 0 kern {n}"), (2 + cx, f"fullp 2 2 2 2 0 pi {n}"), (cx, f"full 2 2 1 2 0 pi {n}"), (cx, f"tnn 3 3 2 2 0 pi {2000 if q else 5000}"), (cx, f"ex 2 3 2 2 0 pi {n}")]
            if not q:
                J += [(cx, f"ex 3 2 2 2 0 kern {n}"), (cx, f"hub 2 2 1 4 0 pi {n}"), (cx, f"full 2 2 2 3 0 pi {n}"), (2 + cx, f"exp 2 2 2 3 0 pi {n}"), (cx, f"tnn 3 3 1 2 0 pi {n}")]
        J += [(0, "ex 2 2 2 2 0 visit 2000"), (0, "full 2 2 2 2 0 visit 3000"), (0, "hub 2 2 2 4 0 visit 2000"), (2, "exp 2 2 2 2 0 visit 2000"), (2, "fullp 2 2 2 2 0 visit 3000")]
        # equal weights are what a symmetric state has: several sign-only and repeated-tensor states for the multi-state updates
        J += [(0, f"full 2 2 1 2 0 pi {n}") for _ in range(3)] + [(0, f"full 2 2 1 2 1 pi {n}"), (0, f"hub 2 2 1 4 1 pi {n}"), (2, f"fullp 2 2 1 2 1 pi {n}")]
        J = [(k, f"{sd()} {l}") for k, l in J]
        order = sorted(range(len(J)), key=lambda i: (" tnn" not in J[i][1], "pi" not in J[i][1] and "visit" not in J[i][1]))
        def record():
            with ThreadPoolExecutor(8) as ex:
                res = dict(ex.map(lambda i: (i, parse_events(ctx.run(exe[J[i][0]], stdin=J[i][1] + "\n").stdout)), order))
            return [e for i in range(len(J)) for e in res[i]]
        ctx.conform("SamplerTrace", record)
    ctx.assumptions.append("distributions are judged from independent runs at six standard deviations of the binomial count")
