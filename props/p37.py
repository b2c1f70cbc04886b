import random
from concurrent.futures import ThreadPoolExecutor
from lib.common import parse_events
from props.p31 import builds

MC = 'SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n BC = %d\n Names = {%s}\nCHECK_DEADLOCK FALSE\nINVARIANTS Symmetric BondsOnce\nPROPERTY Conserved\n'
SPIN = '"xxz", "j1j2", "tri", "trij2", "tfim", "sf"'


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(2, 2, 0, SPIN), (1, 3, 0, '"hub", "tJ", "tJn"')] if ctx.quick else
              [(2, 2, 0, SPIN + ', "hub", "tJ", "tJn"'), (2, 3, 0, SPIN), (3, 2, 0, SPIN), (2, 2, 1, '"xxz", "j1j2", "tfim"'), (3, 3, 1, '"xxz", "j1j2", "tfim"'), (1, 4, 0, '"hub", "tJ", "tJn"')]):
        ctx.model_check("ModelsMC", MC % q, label="%dx%d bc=%d %s" % (*q[:3], q[3].replace('"', "")))
    exe = builds(ctx, "model.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    n = lambda *v: " ".join(str(x) for x in (list(v) + [0] * 5)[:5])
    par = lambda: [rng.choice([-3, -2, -1, 1, 2, 3, 4]) for _ in range(5)]
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3)] + ([] if ctx.quick else [(2, 5), (5, 2), (3, 5), (5, 3), (4, 4)])
    for rnd in range(1 if ctx.quick else 8):
        J = []
        for cx in (0, 1):
            for r, c in sizes:
                D = 3 if r * c <= 4 else 2
                for m in ("xxz", "j1j2", "tri", "trij2", "tfim", "sf", "hub", "tJ", "tJn", "tJj"):
                    p = par()
                    if m == "tfim":
                        p = [rng.choice([0, 0, 1, 3, -2])]
                    if m in ("trij2",):
                        p = p[:1]
                    if m == "tri":
                        p = []
                    ops = rng.choice(["ehmohmo", "omhmeoa", "hnoeho", "oomnhh"])
                    if m in ("xxz", "tri"):
                        ops = rng.choice(["smo", "osmh", "hses", "smsh"]) + ops[:3]
                    J.append((cx, f"{m} {r} {c} {1 if m == 'hub' and r * c > 9 else D} {ops} {n(*p)}"))
            for m in ("xxz", "j1j2", "tfim"):
                for L, k in ((2, 3), (3, 1)) if ctx.quick else ((2, 4), (3, 2), (4, 1)):
                    for _ in range(k):
                        p = par()
                        if m == "xxz":
                            p[4] = 0
                        if m == "tfim":
                            p = [rng.choice([0, 1, 3])]
                        J.append((2 + cx, f"{m} {L} {L} {2 if L < 4 else 1} {'ehomo' if L < 4 else 'eomo'} {n(*p)}"))
        J = [(k, f"{sd()} {l}") for k, l in J]
        chunk = lambda cx: [l for k, l in J if k == cx]

        def record(lines_of):
            with ThreadPoolExecutor(8) as ex:
                parts = [(k, lines_of(k)[i::2]) for k in range(4) for i in range(2)]
                res = list(ex.map(lambda q: parse_events(ctx.run(exe[q[0]], stdin="\n".join(q[1]) + "\n").stdout) if q[1] else [], parts))
            return [e for q in res for e in q]
        ctx.conform("ModelsTrace", lambda: record(chunk))
    ctx.assumptions.append("fermion solvers are exercised through their bond formulas on sign-free tensors; fermionic signs come from qlten")
