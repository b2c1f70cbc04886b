"""Scenarios for the update-rule checks (spec/Rules*.tla, harness/rules.cpp)."""
import json
from lib.common import parse_events


def line(rng, algs, clip=False, sel=False, quad=False):
    alg = rng.choice(algs)
    el, n, iters = rng.choice("dc"), rng.choice([1, 1, 1, 2, 3]), rng.randint(1, 5)
    R, C, P = rng.choice([(1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1), (1, 1, 1)])
    N = sum(1 + (r + q + i) % 2 for r in range(R) for q in range(C) for i in range(P))
    cv, cn = (rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 3, 4, 6, 10])) if clip else (0, 0)
    mu4, wd4 = rng.choice([1, 2, 3]), rng.choice([0, 0, 1, 2])
    lr4 = rng.choice([1, 2, 4]) if alg != "lbfgs" else rng.choice([2, 4])
    b1, b2 = rng.choice([(1, 2), (3, 4), (9, 10)]), rng.choice([(3, 4), (7, 8), (1, 2)])
    if quad:
        lr4 = 1
    hist, damp, cap = rng.choice([1, 2, 3]), rng.randint(0, 1), rng.choice([0, 0, 2, 3])
    s = rng.choice([0, 2, 3]) if sel and alg in ("sgd", "mom", "nag") else 0
    vec = lambda a, z=.15: " ".join(f"{0 if rng.random() < z else rng.randint(-a, a)} {0 if rng.random() < .3 else rng.randint(-a, a)}" for _ in range(N))
    es = rng.sample(range(-9, 9), 5)
    return " ".join(map(str, [alg, el, n, iters, lr4, cv, cn, mu4, wd4, *b1, *b2, rng.choice([0, 1, 4]), hist, damp, cap, s, int(quad), R, C, P, rng.randint(1, 10**6), vec(2 if quad else 9)] + [vec(4 if alg == "lbfgs" else 8) for _ in range(iters)] + es))


def run(ctx, lines, module="RulesTrace"):
    if not hasattr(ctx, "rulesexe"):
        ctx.rulesexe = ctx.build("rules.cpp", shim=True, simmpi=True, flags=["-O0"])
    text = "\n".join(lines) + "\n"

    def record():
        r = ctx.run(ctx.rulesexe, stdin=text, timeout=600)
        return parse_events(r.stdout)
    ctx.conform(module, record)


def laws(ctx, kind, G, cv="{0, 1, 3}", cn="{0, 2, 5}"):
    inv = "ElementsBounded NormBounded SameDirection Idempotent NeverGrows Inactive" if kind == "clip" else "Secant SecantTwo Descent"
    ctx.model_check("RulesMC", f'SPECIFICATION Spec\nCONSTANTS\n G = {G}\n CV = {cv}\n CN = {cn}\n Kind = "{kind}"\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n', workers=6)
