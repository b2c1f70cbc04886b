import random
from lib import ruleslib as L
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed + 22)
    ctx.model_check("WolfeMC", "SPECIFICATION Spec\nCONSTANTS\n Phis <- PhiSet\n Slopes <- SlopeSet\n Caps = {%s}\nINVARIANTS Accepted Limits BracketLow\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"
                    % ("1, 3" if ctx.quick else "1, 2, 4, 6"), workers=6)
    L.laws(ctx, "qn", 1 if ctx.quick else 2)
    exe = ctx.build("wolfe.cpp", shim=True, simmpi=True, flags=["-O0"])
    T = []
    for _ in range(1500 if ctx.quick else 40000):
        c1 = rng.choice([1, 1, 2, 4])
        lr, mx = rng.choice([64, 256, 512, 1024]), rng.choice([256, 1024, 1024, 4096])
        cfg = [rng.choice("dc"), rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 2, 3]), c1, rng.choice([q for q in (2, 6, 8, 14) if q > c1]), rng.choice([1, 32, 128]), mx, lr,
               rng.choice([0, 0, 16, 64]), rng.choice([0, 0, 16, 40]), rng.choice([1, 2, 3, 5, 8]), int(rng.random() < .7), rng.choice([1, 2, 4]), rng.randint(-3, 3), rng.randint(1, 10**6)]
        g0 = rng.choice([1, 2, 3, 4, -1, -2, -4, 0])
        sc = [(0, g0)] + [(rng.choice([5, 0, 0, -1, -1, -2, -3, -5, -8]), rng.choice([g0, g0, g0 * 2, -g0, 1, -1, 0, 2, -2, g0 * 3 // 4])) for _ in range(12)]
        T.append(" ".join(map(str, cfg)) + " " + " ".join(f"{a}:{b}" for a, b in sc))
    text = "\n".join(T) + "\n"
    ctx.conform("WolfeTrace", lambda: parse_events(ctx.run(exe, stdin=text, timeout=600).stdout))
    L.run(ctx, [L.line(rng, ["lbfgs"]) for _ in range(250 if ctx.quick else 8000)] + [L.line(rng, ["lbfgs"], quad=True) for _ in range(120 if ctx.quick else 3000)])
