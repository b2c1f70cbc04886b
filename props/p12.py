import itertools
import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    for R, C in ((2, 3), (3, 2)) if ctx.quick else ((2, 4), (3, 3)):
        ctx.model_check("StopVote", f"SPECIFICATION Spec\nCONSTANTS R = {R}\n Checks = {C}\nINVARIANTS SameCheck NoneBehind Justified Prompt\nPROPERTIES AllLeave\nCHECK_DEADLOCK FALSE\n", workers=6)
    L = []
    # every placement of one or two signals among the checks of 1..3 ranks
    for n, c in ((1, 3), (2, 3), (3, 2)):
        opts = ["c" * a + s + "c" * (c - a) for a in range(c + 1) for s in ("", "i", "t")]
        allp = list(itertools.product(sorted(set(opts)), repeat=n))
        rng.shuffle(allp)
        for p in allp[:300 if ctx.quick else 5000]:
            L.append(f"{rng.randint(1, 999)} {rng.randint(0, 2)} " + " ".join(p))
    for _ in range(300 if ctx.quick else 4000):
        n, c = rng.randint(1, 5), rng.randint(1, 5)
        ps = []
        for r in range(n):
            q = ""
            for _ in range(c):
                q += rng.choice(["", "", "", "", "i", "t", "r", "ir", "ri", "g", "ii", "it"]) + "c"
            ps.append(q + rng.choice(["", "i", "r"]))
        L.append(f"{rng.randint(1, 999)} {rng.randint(0, 2)} " + " ".join(ps))
    exe = ctx.build("p12.cpp", shim=True, simmpi=True, flags=["-O0"])
    text = "\n".join(L) + "\n"
    ctx.conform("StopVoteTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout), begin=lambda e: True)
