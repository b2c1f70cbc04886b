import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = ("INVARIANTS CntBelowPatience CounterIsRun Emit\nPROPERTIES DecaysOnlyByOne DecayNeedsPatience Independent\n"
           "CHECK_DEADLOCK FALSE\n")
    k, en = (5, "{0, 1, 2}") if ctx.quick else (6, "{0, 1, 2, 3}")
    ctx.model_check("PlateauMC", "SPECIFICATION Spec\nCONSTANTS K = 6\n Energies = {0, 1, 2, 3}\n Patiences = {0,1,2,3}\n Thrs = {0,1}\n EMIT = FALSE\n" + inv)
    scn = ctx.gen_scenarios("PlateauMC", f"SPECIFICATION Spec\nCONSTANTS K = {k}\n Energies = {en}\n Patiences = {{0,1,2,3}}\n Thrs = {{0,1}}\n EMIT = TRUE\n" + inv, timeout=800)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    scn = scn[:4000 if ctx.quick else 40000]
    ctx.notes["tlc_generated_scenarios_replayed"] = len(scn)
    L = []
    for s in scn:
        L.append(f"begin 1 2 {s['patience']} {s['thr']}")
        for n, o in enumerate(s["ops"]):
            L.append(f"q {o[1]} {o[2]} {n}" if o[0] == "q" else f"clone {o[1]} {o[2]}")
    for _ in range(200 if ctx.quick else 3000):
        num, den = rng.choice([(1, 2), (1, 10), (9, 10), (3, 4)])
        L.append(f"begin {num} {den} {rng.randint(0, 6)} {rng.randint(0, 3)}")
        ids = [1]
        e = rng.randint(-5, 5)
        for n in range(rng.randint(5, 60)):
            x = rng.random()
            if x < 0.9:
                e = max(-300, min(300, e + rng.choice([-4, -2, -1, 0, 0, 0, 1, 2])))
                L.append(f"q {rng.choice(ids)} {e} {n}")
            elif x < 0.97:
                a, b = rng.choice(ids), rng.randint(1, 4)
                if a != b:
                    L.append(f"clone {a} {b}")
                    ids = sorted(set(ids) | {b})
            elif len(ids) > 1:
                a = rng.choice(ids)
                L.append(f"del {a}")
                ids.remove(a)
    text = "\n".join(L) + "\n"
    exe = ctx.build("p02.cpp", flags=["-fsanitize=address,undefined"])
    ctx.conform("PlateauTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
