import random
from lib.common import parse_events


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS Emit\nPROPERTIES NoSilentLoss OnlyTargetTouched RoundTrip\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("TenIOMC", f"SPECIFICATION Spec\nCONSTANTS K = {5 if ctx.quick else 6}\n EMIT = FALSE\nVIEW View\n" + inv.replace("INVARIANTS Emit\n", ""))
    scn = ctx.gen_scenarios("TenIOMC", "SPECIFICATION Spec\nCONSTANTS K = 3\n EMIT = TRUE\n" + inv)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    L = []
    for s in scn[:3000 if ctx.quick else 50000]:
        r, c = rng.choice([(1, 2), (2, 1)])
        L.append(f"begin {r} {c}")
        for h in s:
            k = h[2] - 1
            L.append(f"{h[0]} {h[1]} {k if r == 2 else 0} {k if c == 2 else 0} " + " ".join(map(str, h[3:])))
    for _ in range(300 if ctx.quick else 4000):
        r, c = rng.randint(1, 3), rng.randint(1, 3)
        L.append(f"begin {r} {c}")
        alive = set()
        for _ in range(rng.randint(5, 30)):
            m, i, j = rng.randint(1, 2), rng.randrange(r), rng.randrange(c)
            p = f"{m} {i} {j}"
            f = rng.choice(["f1", "f2", "f3", "f4", "f1", "f2", "miss/x", "adir", "/dev/full"])
            x = rng.random()
            if x < .25:
                L.append(f"set {p} {rng.randint(1, 10**6)}")
                alive.add((m, i, j))
            elif x < .3:
                L.append(f"dealloc {p}")
                alive.discard((m, i, j))
            elif x < .6:
                op = rng.choice(["dump", "dumpn", "dumpk", "dumpr"])
                if op == "dump" and (m, i, j) not in alive:
                    op = "dumpn"
                L.append(f"{op} {p} {f}")
                if op == "dumpr":
                    alive.discard((m, i, j))
                # liveness of an unallocated slot after a failed dump is unspecified: do not count it as alive
            elif x < .9:
                if f == "/dev/full":
                    f = "f1"
                L.append(f"load {p} {f}")
                alive.discard((m, i, j))
            elif f.startswith("f"):
                L.append(f"{rng.choice(['trunc', 'rm'])} {p} {f}")
    text = "\n".join(L) + "\n"
    exe = ctx.build("p07.cpp", flags=["-fsanitize=address,undefined", "-DNDEBUG"])
    ctx.conform("TenIOTrace", lambda: parse_events(ctx.run(exe, stdin=text, cwd=ctx.sub("io")).stdout))
