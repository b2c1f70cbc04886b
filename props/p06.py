import random
from lib.common import parse_events


def rand_scenarios(rng, n):
    L = []
    for _ in range(n):
        L.append("begin")
        sh = {}
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            if not sh or x < 0.12:
                i = rng.randint(1, 3)
                if rng.random() < 0.15:
                    L.append(f"newd {i}")
                    sh[i] = (0, 0)
                else:
                    sh[i] = (rng.randint(1, 3), rng.randint(1, 3) if rng.random() < 0.9 else 0)
                    L.append(f"new {i} {sh[i][0]} {sh[i][1]}")
                continue
            i = rng.choice(sorted(sh))
            j = rng.choice([k for k in (1, 2, 3) if k != i])
            if x < 0.22:
                L.append(f"copy {i} {j}")
                sh[j] = sh[i]
            elif x < 0.34 and j in sh:
                L.append(f"assign {i} {j}")
                sh[j] = sh[i]
            elif x < 0.42 and (j in sh or x < 0.38):
                L.append(f"{'movea' if j in sh and rng.random() < .6 else 'movec'} {i} {j}")
                sh[j] = sh[i]
                L.append(f"newd {i}")       # shape after a move is unspecified: re-create before use
                sh[i] = (0, 0)
            elif x < 0.46:
                L.append(f"del {i}")
                del sh[i]
            elif x < 0.5:
                L.append(f"clear {i}")
            elif x < 0.56:
                L.append(f"{rng.choice(['fill', 'fillp'])} {i} {rng.randint(1, 50)}")
            else:
                r, c = sh[i]
                if r and c:
                    p = f"{i} {rng.randrange(r)} {rng.randrange(c)}"
                    op = rng.choice(["set", "set", "ptr", "alloc", "dealloc"])
                    L.append(f"{op} {p}" + (f" {rng.randint(1, 99)}" if op in ("set", "ptr") else ""))
    return L


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS NoSharing NoUseAfterFree NoLeak Agree Emit\nPROPERTIES FreedOnce\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("DuoMatMC", f"SPECIFICATION Spec\nCONSTANTS K = {5 if ctx.quick else 6}\n EMIT = FALSE\nVIEW View\n" + inv)
    scn = ctx.gen_scenarios("DuoMatMC", "SPECIFICATION Spec\nCONSTANTS K = 4\n EMIT = TRUE\n" + inv)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    L = []
    for s in scn[:1500 if ctx.quick else 20000]:
        L.append("begin")
        moved = set()
        for op, a in s:
            if op in ("movec", "movea"):
                L.append(f"{op} {a[0]} {a[1]}")
                L.append(f"newd {a[0]}")
            else:
                L.append(" ".join([op] + [str(v) for v in a]))
    L += rand_scenarios(rng, 300 if ctx.quick else 6000)
    for r, c in [(1, 70), (70, 1), (33, 2), (2, 33), (9, 9)]:      # sizes no small lattice reaches
        p = f"1 {r - 1} {c - 1}"
        L += ["begin", f"new 1 {r} {c}", "fill 1 3", f"set {p} 7", "copy 1 2", f"set 1 0 0 5", f"set 2 {r - 1} {c - 1} 9",
              "new 3 1 1", "assign 1 3", "assign 2 1", f"dealloc {p}", "assign 1 2", "movea 2 3", "newd 2", "clear 1",
              f"alloc {p}", "copy 3 2", "del 3", "fillp 1 4"]
    text = "\n".join(L) + "\n"
    exe = ctx.build("p06.cpp", flags=["-fsanitize=address,undefined", "-DNDEBUG"])
    ctx.conform("DuoMatTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
    L2 = rand_scenarios(rng, 150 if ctx.quick else 2000)
    text2 = "\n".join(L2) + "\n"
    ctx.conform("DuoMatTrace", lambda: parse_events(ctx.run(exe, ["ten"], stdin=text2).stdout))
