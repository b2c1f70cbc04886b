import random
from lib.common import parse_events

HUGE = 2 ** 40


def scenarios(rng, quick):
    """Exhaustive boundary walk of every schedule of the model, then random interleavings of queries/copies."""
    out = []
    lrs = ["0.08", "1.0"]
    specs = []
    for a in lrs:
        specs.append((f"const {a}", [0, 1, 7]))
        for r in ("0.5", "0.25", "0.125", "0.0625", "1.0"):
            for n in (1, 2, 3, 4, 6, 12):
                specs.append((f"exp {a} {r} {n}", [n]))
        for r in ("0.0", "0.1", "0.5", "0.9", "1.0"):
            for n in (1, 2, 3, 4, 5, 7):
                specs.append((f"step {a} {r} {n}", [n, 2 * n]))
        for n in (1, 3, 10):
            specs.append((f"stepdef {a} {n}", [n, 2 * n]))
        for b in ("0.0", "0.01", "0.08", "2.0"):
            for n in (0, 1, 2, 3, 4, 6, 8, 12, 24):
                specs.append((f"cos {a} {b} {n}", [n]))
        for n in (0, 4, 12):
            specs.append((f"cosdef {a} {n}", [n]))
        for b in ("0.0", "0.01", "1.5"):
            for n in (0, 1, 2, 3, 4, 5, 6, 10, 64):
                specs.append((f"warm {a} {b} {n}", [n]))
        for n in (0, 3, 8):
            specs.append((f"warmdef {a} {n}", [n]))
        for r in ("0.0", "0.1", "0.5", "0.9", "1.0"):
            for m in ([], [0], [3], [2, 5], [5, 2], [2, 2], [4, 1, 2], [100, 10, 1000], [7, 7, 7]):
                specs.append((f"multi {a} {r} " + " ".join(map(str, m)), m))
    for s, marks in specs:
        its = set(range(0, 14 if quick else 60)) | {999, 1000, 1001, 100000, 2147483647, HUGE}
        for m in marks:
            its |= {max(0, m - 1), m, m + 1}
        its = sorted(its)
        o = ["begin", f"new 1 {s}"] + [f"q 1 {i}" for i in its]
        o += ["clone 1 2"] + [f"q 2 {i} -3.5" for i in reversed(its)] + [f"q 1 {i} 9" for i in its[:6]]
        out.append(o)
    for _ in range(150 if quick else 3000):
        o = ["begin"]
        ids = []
        for k in range(rng.randint(1, 3)):
            o.append(f"new {k+1} {rng.choice(specs)[0]}")
            ids.append(k + 1)
        for _ in range(rng.randint(5, 25)):
            x = rng.random()
            i = rng.choice(ids)
            if x < 0.72:
                o.append(f"q {i} {rng.choice([rng.randint(0, 15), rng.randint(0, 200), HUGE])} {rng.randint(-9, 9)}")
            elif x < 0.88:
                t = rng.randint(1, 5)
                if t != i:
                    o.append(f"clone {i} {t}")
                    ids = sorted(set(ids) | {t})
            elif x < 0.95:
                o.append(f"step {i}")
            elif len(ids) > 1:
                o.append(f"del {i}")
                ids.remove(i)
        out.append(o)
    return out


def run(ctx):
    ctx.model_check("LRSchedules", "SPECIFICATION Spec\nINVARIANTS InRange StartsAt EndsAt\nPROPERTIES Monotone StepFlat\n"
                    "CHECK_DEADLOCK FALSE\n")
    exe = ctx.build("p01.cpp", flags=["-fsanitize=address,undefined"])
    sc = scenarios(random.Random(ctx.seed), ctx.quick)
    text = "\n".join("\n".join(s) for s in sc) + "\n"
    ctx.conform("LRSchedulesTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
