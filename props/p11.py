import random
from lib.common import parse_events


def fmt(op, elem, n, base, unit, k, xs):
    return f"{op} {elem} {n} {base!r} {unit!r} {k} " + ";".join(" ".join(f"{a},{b}" for a, b in r) for r in xs)


def scale(vals, f=1):
    """largest fixed-point scale keeping the specification's integers below 2^31"""
    n = max(len(vals), 1)
    s = [sum(v[c] for v in vals) for c in (0, 1)]
    dev = sum((n * v[0] - s[0]) ** 2 + (n * v[1] - s[1]) ** 2 for v in vals)
    for k in (1000, 100, 10):
        if k * max(dev, 1) < 2 ** 31 and k * max(map(abs, s + [1])) < 2 ** 31 and n ** 4 * f * f < 2 ** 31:
            return k
    return 0


def ips_borderline(x):
    n = len(x); s = sum(x); d = [n * v - s for v in x]
    a = [sum(d[t] * d[t + k] for t in range(n - k)) for k in range(n)] + [0, 0]
    return any(a[k] + a[k + 1] == 0 for k in range(1, n)) and n & (n - 1), max(map(abs, a + [0]))


def run(ctx):
    rng = random.Random(ctx.seed)
    ctx.model_check("StatsMC", f"SPECIFICATION Spec\nCONSTANTS MaxN = {4 if ctx.quick else 5}\n B = {1 if ctx.quick else 2}\nINVARIANTS ShiftInv NonNeg BinCount OneIsPlain Everyone RankOrder IpsOk\nCHECK_DEADLOCK FALSE\n")
    L = []
    bases = [(0.0, 1.0), (0.1, 1.0), (-0.6694, 1.0), (33333.333333333336, 1.0), (0.7, 0.01), (0.0, 2.0 ** -60), (0.0, 2.0 ** 40), (2.0 ** -54, 2.0 ** -60)]
    for i in range(2500 if ctx.quick else 25000):
        op = rng.choice(["bin", "bin", "single", "single", "list", "local", "ave", "ips", "tensor"])
        elem = rng.choice("dc")
        base, unit = rng.choice(bases)
        n = 1 if op in ("local", "ips") else rng.randint(1, 8) if op == "single" else rng.randint(1, 4)
        N = {"bin": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 24, 25, 26]), "single": 1, "list": rng.randint(0, 4), "local": rng.randint(0, 12), "ave": rng.randint(0, 4), "ips": rng.randint(0, 26), "tensor": rng.randint(1, 4)}[op]
        if op == "ave":
            n = rng.randint(0, 5)
        rg = 0 if rng.random() < .3 else rng.choice([1, 4, 9])
        xs = [[(rng.randint(-rg, rg), rng.randint(-rg, rg) if elem == "c" else 0) for _ in range(N)] for _ in range(n)]
        if op == "ips":
            bord, mx = ips_borderline([v[0] for v in xs[0]])
            if bord or mx * 26 > 2 ** 21:
                continue
            base, unit = (0.0, rng.choice([1.0, 2.0 ** -60, 2.0 ** 40])) if len(xs[0]) & (len(xs[0]) - 1) == 0 else (base, unit)
            L.append(fmt(op, elem, n, base, unit, 10, xs))
            continue
        if op == "bin":
            b = max(1, int(N ** .5))
            pool = [tuple(sum(v[c] for v in r[j * b:j * b + b]) for c in (0, 1)) for r in xs for j in range(N // b)]
            k = scale(pool, b)
        elif op in ("single", "list", "ave", "tensor"):
            k = min([scale([r[j] for r in xs]) for j in range(N)] or [1000])
        else:
            k = scale(xs[0])
        if k and base == 33333.333333333336:
            k = min(k, 100)
        if k:
            L.append(fmt(op, elem, n, base, unit, k, xs))
    for i in range(60):
        d = [rng.randint(-99, 99) for _ in range(rng.randint(0, 6))]
        L.append(f"dump {rng.choice('di')} {rng.choice(['ok', 'ok', 'nodir', 'full'])} " + " ".join(map(str, d)))
    exe = ctx.build("p11.cpp", shim=True, simmpi=True, flags=["-O0"])
    text = "\n".join(L) + "\n"
    ctx.conform("StatsTrace", lambda: parse_events(ctx.run(exe, [ctx.sub("d")], stdin=text).stdout), begin=lambda e: True)
    ctx.assumptions.append("all ranks hold equally many samples (documented contract)")
