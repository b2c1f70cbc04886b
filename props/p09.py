import itertools
import json
import random
import re
from lib.common import parse_events

NUM = r"[-+]?\d(?:\.\d+)?(?:[eE][-+]?\d+)?"
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def parse_fmt(ev):
    """[e1, e2, ..., ek] with an optional trailing shortening mark carrying the true total."""
    t, real = ev.pop("text").strip(), ev["kind"] == "r"
    ev["wellformed"] = t.startswith("[") and t.endswith("]")
    total, body = -1, t[1:-1]
    m = re.search(r"\.\.\.[^0-9]*(\d+)[^0-9]*$", body)
    if m:
        total, body = int(m.group(1)), body[:m.start()]
    elem = NUM if real else r"\(\s*" + NUM + r"\s*,\s*" + NUM + r"\s*\)"
    shown = []
    for x in re.findall(elem, body):
        v = [float(y) for y in re.findall(NUM, x)]
        shown.append([v[0], 0 if real else v[1]])
    sc = 2.0 ** ev["se"]
    out = []
    for a, b in shown:      # printed with 6 decimals of the mantissa; the integers used have at most 5 digits
        a, b = a / sc, b / sc
        if abs(a - round(a)) > 1e-5 * max(1, abs(a)) or abs(b - round(b)) > 1e-5 * max(1, abs(b)):
            ev["wellformed"] = False
        out.append([round(a), round(b)])
    ev["shown"], ev["total"] = out, total
    if ev["m"] < 0:
        ev["m"] = 2147483647
    return ev


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS NonZero ZeroSpread\nPROPERTY Invariance\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("PsiConsMC", f"SPECIFICATION Spec\nCONSTANTS N = {3 if ctx.quick else 4}\n V = {3 if ctx.quick else 4}\n CPLX = FALSE\n" + inv, label="real")
    ctx.model_check("PsiConsMC", f"SPECIFICATION Spec\nCONSTANTS N = {2 if ctx.quick else 3}\n V = {3 if ctx.quick else 2}\n CPLX = TRUE\n" + inv, label="complex")
    L = ["begin r"]
    def add(kind, z, n=None):
        se = rng.choice([0, 0, 0, -20, -30, 20, 60, 3])
        L.append(f"sum {kind} {se} 0 {len(z)} " + " ".join(f"{a} {b}" for a, b in z))
    for n in range(0, 4 if ctx.quick else 5):
        for t in itertools.product(range(-2, 3), repeat=n):
            add("r", [(a, 0) for a in t])
    grid = [(a, b) for a in range(-2, 3) for b in range(-2, 3)]
    for n in range(0, 3 if ctx.quick else 4):
        for t in itertools.product(grid, repeat=n):
            add("c", list(t))
    for _ in range(2000 if ctx.quick else 30000):
        kind = rng.choice("rc")
        n, v = rng.randint(1, 8), rng.choice([1, 2, 5, 30])
        base = [(rng.randint(-v, v), rng.randint(-v, v) if kind == "c" else 0) for _ in range(n)]
        add(kind, base)
        rng.shuffle(base)
        add(kind, base)
        add(kind, [(-a, -b) if rng.random() < .5 else (a, b) for a, b in base])
    for _ in range(400 if ctx.quick else 4000):
        kind, n = rng.choice("rc"), rng.randint(0, 12)
        z = [(rng.randint(-99999, 99999), rng.randint(-99999, 99999) if kind == "c" else 0) for _ in range(n)]
        m = rng.choice([0, 1, n - 1, n, n + 1, 8, -1, rng.randint(0, 12)])
        L.append(f"fmt {kind} {rng.choice([0, -2, -12])} {max(m, -1)} {n} " + " ".join(f"{a} {b}" for a, b in z))
    text = "\n".join(L) + "\n"
    exe = ctx.build("p09.cpp", flags=["-fsanitize=undefined"])

    def record():
        out = []
        for l in parse_events(ctx.run(exe, stdin=text).stdout):
            ev = json.loads(l)
            out.append(parse_fmt(ev) if ev["op"] == "fmt" else ev)
        return out
    ctx.conform("PsiConsTrace", record, begin=lambda e: e["op"] in ("sum", "fmt"))
