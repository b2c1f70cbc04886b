"""Random scripts for harness/tpsalg.cpp: histories of split-index states, files and transfers."""


def geometry(rng, shape=None, bc=None, cap=24):
    while True:
        r, c = shape or rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)])
        b = rng.randint(0, 1) if bc is None else bc
        wide = rng.random() < .4
        h = [[rng.choice([2, 2, 1, 3] if wide else [2]) for _ in range(c)] for _ in range(r)]   # bond to the right of a site
        v = [[rng.choice([2, 2, 1, 3] if wide else [2]) for _ in range(c)] for _ in range(r)]   # bond below a site
        if b == 0:
            for i in range(r):
                h[i][c - 1] = 1
            for j in range(c):
                v[r - 1][j] = 1
        d = [[h[i][j - 1], v[i][j], h[i][j], v[i - 1][j]] for i in range(r) for j in range(c)]
        if max(w * x * y * z for w, x, y, z in d) <= cap:
            return dict(r=r, c=c, bc=b, d=d)


def gtext(g):
    return f"{g['r']} {g['c']} {g['bc']} " + " ".join(" ".join(map(str, x)) for x in g["d"])


class Slot:
    def __init__(self, g=0, bc=0, full=True, zero=True, m=0, rel=False):
        self.g, self.bc, self.full, self.zero, self.m, self.rel = g, bc, full, zero, m, rel

    def cp(self):
        return Slot(self.g, self.bc, self.full, self.zero, self.m, self.rel)


def inner(g, bc):
    return any((bc or i // g["c"] < g["r"] - 1) or (bc or i % g["c"] < g["c"] - 1) for i in range(g["r"] * g["c"]))


def script(rng, kind):
    """kind: 'alg' weights algebra, 'io' files and transfers"""
    el = rng.choice("dc")
    P = rng.choice([1, 2, 2, 3])
    G = [geometry(rng)]
    G.append(geometry(rng, shape=(G[0]["c"], G[0]["r"]) if rng.random() < .5 else None))
    L = [f"begin {el} {P} {len(G)} " + " ".join(gtext(g) for g in G)]
    o = [Slot(), Slot(), Slot()]
    f = dict(kind="none")
    size = lambda g: sum(a * b * c * d for a, b, c, d in g["d"]) * P

    def new(k, g):
        full = rng.random() < (.5 if kind == "alg" else .6)
        q, t = G[g - 1], []
        zero0 = True
        big = rng.random() < .15
        for s in range(q["r"] * q["c"]):
            n = 1
            for x in q["d"][s]:
                n *= x
            for p in range(P):
                if not full and rng.random() < .3:
                    t.append("1")
                    zero0 = zero0 and p != 0
                    continue
                lim = 30 if big else 4
                v = [rng.randint(-lim, lim) if i % 2 == 0 or el == "c" else 0 for i in range(2 * n)]
                if rng.random() < .1:
                    v = [0] * (2 * n)
                t.append("0 " + " ".join(map(str, v)))
        o[k] = Slot(g, q["bc"], full, zero0, 30 if big else 4)
        L.append(f"new {k + 1} {g} " + " ".join(t))

    new(0, 1)
    new(1, 1)
    A = ["new", "add", "add", "sub", "neg", "mul", "mul", "copy", "move", "sq", "sqn", "abs", "inv", "dot", "nsq", "norm", "maxabs", "bonds"]
    F = ["dump", "dump", "load", "load", "load", "hurt", "dumpbad", "tps", "peps", "mpi", "new", "copy", "move", "add", "bonds"]
    for _ in range(rng.randint(6, 16)):
        op = rng.choice(A + ["mpi"] if kind == "alg" else F)
        k, a, b = rng.randrange(3), rng.randrange(3), rng.randrange(3)
        S, T = o[a], o[b]
        live = S.g != 0 and not S.rel
        if op == "new":
            new(k, rng.choice([1, 1, 2]))
        elif op in ("add", "sub"):
            if not live or T.rel or T.g != S.g or T.bc != S.bc or S.m + T.m > 1000:
                continue
            how = rng.choice("io")
            if how == "i":
                k = a
            L.append(f"{op} {k + 1} {a + 1} {b + 1} {how}")
            o[k] = Slot(S.g, S.bc, S.full or T.full, S.zero or T.zero, S.m + T.m)
        elif op == "neg" and live:
            L.append(f"neg {k + 1} {a + 1}")
            o[k] = S.cp()
        elif op == "mul" and live:
            sr, si = rng.randint(-3, 3), rng.randint(-3, 3)
            how = rng.choice("ilrx")
            if el == "d" or how == "x":
                si = 0
            if S.m * (abs(sr) + abs(si)) > 1000:
                continue
            if how == "i":
                k = a
            L.append(f"mul {k + 1} {a + 1} {how} {sr} {si}")
            o[k] = S.cp()
            o[k].m *= abs(sr) + abs(si)
        elif op in ("copy", "move") and S.g:
            if k == a:
                continue
            L.append(f"{op} {k + 1} {a + 1} {rng.choice('ca')}")
            o[k] = S.cp()
            if op == "move":
                o[a] = Slot()
        elif op in ("sq", "sqn", "abs", "inv") and live:
            if op == "abs" and el == "c" or op in ("sq", "sqn") and 2 * S.m * S.m > 1000 or S.m > 900:
                continue
            L.append(f"{op} {k + 1} {a + 1} {rng.choice('ifm')}")
            o[k] = S.cp()
            if op[:2] == "sq":
                o[k].m = 2 * S.m * S.m
        elif op == "dot":
            if live and T.g == S.g and T.bc == S.bc and not T.rel and size(G[S.g - 1]) * 2 * S.m * T.m < 1e9:
                L.append(f"dot {a + 1} {b + 1}")
        elif op == "nsq" and live:
            if size(G[S.g - 1]) * 2 * S.m * S.m < 1e9:
                L.append(f"nsq {a + 1}")
        elif op in ("norm", "maxabs") and live:
            q = G[S.g - 1]
            n = max(w * x * y * z for w, x, y, z in q["d"]) * P
            if (n * 2 if op == "norm" else 2) * S.m * S.m < 1900:
                L.append(f"{op} {a + 1} {rng.randint(1, q['r'] * q['c'])} {rng.choice([1, 2, 3, -1, -2])}")
        elif op == "bonds" and live:
            q = G[S.g - 1]
            if S.bc == q["bc"] and S.zero and inner(q, S.bc):
                L.append(f"bonds {a + 1} {int(S.full)}")
        elif op == "dump" and live:
            rel = rng.randint(0, 1)
            L.append(f"dump {a + 1} {rel}")
            f = dict(kind="meta", g=S.g, s=S.cp(), ok=True, n=G[S.g - 1]["r"] * G[S.g - 1]["c"] * P)
            S.rel = S.rel or bool(rel)
        elif op == "dumpbad" and live:
            how = rng.choice(["plain", "isdir", "full", "meta", "mfull"])
            if not S.full and how in ("isdir", "full"):
                continue
            rel = rng.randint(0, 1)
            L.append(f"dumpbad {a + 1} {how} {rel} {rng.randint(0, 20)}")
            if rel:
                S.rel = True
        elif op == "load":
            if f["kind"] == "none":
                L.append(f"load {a + 1}")
            elif f["kind"] == "old" and (S.g != f["g"] or S.rel):
                continue
            else:
                L.append(f"load {a + 1}")
                if f["kind"] == "bad" or not f["ok"]:
                    o[a] = Slot()
                else:
                    bc = S.bc
                    o[a] = f["s"].cp()
                    if f["kind"] == "nobc":
                        o[a].bc = 0
                    if f["kind"] == "old":
                        o[a].bc = bc
        elif op == "hurt" and f["kind"] == "meta":
            how = rng.choice(["rm", "old", "nobc", "bad", "cut", "del", "cut", "del"])
            if how in ("cut", "del") and not f["s"].full:
                how = "nobc"
            L.append(f"hurt {how} {rng.randint(1, f['n'])}")
            if how == "rm":
                f = dict(kind="none")
            elif how in ("cut", "del"):
                f["ok"] = False
            else:
                f["kind"] = how
        elif op == "mpi":
            n = rng.randint(2, 4)
            x, y = rng.sample(range(n), 2)
            L.append(f"mpi {rng.choice(['send', 'bcast'])} {n} {x} {y} {rng.randint(1, 2)} {rng.randint(0, 1)} {rng.randint(0, 3)}")
        elif op == "tps":
            q = G[0]
            L.append(f"tps 1 {rng.choice('rn')} {rng.choice([q['r'], q['c'], 2])} {rng.choice([q['c'], 1, 2])} {rng.choice([0, rng.randint(1, 30)])}")
        elif op == "peps":
            L.append(f"peps {rng.randint(1, 2)} {rng.choice('cnr')} {rng.choice([0, rng.randint(1, 9)])}")
    return L
