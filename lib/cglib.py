"""Integer linear systems for the solver checks (P23 serial, P24 distributed)."""
from fractions import Fraction as F
from math import isqrt


def system(rng, dim, cx, kind):
    r = lambda a: rng.randint(-a, a)
    c = (lambda a: complex(r(a), r(a))) if cx else (lambda a: complex(r(a), 0))
    if kind == "spd":
        G = [[c(1) for _ in range(dim)] for _ in range(dim)]
        A = [[sum(G[k][i].conjugate() * G[k][j] for k in range(dim)) + (rng.choice([1, 2]) if i == j else 0) for j in range(dim)] for i in range(dim)]
        for i in range(dim):
            A[i][i] = complex(round(A[i][i].real), 0)
    elif kind == "scal":
        A = [[complex(3 if i == j else 0, 0) for j in range(dim)] for i in range(dim)]
    else:
        A = [[0] * dim for _ in range(dim)]
        for i in range(dim):
            for j in range(i, dim):
                A[i][j] = complex(r(3), 0) if i == j else c(2)
                A[j][i] = A[i][j].conjugate()
        if kind == "neg":
            for i in range(dim):
                A[i][i] -= 9
    return A


def case_line(op, rng, A, b, x0, n, mx, tol, interval, ortho, spd, cx):
    dim = len(b)
    bb = int(sum(abs(v) ** 2 for v in b) + .5)
    rel, ab = tol
    # tolerance as a rational: only combinations whose maximum is one
    if rel == 0 or bb == 0:
        t = F(ab).limit_denominator(1000)
    else:
        t = max(F(rel).limit_denominator(1000) * isqrt(bb), F(ab).limit_denominator(1000)) if rel > 1e-6 else F(ab).limit_denominator(1000)
    num = lambda v: " ".join(f"{int(y.real)} {int(y.imag)}" for y in v)
    return f"{op} {'c' if cx else 'd'} {n} {mx} {rel} {ab} {interval} {ortho} {t.numerator} {t.denominator} {int(spd)} {int(ortho == 0.5 and (bb > 0 or ab > 0))} {dim} " + " ".join(num(row) for row in A) + " " + num(b) + " " + num(x0)


def lines(rng, count, ranks):
    L = []
    for _ in range(count):
        cx, dim = rng.random() < .4, rng.choice([1, 2, 2, 3, 3, 4])
        kind = rng.choice(["spd", "spd", "spd", "spd", "scal", "any", "neg"])
        A = system(rng, dim, cx, kind)
        mk = lambda a: [complex(rng.randint(-a, a), rng.randint(-a, a) if cx else 0) for _ in range(dim)]
        b, x0 = mk(3), rng.choice([[0j] * dim, mk(1)])
        if rng.random() < .1:
            b = [sum(A[i][j] * x0[j] for j in range(dim)) for i in range(dim)]   # already solved
        bb = int(sum(abs(v) ** 2 for v in b) + .5)
        tol = rng.choice([(1e-10, 0), (1e-10, 0), (0, 1e-9), (0, 1), (0, 0.25), (1e-10, 2)])
        if isqrt(bb) ** 2 == bb and bb and rng.random() < .4:
            tol = rng.choice([(0.125, 0), (0.125, 0.25), (0.5, 0)])
        interval, ortho = rng.choice([0, 1, 2, 20]), rng.choice([.5, .5, .5, .5, 0.0])
        n = ranks(rng)
        L.append("begin")
        spd = kind in ("spd", "scal")
        if kind in ("any", "neg") and rng.random() < .1:
            L.append(case_line("nan", rng, A, b, x0, n, 5, (1e-10, 0), interval, ortho, spd, cx))
        for mx in sorted(rng.sample([0, 1, 2, 3, 4, 6, 9], rng.choice([2, 3, 4]))):
            L.append(case_line("cg", rng, A, b, x0, n, mx, tol, interval, ortho, spd, cx))
    return L
