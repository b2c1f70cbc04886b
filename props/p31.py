import random
from concurrent.futures import ThreadPoolExecutor
from lib.common import parse_events

CFG = "SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n BC = %d\n D = 2\n Pal = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Definition Transposes HoleCloses Linear\n"
CACHE = "SPECIFICATION Spec\nCONSTANTS R = %d\n C = %d\n K = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS NoStale NeverEmpty\n"


def builds(ctx, src, kinds=(0, 1, 2, 3), extra=()):
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda k: ctx.build(src, out="%s%d" % (src[:-4], k), shim=True, simmpi=True, flags=["-O1", "-DKIND=%d" % k, *extra]), kinds))


def record(ctx, exe, lines):
    """each line goes to the executable of its element type and boundary condition"""
    out = []
    for k in range(4):
        mine = [l for l in lines if 2 * int(l.split()[3]) + int(l.split()[7]) == k]
        if mine:
            out += parse_events(ctx.run(exe[k], stdin="\n".join(mine) + "\n").stdout)
    return out


def run(ctx):
    rng = random.Random(ctx.seed)
    for q in ([(2, 2, 0, 3), (1, 4, 0, 2)] if ctx.quick else [(2, 2, 0, 3), (1, 4, 0, 3), (4, 1, 0, 3), (2, 3, 0, 2), (3, 2, 0, 2), (2, 2, 1, 2)]):
        ctx.model_check("NetMC", CFG % q, label="%dx%d bc=%d palette %d" % q)
    for q in ([(2, 3, 2)] if ctx.quick else [(2, 3, 3), (3, 3, 2), (3, 4, 2)]):
        ctx.model_check("BmpsCache", CACHE % q, label="%dx%d, %d changes" % q)
    exe = builds(ctx, "net.cpp")
    sd = lambda: rng.randrange(1, 10**6)
    # open lattices: every query form, every compression scheme, real and complex, equal and unequal bonds
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (1, 3), (5, 2), (3, 4), (4, 3)] + ([] if ctx.quick else [(4, 4), (2, 5), (1, 5), (5, 3), (3, 5)])
    for rnd in range(1 if ctx.quick else 6):
        L = []
        for k, (r, c) in enumerate(sizes):
            for scheme in ((0, 1 + (k + rnd) % 2) if ctx.quick else (0, 1, 2)):
                D = 3 if r * c <= 4 else 2
                L.append(f"{sd()} {r} {c} 0 {D} {rng.randrange(2)} {rng.choice([2, 2, 3])} {rng.randrange(2)} {14 if ctx.quick else 20} {scheme}")
        ctx.conform("NetTrace", lambda: record(ctx, exe, L))
    # periodic lattices: the coarse-graining contractor
    for rnd in range(1 if ctx.quick else 4):
        L = []
        for cx in (0, 1):
            L += [f"{sd()} 2 2 1 2 1 2 {cx} {24 if ctx.quick else 60} 0", f"{sd()} 2 2 1 2 0 3 {cx} 16 0", f"{sd()} 3 3 1 2 0 2 {cx} {12 if ctx.quick else 30} 0",
                  f"{sd()} 4 4 1 1 2 2 {cx} 12 0", f"{sd()} 6 6 1 1 2 2 {cx} 8 0", f"{sd()} 8 8 1 1 2 2 {cx} 10 0",
                  f"{sd()} 2 2 1 3 1 1 {cx} 12 9", f"{sd()} 3 3 1 2 1 1 {cx} 12 9"]
        L += [f"{sd()} 4 4 1 2 0 2 0 {6 if ctx.quick else 16} 0", f"{sd()} 4 4 1 2 1 1 {rnd % 2} 12 9"]
        if not ctx.quick:
            L += [f"{sd()} 3 3 1 2 1 2 0 12 0", f"{sd()} 4 4 1 2 0 2 1 12 0", f"{sd()} 4 4 1 2 2 2 0 6 0"]
        ctx.conform("NetTrace", lambda: record(ctx, exe, L))
