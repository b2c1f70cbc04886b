import random
from lib.common import parse_events

SPK = ["spike true 5 50 1000 20 3 true 7 2.5 x.csv", "spike false 0 1 2 3 4 false 9 8 none"]
LBF = ["lbfgs", "lbfgs 4", "lbfgs 4 0.5 0.25 9 wolfe", "lbfgs 4 0.5 0.25 9 fixed 0.01 0.8 0.001 2",
       "lbfgs 4 0.5 0.25 9 wolfe 0.01 0.8 0.001 2 0.0625 false 55 true 0.75"]
SETS = (["maxit 7", "maxit 11", "etol 0.125", "etol 0.25", "lr 0.5", "lr 0.75", "lrs 0.375", "pat 3", "pat 4", "clipv 1.5",
         "clipv 2", "clipn 3", "clipn 0.5", "psel true", "psel false 3 0.5 true", "psel true 4 0.75 false", "isel true",
         "isel true 6 true", "ckpt 4 dirA", "ckpt 0 dirB", "ckpt 5 none", "nospike", "sgd", "sgd 0.5", "sgd 0.25 true",
         "adam", "adam 0.5 0.75", "adam 0.5 0.75 0.25 0.125", "adagrad", "adagrad 0.5", "adagrad 0.5 0.25", "sr",
         "sr 33 0.5 0.25 7 0.125 0.75 true 0.0625", "minsr", "minsr 0.5", "minsr 0.5 0.25", "minsr 0.5 0.25 false",
         "minsr 0.5 0.25 false dist", "minsr 0.5 0.25 true rep", "copyb"] + SPK + LBF)
# values at the edges of their ranges: zero, far below and far above anything the rest of the code uses
EDGE = ["maxit 1", "maxit 0", "maxit 1000000", "etol 0", "etol 1e-30", "etol 3e-15", "etol 1e+20", "lr 1e-15", "lr 1e+12", "pat 0",
        "pat 1000000", "clipv 1e-20", "clipv 1e+20", "clipn 1e-20", "clipn 1e+20", "psel true 100000 1e-15 false", "isel true 100000 false",
        "ckpt 100000 dirZ", "ckpt 1 dirA", "sgd 1 false", "sgd 1e-15 true", "adam 0 0 1e-30 0", "adam 1 1 1e+20 5", "adagrad 1e-30 1e+20",
        "adagrad 0 0", "sr 0 0 0 0 0 0 false 0", "sr 100000 1e-30 1e-20 1000 1e-15 1e+20 true 1e+20", "minsr 0 0 false",
        "minsr 1e-30 1e-15 true rep", "lbfgs 0 0 0 0 fixed 0 0 0 0 0 true 0 false 0",
        "lbfgs 1000 1e-30 1e+20 1000 wolfe 1e-15 1 1e-30 1e+20 1e-30 false 100000 true 1e+20",
        "spike true 0 0 0 0 0 false 0 0 none", "spike true 100000 1e-15 1e+20 1e-15 100000 true 100000 1e+20 y.csv"]
SETS = SETS + EDGE
FACS = ["sr 6", "sr 6 0.5", "sra 6 0.5 0.25 4", "sra 6 0.5 0.25 4 0.125", "adam 6", "adam 6 0.5 0.25 0.125", "adama 6 0.5 0.25 4",
        "adama 6 0.5 0.25 4 0.125 0.75 0.875", "adagrad 6", "adagrad 6 0.5 0.25 0.125", "adagrada 6 0.5 0.25 4",
        "adagrada 6 0.5 0.25 4 0.125 0.75 0.875", "lbfgs 6", "lbfgs 6 0.5 3", "lbfgsa 6 0.5 0.25 4", "lbfgsa 6 0.5 0.25 4 0.125 3",
        "lbfgse 6 0.5 0.25 4 0.125", "lbfgse 6 0.5 0.25 4 0.125 s", "decay 6", "decay 6 0.02 0.5 7", "decaya 6 0.5 0.25 4",
        "decaya 6 0.5 0.25 4 0.02 0.5 7"]


def run(ctx):
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS LastGiven BuildComplete BuilderUntouched Emit\nPROPERTIES OnlyOneChanges\nCHECK_DEADLOCK FALSE\n"
    k = 6 if ctx.quick else 7
    ctx.model_check("OptConfigMC", f"SPECIFICATION Spec\nCONSTANTS K = {k}\n EMIT = FALSE\nVIEW View\n" + inv)
    scn = ctx.gen_scenarios("OptConfigMC", "SPECIFICATION Spec\nCONSTANTS K = 4\n EMIT = TRUE\n" + inv)
    ctx.notes["tlc_generated_scenarios"] = len(scn)
    rng.shuffle(scn)
    L = []
    for s in scn[:1500 if ctx.quick else 20000]:
        L.append("begin")
        L += [" ".join([o[0]] + o[1]) for o in s]
        L += ["lr 0.5", "minsr", "build 3"]       # whatever was set must be visible in a completed configuration
    for f in FACS:
        L += ["begin", "fac 1 " + f, "copy 1 2", "pump 1", "assign 2 1", "pump 2"]
    for e in EDGE:                                       # each edge value alone, and after the ordinary value it replaces
        L += ["begin", "maxit 7", "lr 0.5", "sr", e, "build 1", "copy 1 2", "maxit 3", "build 3"]
        L += ["begin", "maxit 7", "lr 0.5", "etol 0.25", "clipv 1.5", "clipn 3", "pat 4", "ckpt 4 dirA", "sgd 0.5", e, "build 1",
              "lr 0.75", "build 2"]
    for _ in range(600 if ctx.quick else 8000):
        L.append("begin")
        live = set()
        base = algo = False
        for _ in range(rng.randint(3, 18)):
            x = rng.random()
            if x < 0.55 or not live:
                c = rng.choice(SETS)
                L.append(c)
                op = c.split()[0]
                base = base or op in ("maxit", "etol", "lr", "lrs", "pat")
                algo = algo or op in ("sgd", "adam", "adagrad", "sr", "lbfgs", "minsr")
                if rng.random() < 0.3 or (base and algo and not live):
                    t = rng.randint(1, 3)
                    L.append(f"build {t}")
                    if base and algo:
                        live.add(t)
            elif x < 0.62:
                t = rng.randint(1, 3)
                L.append(f"fac {t} {rng.choice(FACS)}")
                live.add(t)
            else:
                a, t = rng.choice(sorted(live)), rng.randint(1, 3)
                op = rng.choice(["copy", "assign", "assignbase", "ctor4", "ctor2", "move", "pump", "pump", "mut", "del"])
                if op in ("assign", "assignbase") and t not in live:
                    op = "copy"
                if op in ("copy", "ctor4", "ctor2", "move") and a == t:
                    op = "pump"
                if op in ("pump", "mut", "del"):
                    L.append(f"{op} {a}")
                    if op == "del":
                        live.discard(a)
                else:
                    L.append(f"{op} {a} {t}")
                    live.add(t)
                    if op == "move":
                        live.discard(a)
    text = "\n".join(L) + "\n"
    exe = ctx.build("p05.cpp", flags=["-fsanitize=address,undefined"])
    ctx.conform("OptConfigTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
