import random
from lib.common import parse_events, CheckError

PATHS = ["x", "x/", "./x", "x/y", "x/y/", "x//y", "./x/y", "x/./y", "x/../x/y", "x/y/z", "x/y/z/", "x/y//z//",
         "./x/y/z", "x/y/./z", "x/y/../y/z", "EMPTY", "LONG", "VLONG"]
PRES = ["-", "d1", "d2", "d3", "D1", "D2", "D3", "f1", "f2", "f3"]


def run(ctx):
    rng = random.Random(ctx.seed)
    body = "INVARIANT Truthful\nPROPERTIES NothingLost AllReturn\nCHECK_DEADLOCK FALSE\n"
    for p in (2,) if ctx.quick else (2, 3):
        ctx.model_check("DirUtilMC", f"SPECIFICATION Spec\nCONSTANTS P = {p}\n RACY = FALSE\n" + body, label=f"P={p}")
    ok, out, _ = ctx.tlc("DirUtilMC", "SPECIFICATION Spec\nCONSTANTS P = 2\n RACY = TRUE\nINVARIANT Truthful\nCHECK_DEADLOCK FALSE\n")
    if ok:
        raise CheckError("the model does not exhibit the race it must exclude")
    L = []
    for fn in ("create", "ensure", "exist"):
        for path in PATHS:
            for pre in PRES:
                L.append(f"{fn} {path} {pre} -1 - -1 0")
                if path in ("EMPTY", "LONG", "VLONG"):
                    continue
                for act in ("d1", "d2", "d3", "f1", "f2", "f3"):
                    for at in range(0, 7 if ctx.quick else 16):
                        L.append(f"{fn} {path} {pre} {at} {act} -1 0")
                for errno in (13, 28, 30):       # EACCES ENOSPC EROFS
                    for at in range(3):
                        L.append(f"{fn} {path} {pre} -1 - {at} {errno}")
    if ctx.quick:
        rng.shuffle(L)
        L = L[:9000]
    ctx.notes["schedules"] = len(L)
    text = "\n".join(L) + "\n"
    exe = ctx.build("p10.cpp")
    evs = ctx.conform("DirUtilTrace", lambda: parse_events(ctx.run(exe, stdin=text, cwd=ctx.sub("fs")).stdout))
    import json
    acted = sum(1 for e in evs if (json.loads(e) if isinstance(e, str) else e).get("acted"))
    ctx.notes["schedules_with_concurrent_action"] = acted
    if acted == 0:
        raise CheckError("the scheduling points were never reached")
