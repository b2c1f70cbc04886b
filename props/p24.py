import random
from lib.common import parse_events
from lib import cglib


def run(ctx):
    rng = random.Random(ctx.seed + 24)
    exe = ctx.build("p23.cpp", shim=True, simmpi=True, flags=["-O0"])
    for W, M in ((1, 3), (2, 3), (3, 2)) if ctx.quick else ((1, 5), (2, 4), (3, 3), (4, 2)):
        ctx.model_check("CGProto", f"SPECIFICATION Spec\nCONSTANTS W = {W}\n MaxMult = {M}\nINVARIANTS OwnResult NoLeftOver\nPROPERTIES AllDone\nCHECK_DEADLOCK FALSE\n")
    text = "\n".join(cglib.lines(rng, 400 if ctx.quick else 5000, lambda r: r.choice([1, 2, 3, 4, 5]))) + "\n"
    ctx.conform("CGTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
