import random
from lib.common import parse_events
from lib import cglib


def run(ctx):
    rng = random.Random(ctx.seed)
    exe = ctx.build("p23.cpp", shim=True, simmpi=True, flags=["-O0"])
    ctx.model_check("CGMC", f"SPECIFICATION Spec\nCONSTANTS B = {1 if ctx.quick else 2}\nINVARIANTS Minimal FirstDown Solves\nCHECK_DEADLOCK FALSE\n")
    text = "\n".join(cglib.lines(rng, 1200 if ctx.quick else 15000, lambda r: 0)) + "\n"
    ctx.conform("CGTrace", lambda: parse_events(ctx.run(exe, stdin=text).stdout))
