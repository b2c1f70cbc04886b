import random
from lib.common import parse_events
from lib.tpslib import script


def run(ctx, kind="alg", n=(260, 4000)):
    rng = random.Random(ctx.seed * 2 + (kind == "io"))
    ctx.model_check("TpsAlgMC", "SPECIFICATION Spec\nCONSTANTS V <- Vals\n K = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Commutes Inverts Linear Hermitian Positive Polar SquareNorm SitesAdd KeepsBc\nPROPERTIES Faithful NoReleased\n" % (4 if ctx.quick else 5))
    L = []
    for _ in range(n[0] if ctx.quick else n[1]):
        L += script(rng, kind)
    exe = ctx.build("tpsalg.cpp", shim=True, simmpi=True, flags=["-O0"])
    text = "\n".join(L) + "\n"
    ctx.conform("TpsAlgTrace", lambda: parse_events(ctx.run(exe, [ctx.sub("d")], stdin=text).stdout))
