from lib.common import parse_events


def run(ctx):
    for r, c in ((2, 3), (1, 4), (3, 3)) if ctx.quick else ((2, 3), (1, 4), (3, 3), (5, 7), (12, 12)):
        ctx.model_check("DirectionsMC", f"SPECIFICATION Spec\nCONSTANTS R = {r}\n C = {c}\nINVARIANT Laws\nPROPERTY Back\nCHECK_DEADLOCK FALSE\n", label=f"{r}x{c}")
    exe = ctx.build("p40.cpp", flags=["-fsanitize=undefined"])
    ctx.conform("DirectionsTrace", lambda: parse_events(ctx.run(exe).stdout))
