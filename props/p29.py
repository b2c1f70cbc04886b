from props.p30 import run as _run


def run(ctx):
    _run(ctx, "io", (260, 4000))
