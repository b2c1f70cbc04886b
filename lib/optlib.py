"""Scenario construction, execution and projection shared by the optimizer checks (spec/Optimizer*.tla, harness/opt.cpp)."""
import json
import os
from lib.common import parse_events

BASE = dict(alg="sgd", chk="flow", maxIter=4, etol=0, gtol=0, pat=99, lrs="4", auto=1, retries=1, rollb=0, ck=0, jsonl=0, csv=0,
            selI=0, selN=0, phase=2, det=0, eonly=0, x0=100, n=1, runs=1, stop=99, win=3, sk10=23, elem="d", junk=0)


def line(script, **kw):
    d = dict(BASE)
    d.update(kw)
    return " ".join(f"{k}={v}" for k, v in d.items()) + " " + " ".join(",".join(map(str, o)) for o in script)


def script_of(hist):
    """Abstract outcomes -> (energy, error, gradient, spread of O*). The k-th spike of a run is 8x the one before."""
    out, ns = [], dict(s1=0, s2=0, s3=0, s4=0)
    for i, h in enumerate(hist):
        e, err, g, var = h["e"], 1, 64 * (1 if i % 2 else 2), 5
        k = h["k"]
        if k in ("s1", "s14"):
            err = 16 * 8 ** ns["s1"]; ns["s1"] += 1
        if k == "s2":
            g = 1024 * 8 ** ns["s2"]; ns["s2"] += 1
        if k == "s3":
            var = 1; g = 128
        if k in ("s4", "s14"):
            e = 100 * 8 ** ns["s4"]; ns["s4"] += 1
        out.append((e, err, g, var))
    return out


def table(text, head):
    """CSV text -> list of rows, or None if malformed."""
    if text == "":
        return []
    L = text.split("\n")
    if L[0] != head or L[-1] != "":
        return None
    return [r.split(",") for r in L[1:-1]]


def num(x, scale=1):
    """exact projection of a printed number to an integer; a value that is not one gets an impossible mark"""
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return -999999999
    if not (abs(y) < 2e9) or abs(y - round(y)) > 1e-4 * max(1, abs(y)):
        return -999999998
    return round(y)


def project(ev):
    if ev["op"] == "begin":
        ev.pop("line", None)
        return ev
    if ev["op"] != "end":
        return ev
    for k, d in dict(exc="", k=0, traj=[], errs=[], gns=[], lrt=[], n=-1, conv=False, fe=0, me=0, x=0, x_ok=False, lowx=0, lowx_ok=False, nres=-1, nroll=-1, nforced=-1,
                     log=[], gres=-2, groll=-2, gforced=-2, jtext="", ctext="", cks=[], top="", verdict="ok", rtext=[]).items():
        ev.setdefault(k, d)
    ok, recs = True, []
    jt = ev.pop("jtext")
    if jt and not jt.endswith("\n"):
        ok = False
    for l in jt.splitlines():
        try:
            recs.append(json.loads(l))
        except ValueError:
            ok = False
    g = lambda k, d=None: [r.get(k, d) for r in recs]
    ev["jsonl_ok"] = ok
    ev["jiter"], ev["jE"], ev["jerr"], ev["jg"] = [num(x) for x in g("iter")], [num(x) for x in g("energy")], [num(x) for x in g("energy_error")], [num(x) for x in g("grad_norm")]
    ev["jlr"], ev["jsel"], ev["jeta"] = [num(x, 16) for x in g("lr")], [x is True for x in g("selector_triggered")], [num(x, 16) for x in g("selected_eta")]
    rows = table(ev.pop("ctext"), "step,attempt,signal,action,value,threshold")
    ev["csv"] = [dict(step=-1, att=-1, sig="?", act="?")] if rows is None else [dict(step=num(r[0]), att=num(r[1]), sig=r[2][:2], act=r[3]) for r in rows]
    cks = []
    for c in ev["cks"]:
        meta = dict(x.split(" ", 1) for x in c["meta"].split("\n") if " " in x)
        t = table(c["snap"], "iteration,energy,energy_error")
        t = [["-1", "-1", "-1"]] if t is None or [num(r[0]) for r in t] != list(range(len(t))) else t
        cks.append(dict(step=num(c["dir"].replace("step_", "")), x=c["x"] if c["x_ok"] else -999999997, mstep=num(meta.get("step")), mE=num(meta.get("energy")), merr=num(meta.get("error")),
                        tE=[num(r[1]) for r in t], terr=[num(r[2]) for r in t]))
    ev["cks"] = sorted(cks, key=lambda c: c["step"])
    t = table(ev.pop("top"), "iteration,energy,energy_error")
    t = [["-1", "-1", "-1"]] if t is None or [num(r[0]) for r in t] != list(range(len(t))) else t
    ev["topE"], ev["toperr"] = [num(r[1]) for r in t], [num(r[2]) for r in t]
    rt = ev.pop("rtext")
    ev["revals"], ev["rn"] = [ev["k"]] + [r["k"] for r in rt], [ev["n"]] + [r["n"] for r in rt]
    ev["rtraj"], ev["rlrt"] = [ev["traj"]] + [r["traj"] for r in rt], [ev["lrt"]] + [r["lrt"] for r in rt]
    for r in rt:
        if r["exc"]:
            ev["exc"] = ev["exc"] or r["exc"]
    return ev


def run(ctx, lines, chunk=4000, timeout=600):
    exe = ctx.optexe if hasattr(ctx, "optexe") else ctx.build("opt.cpp", shim=True, simmpi=True, flags=["-O0"])
    ctx.optexe = exe
    for i in range(0, len(lines), chunk):
        text = "\n".join(lines[i:i + chunk]) + "\n"

        def record():
            d = ctx.sub("optdir")
            r = ctx.run(exe, [d], stdin=text, timeout=timeout)
            return [project(json.loads(l)) for l in parse_events(r.stdout)]
        ctx.conform("OptimizerTrace", record)


def mc(ctx, emit=False, **kw):
    d = dict(Algs='{"sgd"}', MaxIter=3, Retries="{0, 1}", Energies="{1, 2}", Pats="{9}", Rolls="{TRUE, FALSE}", Sels="{0}", Kinds='{"ok", "s1", "s4"}', ETols="{0}", Stops="{99}")
    d.update(kw)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f" {k} = {v}\n" for k, v in d.items()) + f" Emit = {'TRUE' if emit else 'FALSE'}\nCHECK_DEADLOCK FALSE\n"
    if emit:
        return ctx.gen_scenarios("OptimizerMC", cfg)
    cfg += "VIEW View\nINVARIANTS Bounded TrajOk EvalTraj LowMin AtMostOneRollbackPerIter NoTrace Known NoRecNoReject\nPROPERTIES Terminates MonotoneSel\n"
    ctx.model_check("OptimizerMC", cfg, workers=6, heap="8g", timeout=850)


def rnd(rng, es=(-1, 0, 1, 1, 2, 3, 50, 400), errs=(1, 1, 1, 1, 4, 5, 16, 64), gs=tuple(64 * x for x in (1, 1, 1, 1, -1, 4, 5, 16)), **kw):
    """A random history of evaluation outcomes and a random configuration (thresholds hit exactly where arithmetic is exact)."""
    sc = [(rng.choice(es), rng.choice(errs), rng.choice(gs), rng.choice([5, 5, 5, 3, 1])) for _ in range(rng.randint(2, 14))]
    d = dict(alg="sgd", auto=1, retries=rng.randint(0, 3), rollb=rng.randint(0, 1), maxIter=rng.randint(1, 8), x0=1000, sk10=rng.choice([7, 13, 23, 37]),
             n=rng.choice([1, 1, 1, 2, 3]), elem=rng.choice("dc"), junk=rng.randint(0, 1), win=rng.choice([1, 3, 7]))
    d.update(kw)
    return line(sc, **d)
