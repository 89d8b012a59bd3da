"""Checks of the run-time expression library against Sem.tla / TraceExpr.tla."""
import collections, json, os
import vlib, numeric
from vlib import *


def sh(e):
    k = e.get("k")
    if k == "v":
        return e["s"]
    if k == "c":
        return ("%d" % e["n"] if e["d"] == 1 else "%d/%d" % (e["n"], e["d"])) if "n" in e else str(e.get("txt", e.get("x", e.get("r"))))
    if k == "u":
        return "%s(%s)" % (e["o"], sh(e["a"]))
    if k == "b":
        return "(%s %s %s)" % (sh(e["l"]), e["o"], sh(e["r"]))
    if k == "arr":
        return "[" + ",".join(map(sh, e["x"])) + "]"
    if k == "dict":
        return "{" + ",".join(sh(a) + ":" + sh(b) for a, b in e["m"]) + "}"
    return str(k)


def key_of(c):
    s = c["op"] + " " + sh(c["e"])
    if "s" in c:
        s += " | " + sh(c["s"])
    if "x" in c and isinstance(c["x"], dict):
        s += " d/d" + sh(c["x"])
    return s


def gen(c, profile, maxn, maxstk, op, exact=False, sim=None, seed=0, module="GenExpr", inv="Report"):
    cfg = ('SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Profile = "%s"\n MaxN = %d\n MaxStk = %d\n'
           ' Exact = %s\n Op = "%s"\n' % (inv, profile, maxn, maxstk, str(exact).upper(), op))
    t = TLC(module, cfg, c.work, simulate=sim, depth=maxn + 1 if sim else None, seed=c.seed * 1000 + seed if sim else None,
            workers=1 if sim else NCPU).require_ok()
    c.add_tlc(t)
    return t.emitted


def dedup(cmds, limit=None):
    seen, out = set(), []
    for x in cmds:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append((k, x))
    out.sort(key=lambda p: (len(p[0]), p[0]))
    return [x for _, x in out]


def sample(c, cmds, limit):
    if limit and len(cmds) > limit:
        import random
        r = random.Random(c.seed)
        idx = sorted(r.sample(range(len(cmds)), limit))
        cmds = [cmds[i] for i in idx]
    return cmds


def validate(c, events, module, cfg_extra="", env=None, chunk=20000, invariant="Judge"):
    """Trace validation: returns {index: verdict record} for every event that is not plainly ok."""
    out = {}
    for lo in range(0, len(events), chunk):
        part = events[lo:lo + chunk]
        p = os.path.join(c.work, "trace%d.ndjson" % lo)
        with open(p, "w") as f:
            for e in part:
                f.write(json.dumps(e) + "\n")
        t = TLC(module, "SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n%s" % (invariant, cfg_extra), c.work,
                env=dict(env or {}, TRACE=p)).require_ok()
        if t.distinct != len(part):
            raise CheckError("trace not consumed: %d of %d lines" % (t.distinct, len(part)))
        c.add_tlc(t)
        for v in t.emitted:
            out[lo + v["l"] - 1] = v
        os.unlink(p)
    return out


# deviations the specification names; they are rejected like everything else, but identified as a class
NAMED = ("derivative of an array access is the access itself", "symbolic array taken for a scalar")


def run_and_judge(c, cmds, unit="prod", module="TraceExpr", invariant="Judge"):
    b = compile_one("exprd.cpp")
    cmds = dedup(cmds)
    obs = run_commands(b, cmds, c.work)
    events = []
    for q, o in zip(cmds, obs):
        e = dict(o or {"crash": 997})
        e["op"] = q["op"]
        e["c"] = q["e"]
        for f in ("s", "x"):
            if f in q:
                e[f] = q[f]
        e.pop("what", None)
        e.pop("i", None)
        events.append(e)
    verd = validate(c, events, module, 'CONSTANT UnitMode = "%s"\n' % unit, invariant=invariant)
    cnt = collections.Counter()
    for i, e in enumerate(events):
        v = verd[i]["v"] if i in verd else "ok"
        if v == "rounded":
            n = numeric.judge(e, unit)
            v = "ok" if n == "close" else "vacuous" if n == "na" else "wrong value"
            cnt["rounded"] += 1
        elif v == "wrong value" and (numeric.variable_power(e["c"]) or numeric.variable_power(e.get("r"))):
            # laws of real powers with a variable exponent (x^y * x = x^(y+1)) that an abstract power does not know
            if numeric.judge(e, unit, numeric.PTS + numeric.SIGNED) == "close":
                v = "equal by a law of powers"
        cnt[v] += 1
        if v in NAMED:
            c.reject(v, key_of(cmds[i]))
        if v in ("crash", "unexpected error", "built wrong", "operand modified", "wrong value", "quantities not combined", "superfluous unit or uncertainty"):
            c.reject(v + ": " + key_of(cmds[i]) + ("" if unit == "prod" else " (units erased)"), {"cmd": cmds[i], "obs": {k: (sh(x) if isinstance(x, dict) else x) for k, x in (obs[i] or {}).items()}})
    c.traces += len(events)
    return cnt


def totals(c, cnt):
    c.notes["verdicts"] = dict(cnt)


PLAN = {
    "simplify": lambda c: [("alg", c.pick(4, 5), 3), ("alg0", c.pick(5, 5), 3), ("fun", c.pick(4, 5), 3), ("arr", c.pick(4, 4), 3), ("mix", 3, 3), ("flat", 6, 5)],
    "sub":      lambda c: [("alg", 3, 3), ("fun", c.pick(3, 4), 3), ("arr", c.pick(3, 4), 3), ("flat", 6, 5)],
    "deriv":    lambda c: [("alg", c.pick(4, 5), 3), ("alg0", 5, 3), ("fun", c.pick(4, 5), 3), ("arr", c.pick(3, 4), 3), ("mix", 3, 3), ("flat", 6, 5)],
}


def expr_check(op, simprofiles, simop=None):
    def f(c):
        cmds = []
        for pr, n, st in PLAN[op](c):
            cmds += gen(c, pr, n, st, op)
        nex = len(cmds)
        for j, (pr, n, st, k) in enumerate(simprofiles(c)):
            cmds += sample(c, dedup(gen(c, pr, n, st, simop or op, exact=True, sim=k, seed=j)), c.pick(3000, 12000))
        log("%d commands (%d exhaustive)" % (len(cmds), nex))
        cnt = run_and_judge(c, cmds)
        c.notes["exhaustive_commands"] = nex
        totals(c, cnt)
        c.samples += [key_of(x) for x in cmds[nex - 2:nex + 3]]
        if cnt["ok"] < 0.4 * sum(cnt.values()):
            raise CheckError("mostly vacuous: %s" % cnt)
    return f


def C04(c):
    expr_check("simplify", lambda c: [("alg", 11, 4, c.pick(300, 2000)), ("mix", 12, 4, c.pick(300, 2000)), ("arr", 10, 4, c.pick(300, 2000))])(c)


def C05(c):
    expr_check("sub", lambda c: [("alg", 10, 4, c.pick(300, 2000)), ("fun", 10, 4, c.pick(300, 2000)), ("arr", 9, 4, c.pick(200, 2000))], "sub1")(c)


def C06(c):
    expr_check("deriv", lambda c: [("alg", 10, 4, c.pick(300, 2000)), ("fun", 9, 4, c.pick(300, 2000)), ("mix", 9, 4, c.pick(200, 2000))])(c)


def C07(c):
    mk = lambda pr, n, st, inv, **k: (lambda: gen(c, pr, n, st, "eq", module="GenEq", inv=inv, **k))
    ex = [mk("eq", c.pick(4, 5), 2, "ReportPair"), mk("eq", c.pick(2, 3), 3, "ReportVar"), mk("eq0", c.pick(4, 5), 3, "ReportVar")]
    si = [mk("eq", n, 4, "ReportVar", exact=True, sim=c.pick(50, 600), seed=j) for j, n in enumerate([4, 7, 11])]
    res = par([lambda f=f: dedup(f()) for f in ex + si])
    cmds = [x for r in res[:len(ex)] for x in sample(c, r, c.pick(20000, 400000))]
    nex = len(cmds)
    for r in res[len(ex):]:
        cmds += sample(c, r, c.pick(4000, 40000))
    cmds = dedup(cmds)
    log("%d pairs (%d from exhaustive enumeration)" % (len(cmds), nex))
    obs = run_commands(compile_one("exprd.cpp"), cmds, c.work)
    events = [dict({k: v for k, v in (o or {"crash": 997}).items() if k not in ("i", "what")}, a=q["a"], b=q["b"]) for q, o in zip(cmds, obs)]
    verd = validate(c, events, "TraceEq")
    cnt = collections.Counter(v["v"] for v in verd.values())
    cnt["ok"] = len(events) - len(verd)
    for i, v in sorted(verd.items()):
        c.reject("%s: %s | %s" % (v["v"], sh(cmds[i]["a"]), sh(cmds[i]["b"])), {"cmd": cmds[i], "obs": obs[i]})
    c.traces += len(events)
    totals(c, cnt)
    c.notes["equal_pairs"] = sum(1 for o in obs if o and o.get("ab") == 1)
    c.notes["exhaustive_commands"] = nex
    c.samples += ["%s | %s" % (sh(x["a"]), sh(x["b"])) for x in cmds[nex - 2:nex + 3]]
    if c.notes["equal_pairs"] < 300:
        raise CheckError("too few equal pairs")


def C08(c):
    cmds = []
    def g(k, size, steps, num, seed):
        cfg = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n K = %d\n MaxSize = %d\n MaxSteps = %d\n" % (k, size, steps)
        t = TLC("GenSession", cfg.replace("SPECIFICATION Spec", "INIT Init\nNEXT Next"), c.work, simulate=num, depth=steps + 3, seed=c.seed * 100 + seed, workers=1).require_ok()
        c.add_tlc(t)
        return t.emitted
    jobs = [(3, 20, 12, 800), (4, 24, 20, 800), (6, 24, 40, 400)]
    for r in par([lambda j=j, q=q: g(q[0], q[1], q[2], c.pick(q[3], 10 * q[3]), j) for j, q in enumerate(jobs)]):
        cmds += r
    cmds = dedup(cmds)
    obs = run_commands(compile_one("exprd.cpp"), cmds, c.work)
    lines, src, cnt = [], [], collections.Counter()
    for i, (q, o) in enumerate(zip(cmds, obs)):
        if not o or "log" not in o:
            c.reject("session crashed: " + json.dumps(q["steps"]), {"obs": o})
            continue
        for j, e in enumerate(o["log"]):
            lines.append(dict(e, **(q["steps"][j - 1] if j else {"a": "start", "to": 0})))
            src.append((i, j))
    log("%d histories, %d steps" % (len(cmds), len(lines)))
    # cut at session starts
    lo = 0
    while lo < len(lines):
        hi = min(lo + 12000, len(lines))
        while hi < len(lines) and lines[hi]["a"] != "start":
            hi += 1
        p = os.path.join(c.work, "t.ndjson")
        with open(p, "w") as f:
            for e in lines[lo:hi]:
                f.write(json.dumps(e) + "\n")
        t = TLC("TraceSession", 'SPECIFICATION Spec\nPROPERTY Judge\nCHECK_DEADLOCK FALSE\nCONSTANT UnitMode = "prod"\n', c.work, env={"TRACE": p}).require_ok()
        if t.distinct != hi - lo:
            raise CheckError("trace not consumed: %d of %d" % (t.distinct, hi - lo))
        c.add_tlc(t)
        for v in t.emitted:
            cnt[v["v"]] += 1
            if v["v"] not in ("error", "skipped"):
                i, j = src[lo + v["l"] - 1]
                c.reject("%s at step %d of %s" % (v["v"], j, json.dumps(cmds[i]["steps"][:j])), {"before": obs[i]["log"][j - 1], "after": obs[i]["log"][j]})
        lo = hi
    cnt["ok"] = len(lines) - sum(cnt.values())
    c.traces += len(cmds)
    c.notes["steps"] = len(lines)
    totals(c, cnt)
    c.samples += [json.dumps(q["steps"])[:400] for q in cmds[:3]]
