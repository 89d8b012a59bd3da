"""Checks of the formula reader and printer against Syntax.tla / TraceText.tla."""
import collections, json
from vlib import *
from props_expr import gen, dedup, sample, validate, sh


def text_of(t):
    return "".join("\u00b1" if x == "+-" else x for x in t)


def key_of(c):
    if c["op"] == "numprint":
        return "number %d*2^%d" % (c["hi"] * 2**26 + c["lo"], c["x"])
    return json.dumps(text_of(c["t"]), ensure_ascii=False) if "t" in c else c["op"] + " " + sh(c["e"])


def gentext(c, mode, alpha, maxn, exact=False, sim=None, seed=0):
    cfg = ('SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = "%s"\n Alpha = "%s"\n MaxN = %d\n Exact = %s\n'
           % (mode, alpha, maxn, str(exact).upper()))
    depth = maxn + (3 if mode == "mutate" else 1)
    t = TLC("GenText", cfg, c.work, simulate=sim, depth=depth if sim else None, seed=c.seed * 1000 + seed if sim else None,
            workers=1 if sim else NCPU).require_ok()
    c.add_tlc(t)
    return t.emitted


def gennum(c, k, op):
    t = TLC("GenNum", "INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n", c.work, simulate=1, depth=k, seed=c.seed, workers=1).require_ok()
    c.add_tlc(t)
    return [x for x in t.emitted if x["op"] == op]


def judge(c, cmds):
    b = compile_one("exprd.cpp")
    cmds = dedup(cmds)
    obs = run_commands(b, cmds, c.work)
    events = []
    for q, o in zip(cmds, obs):
        e = dict(o or {"crash": 997})
        e["op"] = q["op"]
        if "t" in q:
            e["t"] = q["t"]
        elif q["op"] == "numprint":
            e["c"] = q
        else:
            e["c"] = q["e"]
        e.pop("what", None)
        e.pop("i", None)
        events.append(e)
    verd = validate(c, events, "TraceText", 'CONSTANT UnitMode = "prod"\n')
    cnt = collections.Counter()
    for i, e in enumerate(events):
        v = verd[i]["v"] if i in verd else "ok"
        cnt[v] += 1
        if v not in ("ok", "error", "rounded"):
            o = {k: (sh(x) if isinstance(x, dict) else text_of(x) if isinstance(x, list) else x) for k, x in (obs[i] or {}).items()}
            c.reject(v + ": " + key_of(cmds[i]), {"cmd": key_of(cmds[i]), "expected": sh(cmds[i]["e"]) if "e" in cmds[i] else "refused", "obs": o})
    c.traces += len(events)
    c.notes["verdicts"] = dict(cnt)
    return cnt


def run(c, exhaustive, sampled, keep, limit):
    """exhaustive / sampled: thunks that generate commands with TLC"""
    res = par([lambda f=f: [x for x in f() if keep(x)] for f in exhaustive + sampled])
    cmds = [x for r in res[:len(exhaustive)] for x in r]
    nex = len(cmds)
    for r in res[len(exhaustive):]:
        cmds += sample(c, dedup(r), limit)
    log("%d commands (%d exhaustive)" % (len(cmds), nex))
    cnt = judge(c, cmds)
    c.notes["exhaustive_commands"] = nex
    c.samples += [key_of(x) for x in cmds[nex - 2:nex + 4]]
    if cnt["ok"] < 0.4 * sum(cnt.values()):
        raise CheckError("mostly undecided: %s" % cnt)
    return cmds


def C01(c):
    inv = "GrammarFaithful\nINVARIANT ReportRead"
    ex = [lambda a=a, n=n: gentext(c, "grow", a, n) for a, n in [("std", c.pick(4, 5)), ("deep", c.pick(6, 7)), ("sum", c.pick(6, 8)), ("num", 3)]]
    ex += [lambda: gen(c, "read", c.pick(3, 4), 3, "read", module="GenRead", inv=inv)]
    si = [lambda j=j, n=n: gen(c, "read", n, 4, "read", exact=True, sim=c.pick(300, 2000), seed=90 + j, module="GenRead", inv=inv) for j, n in enumerate([8, 14])]
    si += [lambda j=j, a=a, n=n, k=k: gentext(c, "grow", a, n, sim=c.pick(k, 8 * k), seed=j)
           for j, (a, n, k) in enumerate([("std", 10, 800), ("std", 16, 800), ("deep", 15, 800), ("num", 8, 500)])]
    si += [lambda: gennum(c, c.pick(1500, 20000), "num")]
    run(c, ex, si, lambda x: "e" in x or x["op"] == "num", c.pick(3000, 30000))


def C02(c):
    ex = [lambda a=a, n=n: gentext(c, "chars", a, n) for a, n in [("all", c.pick(3, 4)), ("some", c.pick(4, 5)), ("num", c.pick(5, 6)), ("odd", 3)]]
    ex += [lambda a=a, n=n: [x for x in gentext(c, "grow", a, n) if "e" not in x] for a, n in [("std", c.pick(3, 4)), ("deep", 5)]]
    si = [lambda j=j, m=m, a=a, n=n, k=k: gentext(c, m, a, n, sim=c.pick(k, 10 * k), seed=j)
          for j, (m, a, n, k) in enumerate([("mutate", "std", 7, 300), ("mutate", "std", 12, 300), ("mutate", "num", 8, 200), ("chars", "all", 9, 300)])]
    cmds = run(c, ex, si, lambda x: True, c.pick(4000, 40000))
    c.notes["malformed"] = sum("e" not in x for x in cmds)
    if c.notes["malformed"] < 1000:
        raise CheckError("too few malformed texts")


def C03(c):
    ex = [lambda p=p, n=n: gen(c, p, n, 3, "print") for p, n in [("syn", c.pick(3, 4)), ("syn0", 5)]]
    si = [lambda j=j, n=n: gen(c, "syn", n, 4, "print", exact=True, sim=c.pick(300, 2400), seed=j) for j, n in enumerate([8, 14])]
    si += [lambda: gennum(c, c.pick(4000, 30000), "numprint")]
    run(c, ex, si, lambda x: x["op"] == "numprint" or printable(x["e"]), c.pick(4000, 40000))


def printable(e):
    """abs and the arbitrary sign print as |x|, which is not part of the formula language"""
    if e["k"] == "u":
        return e["o"] not in ("abs", "arb") and printable(e["a"])
    if e["k"] == "b":
        return printable(e["l"]) and printable(e["r"])
    if e["k"] == "arr":
        return all(map(printable, e["x"]))
    if e["k"] == "dict":
        return all(printable(b) for _, b in e["m"])
    return True
