"""C22: the Python package against the specification of expressions."""
import collections, json, shutil
from vlib import *
from props_expr import gen, dedup, sample, totals, sh, validate
from props_syntax import gentext
import numeric

PYBIN = "/usr/bin/python3"


def package(c):
    """builds the extension from the current tree and lays the package out in the scratch directory"""
    src = os.path.join(REPO, "pysrc", "stator", "core.cpp")
    inc = subprocess.run([PYBIN, "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True).stdout.split("\n")
    so = compile_many([(src, ("-shared", "-fPIC", "-isystem" + inc[0]))])[0]
    d = os.path.join(c.work, "py", "stator")
    os.makedirs(d)
    shutil.copy(so, os.path.join(d, "core" + inc[1]))
    for f in os.listdir(os.path.join(REPO, "pysrc", "stator")):
        if f.endswith(".py"):
            shutil.copy(os.path.join(REPO, "pysrc", "stator", f), d)
    return os.path.dirname(d)


OPS = {"neg", "sin", "cos", "exp", "ln", "+", "-", "*", "/", "^", "="}


def plain(e):
    """can be written with the package's operators and functions"""
    k = e["k"]
    if k == "u":
        return e["o"] in OPS and plain(e["a"])
    if k == "b":
        return e["o"] in OPS and plain(e["l"]) and plain(e["r"])
    if k == "arr":
        return all(plain(x) for x in e["x"])
    if k == "dict":
        return all(plain(v) for _, v in e["m"])
    return True


def has(e, k):
    return e["k"] == k or any(has(x, k) for x in [e[f] for f in ("a", "l", "r") if f in e] + e.get("x", []) + [m[1] for m in e.get("m", [])])


def asked(q):
    """substituting into a dictionary leaves it as it is: nothing to compare"""
    return "e" not in q or plain(q["e"]) and not (q["op"] in ("sub", "deriv") and has(q["e"], "dict"))


def key(q):
    op = q["op"]
    if op == "text":
        return "text %r" % "".join(q["t"])
    if op == "eq":
        return "eq %s ~ %s (style %d)" % (sh(q["a"]), sh(q["b"]), q["st"])
    if op == "misuse":
        return "misuse %s %s" % (q["w"], q["z"])
    return "%s %s%s (style %d.%d)" % (op, sh(q["e"]), " | " + sh(q["s"]) if "s" in q else " d/d" + q["x"]["s"] if "x" in q else "", q["st"], q["how"])


def C22(c):
    env = dict(os.environ, STATOR_PY=package(c), PYTHONDONTWRITEBYTECODE="1")
    g = lambda pr, n, st, op, inv="ReportPy", module="GenPy", **k: (lambda: dedup(gen(c, pr, n, st, op, module=module, inv=inv, **k)))
    ex = [g("py", c.pick(3, 4), 3, "simplify"), g("pyarr", c.pick(3, 4), 3, "simplify"), g("flat", c.pick(4, 5), 5, "simplify"), g("py", 3, 3, "deriv"), g("py", c.pick(2, 3), 3, "sub"), g("pyarr", c.pick(2, 3), 3, "sub"),
          g("pyarr", 3, 3, "deriv"), g("py", 1, 1, "simplify", inv="ReportMisuse")]
    si = [g("py", 8, 4, "simplify", exact=True, sim=c.pick(150, 1500), seed=1), g("pyarr", 9, 4, "simplify", exact=True, sim=c.pick(150, 1500), seed=2),
          g("py", 8, 4, "deriv", exact=True, sim=c.pick(100, 1000), seed=3), g("py", 7, 4, "sub1", exact=True, sim=c.pick(150, 1500), seed=4), g("pyarr", 7, 4, "sub1", exact=True, sim=c.pick(150, 1500), seed=5)]
    eqs = [g("eq", 2, 2, "eq", inv="ReportPair", module="GenEq"), g("py", 2, 3, "eq", inv="ReportVar", module="GenEq"), g("pyarr", 2, 3, "eq", inv="ReportVar", module="GenEq"), g("py", 5, 4, "eq", inv="ReportVar", module="GenEq", exact=True, sim=c.pick(20, 200), seed=6)]
    tx = [lambda: gentext(c, "mutate", "std", 7, sim=c.pick(60, 600), seed=41), lambda: gentext(c, "chars", "some", 3), lambda: gentext(c, "grow", "std", 8, sim=c.pick(100, 1000), seed=42)]
    res = par(ex + si + eqs + tx)
    n1, n2, n3 = len(ex), len(ex) + len(si), len(ex) + len(si) + len(eqs)
    cmds = [q for r in res[:n1] for q in sample(c, [x for x in r if asked(x)], c.pick(5000, 100000))]
    cmds += [q for r in res[n1:n2] for q in sample(c, [x for x in r if asked(x)], c.pick(2000, 30000))]
    for r in res[n2:n3]:
        r = [x for x in r if plain(x["a"]) and plain(x["b"])]
        cmds += [dict(q, st=i % 3) for i, q in enumerate(sample(c, r, c.pick(2500, 30000)))]
    for r in res[n3:]:
        cmds += [{"op": "text", "t": x["t"]} for x in sample(c, dedup(r), c.pick(2000, 20000))]
    cmds = dedup(cmds)
    log("%d commands" % len(cmds))
    obs = run_commands(os.path.join(HARN, "pydrive.py"), cmds, c.work, env=env)
    ev = []
    for q, o in zip(cmds, obs):
        e = {k: v for k, v in q.items() if k not in ("e", "a", "b")}
        e.update({k: v for k, v in (o or {"crash": 997}).items() if k not in ("i", "what")})
        if "e" in q:
            e["c"] = q["e"]
        if q["op"] == "eq":
            e["p"], e["q"] = q["a"], q["b"]
        ev.append(e)
    verd = validate(c, ev, "TracePy", 'CONSTANT UnitMode = "prod"\n', invariant="PyJudge")
    cnt = collections.Counter(v["v"] for v in verd.values())
    cnt["ok"] = len(ev) - len(verd)
    for i, v in sorted(verd.items()):
        if v["v"] not in ("rounded", "vacuous", "error"):
            c.reject("%s: %s" % (v["v"], key(cmds[i])), {"cmd": cmds[i], "obs": obs[i]})
    c.traces += len(ev)
    totals(c, cnt)
    c.notes["per_operation"] = dict(collections.Counter(q["op"] for q in cmds))
    c.samples += [key(q)[:160] for q in cmds[::max(1, len(cmds) // 8)]]
    if cnt["ok"] < 0.4 * len(ev):
        raise CheckError("mostly undecided: %s" % cnt)
