"""C19 iterative solvers, C20 bounded sequences, C21 arrays, C23 shapes."""
import collections, json
from vlib import *
from props_expr import validate, dedup, sample, totals


def simple(c, cmds, binary, module, key, cfg_extra="", vacuous=0.3, flags=()):
    obs = run_commands(compile_one(binary, flags), cmds, c.work)
    ev = [dict({k: v for k, v in (o or {"crash": 997}).items() if k not in ("i", "what")}, **q) for q, o in zip(cmds, obs)]
    verd = validate(c, ev, module, cfg_extra)
    cnt = collections.Counter(v["v"] for v in verd.values())
    cnt["ok"] = len(ev) - len(verd)
    for i, v in sorted(verd.items()):
        if v["v"] in ("rounded", "skipped"):
            continue
        c.reject("%s: %s" % (v["v"], key(cmds[i])), {"cmd": cmds[i], "obs": obs[i], "verdict": v})
    c.traces += len(ev)
    totals(c, cnt)
    c.notes["per_operation"] = dict(collections.Counter(q.get("op", "history") + ("/" + q["m"] if "m" in q else "") for q in cmds))
    c.samples += [key(q)[:160] for q in cmds[::max(1, len(cmds) // 6)]]
    return ev, verd


def C19(c):
    def one(fam, maxs, rich, sim, seed, spec="Spec", inv="Report"):
        cfg = 'SPECIFICATION %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Fam = "%s"\n MaxS = %d\n Rich = %s\n' % (spec, inv, fam, maxs, "TRUE" if rich else "FALSE")
        t = TLC("GenSolver", cfg, c.work, simulate=sim, depth=maxs + 3 if sim else None, seed=c.seed * 1000 + 70 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    n = c.pick(2500, 30000)
    jobs = [("bisection", c.pick(6, 8), False, None), ("newton", c.pick(3, 4), False, None), ("bisection", 10, True, n), ("newton", 3, True, n), ("newton", 6, True, n), ("newton", 12, True, n),
            ("steps", 0, False, None), ("p", 120, False, c.pick(40, 400), "PSpec", "PReport")]
    res = par([lambda j=j, q=q: one(q[0], q[1], q[2], q[3], j, *q[4:]) for j, q in enumerate(jobs)])
    cmds = []
    for r in res:
        cmds += sample(c, r, c.pick(9000, 100000))
    cmds = dedup(cmds)
    ev, verd = simple(c, cmds, "numa.cpp", "TraceSolver", lambda q: json.dumps(q, sort_keys=True))
    done = [e for e in ev if e["op"] == "solve"]
    c.notes["solved"] = {"%s %s" % (m, "success" if k else "failure"): sum(1 for e in done if e["m"] == m and e.get("ok") == k) for m in ("bisection", "newton", "halley") for k in (0, 1)}
    c.notes["evaluations"] = sum(e.get("n", 0) for e in done)
    c.notes["rounded_evaluations_bounded"] = sum(1 for e in ev if e["op"] == "prec" and e.get("err") == 1)


def C20(c):
    def one(n, rich, debug, sim, seed):
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Len0 = %d\n Rich = %s\n Debug = %s\n' % (n, str(rich).upper(), str(debug).upper())
        t = TLC("GenSeq", cfg, c.work, simulate=sim, depth=n + 2 if sim else None, seed=c.seed * 1000 + 90 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    n = c.pick(1500, 20000)
    jobs = [(c.pick(3, 4), False, False, None), (c.pick(3, 4), False, True, None), (12, True, False, n), (12, True, True, n), (40, True, False, n // 4), (40, True, True, n // 4)]
    res = par([lambda j=j, q=q: one(*q, j) for j, q in enumerate(jobs)])
    for debug in (False, True):
        cmds = dedup([q for (j, r) in zip(jobs, res) if j[2] == debug for q in sample(c, r, c.pick(8000, 200000))])
        simple(c, cmds, "seqs.cpp", "TraceSeq", lambda q: json.dumps(q, sort_keys=True), " CONSTANT Debug = %s\n" % str(debug).upper(), flags=("-DSTATOR_DEBUG",) if debug else ())


def C21(c):
    def one(n, rich, sim, seed):
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Len0 = %d\n Rich = %s\n' % (n, str(rich).upper())
        t = TLC("GenArr", cfg, c.work, simulate=sim, depth=n + 2 if sim else None, seed=c.seed * 1000 + 110 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    n = c.pick(1500, 20000)
    jobs = [(3, False, None), (6, True, n), (12, True, n), (30, True, n // 4)]
    res = par([lambda j=j, q=q: one(*q, j) for j, q in enumerate(jobs)])
    cmds = dedup([q for r in res for q in sample(c, r, c.pick(12000, 200000))])
    simple(c, cmds, "arrays.cpp", "TraceArr", lambda q: json.dumps(q, sort_keys=True))


def C23(c):
    def one(op, dims, span, sim, seed):
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Op = "%s"\n Dims = {%s}\n Span = %d\n' % (op, ", ".join(map(str, dims)), span)
        t = TLC("GenGeo", cfg, c.work, simulate=sim, depth=30 if sim else None, seed=c.seed * 1000 + 130 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    n = c.pick(1200, 15000)
    jobs = [("box", [1, 2], c.pick(2, 4), None), ("box", [1, 2, 3, 4, 5], 11, n), ("ball", [0, 1], 5, None), ("ball", list(range(11)), 9, c.pick(300, 3000)), ("plane", [1, 2, 3, 4, 5], 7, n // 4),
            ("ind", [1], c.pick(1, 2), None), ("ind", [1, 2, 3, 4, 5], 5, c.pick(2000, 20000)), ("ind", [2, 3], 2, c.pick(800, 10000))]
    res = par([lambda j=j, q=q: one(*q, j) for j, q in enumerate(jobs)])
    cmds = dedup([q for r in res for q in sample(c, r, c.pick(6000, 100000))])
    ev, verd = simple(c, cmds, "geo.cpp", "TraceGeo", lambda q: json.dumps(q, sort_keys=True))
    c.notes["overlapping"] = sum(1 for e in ev if e.get("hit") == 1)
    c.notes["touching"] = sum(1 for e in ev if e.get("val") == 0)


def C25(c):
    def one(n, rich, mode, sim, seed):
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Len0 = %d\n Rich = %s\n Mode = "%s"\n' % (n, str(rich).upper(), mode)
        t = TLC("GenXml", cfg, c.work, simulate=sim, depth=n + 2 if sim else None, seed=c.seed * 1000 + 150 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    n = c.pick(600, 8000)
    jobs = [(c.pick(3, 4), False, "build", None), (c.pick(1, 2), False, "parse", None), (10, True, "build", n), (24, True, "build", n // 4), (6, True, "parse", n), (0, False, "cut", None), (0, True, "cut", c.pick(40, 400))]
    res = par([lambda j=j, q=q: one(*q, j) for j, q in enumerate(jobs)])
    cmds = dedup([q for r in res for q in sample(c, r, c.pick(2500, 60000))])
    simple(c, cmds, "xmld.cpp", "TraceXml", lambda q: json.dumps(q, sort_keys=True), flags=("-I" + os.path.join(HARN, "shim"),))
