"""Polynomials against Poly.tla / TracePoly.tla (C14-C16) and root finding against Roots.tla (C17, C18)."""
import collections, json, os
from vlib import *
from props_expr import validate, dedup, sample, totals


def gen(c, fam, coset, maxf, maxg, sim=None, seed=0):
    cfg = ('SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Fam = "%s"\n CoSet = %d\n MaxF = %d\n MaxG = %d\n' % (fam, coset, maxf, maxg))
    t = TLC("GenPoly", cfg, c.work, simulate=sim, depth=maxf + maxg + 2 if sim else None, seed=c.seed * 1000 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
    c.add_tlc(t)
    return dedup(t.emitted)


def pk(q):
    s = lambda f: "[" + " ".join(("%d" % a[0] if a[1] == 1 else "%d/%d" % (a[0], a[1])) + ("*2^%d" % a[2] if len(a) == 3 else "") for a in f) + "]"
    return " ".join([q["op"], s(q["f"])] + ([s(q["g"])] if "g" in q else []) + (["k=%s" % (q["k"],)] if "k" in q else []) +
                    ([json.dumps(q["ops"])] if "ops" in q else []))


def poly_check(harness, plan, cap):
    def f(c):
        jobs = plan(c)
        res = par([lambda j=j, q=q: gen(c, *q[:4], sim=q[4], seed=j) for j, q in enumerate(jobs)])
        cmds = []
        for (fam, cs, mf, mg, sim), r in zip(jobs, res):
            cmds += sample(c, r, cap(c) if sim else 5 * cap(c))
        cmds = dedup(cmds)
        obs = run_commands(compile_one(harness), cmds, c.work)
        ev = [dict({k: v for k, v in (o or {"crash": 997}).items() if k not in ("i", "what")}, **q) for q, o in zip(cmds, obs)]
        verd = validate(c, ev, "TracePoly")
        cnt = collections.Counter(v["v"] for v in verd.values())
        cnt["ok"] = len(ev) - len(verd)
        for i, v in sorted(verd.items()):
            if v["v"] != "rounded":
                c.reject("%s: %s" % (v["v"], pk(cmds[i])), {"cmd": cmds[i], "obs": obs[i]})
        c.traces += len(ev)
        totals(c, cnt)
        c.notes["per_operation"] = dict(collections.Counter(q["op"] for q in cmds))
        c.samples += [pk(q) for q in cmds[::max(1, len(cmds) // 6)]]
        if cnt["ok"] < 0.5 * len(ev):
            raise CheckError("mostly vacuous: %s" % cnt)
    return f


C14 = poly_check("polya.cpp", lambda c: [("ring1", 2, c.pick(3, 4), 0, None), ("ring2", 1, 3, c.pick(2, 3), None), ("ring2", 1, 2, 3, None),
                                         ("sring1", 3, 6, 0, c.pick(30, 300)), ("sring2", 3, 5, 5, c.pick(60, 600)), ("ring1", 3, 6, 0, c.pick(60, 600)), ("ring2", 3, 5, 5, c.pick(60, 600))], lambda c: c.pick(4000, 30000))
C15 = poly_check("polyb.cpp", lambda c: [("div", 1, c.pick(4, 5), c.pick(3, 4), None), ("deflate", 2, c.pick(3, 5), 0, None),
                                         ("sdiv", 4, 7, 6, c.pick(100, 1000)), ("sdeflate", 3, 6, 0, c.pick(50, 500)), ("div", 4, 7, 6, c.pick(150, 1500)), ("div", 3, 7, 6, c.pick(150, 1500)), ("deflate", 3, 6, 0, c.pick(100, 1000))], lambda c: c.pick(5000, 30000))
C16 = poly_check("polyb.cpp", lambda c: [("trans", 2, c.pick(4, 5), 0, None), ("mobius", 1, 3, 0, None),
                                         ("strans", 3, 7, 0, c.pick(40, 400)), ("trans", 3, 7, 0, c.pick(150, 1500)), ("mobius", 3, 7, 0, c.pick(100, 1000))], lambda c: c.pick(5000, 30000))


def roots_check(task, plan, cap):
    def one(c, rs, mr, mc, mo, sim, j):
        cfg = ('SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Task = "%s"\n Rs = %d\n MaxR = %d\n MaxC = %d\n MaxO = %d\n' % (task, rs, mr, mc, mo))
        t = TLC("GenRoots", cfg, c.work, simulate=sim, depth=mr + mc + 5 if sim else None, seed=c.seed * 1000 + 40 + j if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)

    def f(c):
        jobs = plan(c)
        res = par([lambda j=j, q=q: one(c, *q, j) for j, q in enumerate(jobs)])
        cmds = []
        for q, r in zip(jobs, res):
            cmds += sample(c, r, cap(c))
        cmds = dedup(cmds)
        obs = run_commands(compile_one("polyc.cpp"), cmds, c.work)
        ev = [dict({k: v for k, v in (o or {"crash": 997}).items() if k not in ("i", "what")}, **q) for q, o in zip(cmds, obs)]
        verd = validate(c, ev, "TraceRoots")
        cnt = collections.Counter(v["v"] for v in verd.values())
        cnt["ok"] = len(ev) - len(verd)
        for i, v in sorted(verd.items()):
            if v["v"] == "skipped":
                continue
            q = cmds[i]
            key = "%s %s: s=%d roots=%s pairs=%s lead=%d pad=%d e=%d g=%d" % (q["op"], v["v"], q["s"], q["R"], q["C"], q["lead"], q["pad"], q["e"], q["g"])
            c.reject(key, {"cmd": q, "obs": obs[i]})
        c.traces += len(ev)
        totals(c, cnt)
        c.notes["per_operation"] = dict(collections.Counter(q["op"] for q in cmds))
        c.notes["degrees"] = dict(collections.Counter(str(len(q["R"]) + 2 * len(q["C"])) for q in cmds))
        c.samples += ["%s roots=%s/%d pairs=%s 2^%d" % (q["op"], q["R"], q["s"], q["C"], q["e"]) for q in cmds[::max(1, len(cmds) // 6)]]
    return f


C17 = roots_check("roots", lambda c: [(1, c.pick(4, 5), 1, c.pick(6, 7), None), (2, 7, 1, 7, c.pick(5000, 60000)), (3, 7, 2, 7, c.pick(5000, 60000)), (4, 7, 1, 7, c.pick(4000, 40000)), (5, 3, 1, 3, c.pick(3000, 20000))], lambda c: c.pick(12000, 200000))
C18 = roots_check("counts", lambda c: [(1, c.pick(3, 4), 1, c.pick(6, 7), None), (2, 7, 1, 7, c.pick(2000, 20000)), (3, 7, 2, 7, c.pick(2000, 20000)), (4, 7, 1, 7, c.pick(2000, 20000))], lambda c: c.pick(12000, 200000))
