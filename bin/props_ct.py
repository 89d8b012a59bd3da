"""Checks of the compile-time library and of automatic differentiation."""
import collections, json
from vlib import *
from props_expr import dedup, gen, sample, totals, sh, validate
from props_syntax import printable
import ct, numeric, numeric_ad

AD_PRELUDE = '''#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/ad.hpp>
#include <cstdio>
#include "adout.hpp"
static constexpr char NX[] = "x", NY[] = "y";
static const sym::Var<NX> x; static const sym::Var<NY> y;
'''


def genad(c, profile, n, st, orders, exact=False, sim=None, seed=0):
    cfg = ('SPECIFICATION Spec\nINVARIANT ReportAd\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Profile = "%s"\n MaxN = %d\n MaxStk = %d\n Exact = %s\n Op = "ad"\n Orders = {%s}\n'
           % (profile, n, st, str(exact).upper(), ",".join(map(str, orders))))
    t = TLC("GenAd", cfg, c.work, simulate=sim, depth=n + 1 if sim else None, seed=c.seed * 1000 + seed if sim else None, workers=1 if sim else 4).require_ok()
    c.add_tlc(t)
    return dedup(t.emitted)


def adkey(q):
    return "ad<%d> %s at %s=%s" % (q["nd"], sh(q["e"]), q["x"], "%d" % q["n"] if q["d"] == 1 else "%d/%d" % (q["n"], q["d"]))


def C13(c):
    g = lambda *a, **k: (lambda: genad(c, *a, **k))
    ex = [g("ad", 3, 3, [4]), g("ads", 3, 3, [4]), g("adx", c.pick(2, 3), 3, [1])]
    si = [g("ads", 5, 3, [6], exact=True, sim=c.pick(250, 2500), seed=1), g("ads", 8, 3, [3, 6], exact=True, sim=c.pick(150, 1500), seed=2), g("ad", 6, 3, [6], exact=True, sim=c.pick(150, 1500), seed=3),
          g("ad", 9, 4, [0, 1, 4], exact=True, sim=c.pick(100, 1000), seed=4), g("adx", 5, 4, [3], exact=True, sim=c.pick(60, 600), seed=5)]
    res = par(ex + si)
    lim = [c.pick(3000, 40000), c.pick(4000, 60000), c.pick(1000, 10000)] + [c.pick(1500, 15000)] * 3 + [c.pick(800, 8000)] * 2
    cmds = dedup([q for r, n in zip(res, lim) for q in sample(c, r, n)])
    # the same calls on compile-time expressions
    ctc = []
    pool = sample(c, [q for r in res[:2] for q in r], 4000) + sample(c, [q for r in res[3:7] for q in r], 4000)
    import random
    random.Random(c.seed).shuffle(pool)
    seen = set()
    for j, q in enumerate(pool):
        style = ("C", "double", "int")[j % 3]
        try:
            t, const = ct.cpp(q["e"], style)
        except ct.Skip:
            continue
        if const or len(seen) >= c.pick(150, 1200):
            continue
        k = (t, q["nd"])
        if k in seen:
            continue
        seen.add(k)
        ctc.append((dict(q, style=style), "std::feclearexcept(FE_ALL_EXCEPT); auto e = %s; auto r = sym::ad<%d>(e, %s = %s); out += adout(r);" % (t, q["nd"], q["x"], ct.const(q["n"], q["d"], ("double", "C", "int")[(j // 3) % 3]))))
    obs, cobs = par([lambda: run_commands(compile_one("adr.cpp"), cmds, c.work), lambda: ct.run_programs(c, "adct", AD_PRELUDE, [b for _, b in ctc], per_tu=20)])
    alls = cmds + [q for q, _ in ctc]
    obs = obs + cobs
    cnt = collections.Counter()
    byn = collections.defaultdict(list)
    for q, o in zip(alls, obs):
        o = o or {"crash": 997}
        if "nomem" in o:
            continue
        if "nocompile" in o:
            c.reject("no longer compiles: " + adkey(q) + " " + q.get("style", ""), {"cmd": q})
            continue
        e = {k: v for k, v in o.items() if k not in ("i", "v")}
        e.update(c=q["e"], x=q["x"], n=q["n"], d=q["d"])
        byn[q["nd"]].append((q, o, e))
    log("%d calls at run time, %d compile-time programs" % (len(cmds), len(ctc)))

    def val(nd):
        return validate(c, [e for _, _, e in byn[nd]], "TraceAd", "CONSTANT Nd = %d\n" % nd)
    for nd in sorted(byn):
        verd = val(nd)
        for i, (q, o, e) in enumerate(byn[nd]):
            v = verd[i]["v"] if i in verd else "ok"
            if v in ("rounded", "unknown"):
                n = numeric_ad.judge(q["e"], q["x"], q["n"], q["d"], o["v"])
                v = "ok (rounded)" if n == "ok" else "vacuous" if n == "na" else "wrong coefficient"
            cnt[v] += 1
            if v not in ("ok", "ok (rounded)", "vacuous"):
                c.reject("%s: %s%s" % (v, adkey(q), " compile-time " + q["style"] if "style" in q else ""), {"cmd": q, "obs": o})
    c.traces += len(alls)
    c.notes["compile_time_programs"] = len(ctc)
    totals(c, cnt)
    c.samples += [adkey(q) for q in alls[::max(1, len(alls) // 8)]]
    if cnt["ok"] < 0.2 * len(alls):
        raise CheckError("mostly undecided: %s" % cnt)


CT_PRELUDE = '''%s#include "ctast.hpp"
#include <cstdio>
static constexpr char NX[] = "x", NY[] = "y";
static const sym::Var<NX> x; static const sym::Var<NY> y;
'''
RT_PRELUDE = CT_PRELUDE % "#define WITH_RUNTIME\n#include <stator/symbolic/runtime.hpp>\n"
CT_PRELUDE = CT_PRELUDE % ""
V = lambda s: {"k": "v", "s": s}
K = lambda n, d=1: {"k": "c", "n": n, "d": d}
B = lambda o, l, r: {"k": "b", "o": o, "l": l, "r": r}
CTSUBS = [("x", K(2)), ("x", K(0)), ("x", K(1)), ("x", V("y")), ("x", B("+", V("x"), V("y"))), ("y", B("*", V("x"), V("x"))), ("x", K(1, 2)), ("y", K(-3))]
FLAGS = "std::feclearexcept(FE_ALL_EXCEPT); "


RTCALLS = ("Expr", "repr", "mixed", "rtsub", "rtderivative")


def ctcalls(e, t, style, j):
    """the calls made on one compile-time expression: (event, C++ body)"""
    ev = lambda op, **k: dict(op=op, c=e, style=style, **k)
    yield ev("simplify", call="written"), FLAGS + "auto r = %s; out += ctout(r);" % t
    yield ev("build", call="Expr"), FLAGS + "sym::Expr r(%s); out += rtout(r);" % t
    if printable(e):
        yield ev("print", call="repr"), "auto r = %s; out += txout(r);" % t
    if e["k"] == "b" and j % 2 == 0:
        l, cl = ct.cpp(e["l"], style)
        r, cr = ct.cpp(e["r"], style)
        m = ("sym::Expr(%s)" % l, r) if j % 4 else (l, "sym::Expr(%s)" % r)
        yield ev("build", call="mixed"), FLAGS + "sym::Expr r(%s); out += rtout(r);" % ("sym::pow(%s, %s)" % m if e["o"] == "^" else "%s %s %s" % (m[0], e["o"], m[1]))
    v, a = CTSUBS[j % len(CTSUBS)]
    at, ac = ct.cpp(a, ("C", "double", style)[j % 3])
    if j % 3 == 0 and (style != "int" or not hasdiv(e)):
        yield ev("sub", call="rtsub", s=B("=", V(v), a)), FLAGS + "sym::Expr r = sub(sym::Expr(%s), %s = %s); out += rtout(r);" % (t, v, at)
    elif j % 3 == 1:
        yield ev("deriv", call="rtderivative", x=V(v)), FLAGS + "sym::Expr r = derivative(sym::Expr(%s), %s); out += rtout(r);" % (t, v)
    yield ev("simplify", call="simplify"), FLAGS + "auto r = sym::try_simplify(%s); out += ctout(r);" % t
    yield ev("simplify", call="expand"), FLAGS + "auto r = sym::try_expand(%s); out += ctout(r);" % t
    yield ev("simplify", call="N"), FLAGS + "auto r = sym::try_N(%s); out += ctout(r);" % t
    yield ev("deriv", call="derivative", x=V("x")), FLAGS + "auto r = derivative(%s, x); out += ctout(r);" % t
    yield ev("deriv", call="simplified derivative", x=V("y")), FLAGS + "auto r = sym::try_simplify(derivative(%s, y)); out += ctout(r);" % t
    for n in (0, 3) if style != "int" or not hasdiv(e) else ():         # dividing C++ integers is the user's choice
        v, a = CTSUBS[(j + n) % len(CTSUBS)]
        at, ac = ct.cpp(a, ("C", "double", style)[(j // 8 + n) % 3])
        yield ev("sub", call="sub", s=B("=", V(v), a)), FLAGS + "auto r = sub(%s, %s = %s); out += ctout(r);" % (t, v, at)


def C11(c):
    import random
    g = lambda p, n, **k: (lambda: dedup(gen(c, p, n, 3, "ct", **k)))
    res = par([g("ct", 3), g("ct", 5, exact=True, sim=c.pick(200, 2000), seed=1), g("ctp", 5, exact=True, sim=c.pick(200, 2000), seed=2), g("ctp", 9, exact=True, sim=c.pick(150, 1500), seed=3), g("ct", 9, exact=True, sim=c.pick(100, 1000), seed=4)])
    lim = [c.pick(30, 2000), c.pick(20, 1000), c.pick(20, 1000), c.pick(20, 1000), c.pick(10, 500)]
    rnd = random.Random(c.seed)
    evs, bodies = [], []
    for r, n in zip(res, lim):
        rnd.shuffle(r)
        k = 0
        for j, q in enumerate(r):
            style = ("C", "double", "int", "C")[k % 4]
            try:
                t, const = ct.cpp(q["e"], style)
            except ct.Skip:
                continue
            if const or divzero(q["e"]):
                continue
            k += 1
            for ev, b in ctcalls(q["e"], t, style, len(evs)):
                evs.append(ev)
                bodies.append(b)
            if k >= n:
                break
    log("%d compile-time calls" % len(bodies))
    rt = [i for i, e in enumerate(evs) if e["call"] in RTCALLS]
    cts = [i for i, e in enumerate(evs) if e["call"] not in RTCALLS]
    obs = [None] * len(evs)
    o1, o2 = par([lambda: ct.run_programs(c, "rt", RT_PRELUDE, [bodies[i] for i in rt], tus=2), lambda: ct.run_programs(c, "ct", CT_PRELUDE, [bodies[i] for i in cts], tus=6)])
    for i, o in zip(rt + cts, o1 + o2):
        obs[i] = o
    judge_ct(c, evs, obs, bodies)


def judge_ct(c, evs, obs, bodies):
    cnt = collections.Counter()
    evs = [dict(e, code=b, **dict(o or {"crash": 997})) for e, o, b in zip(evs, obs, bodies) if o is None or "nomem" not in o]
    for mod, sel in (("TraceExpr", [e for e in evs if e["op"] != "print"]), ("TraceText", [e for e in evs if e["op"] == "print"])):
        for e in sel:
            if e["style"] == "C" and constdiv(e["c"]) and "fi" in e:
                e["fi"] = 1                       # the compiler rounds without raising the flag
        verd = validate(c, [{k: v for k, v in e.items() if k not in ("call", "style", "code")} for e in sel], mod, 'CONSTANT UnitMode = "prod"\n')
        for j, e in enumerate(sel):
            v = verd[j]["v"] if j in verd else "ok"
            if v == "rounded" and mod == "TraceExpr":
                n = numeric.judge(e, "prod")
                v = "ok (rounded)" if n == "close" else "vacuous" if n == "na" else "wrong value"
            cnt[v] += 1
            if v not in ("ok", "ok (rounded)", "rounded", "vacuous", "refused"):
                c.reject("%s: %s" % (v, evkey(e)), {"code": e["code"], "r": sh(e["r"]) if isinstance(e.get("r"), dict) else "", "s": "".join(e["s"]) if mod == "TraceText" and "s" in e else ""})
    c.traces += len(evs)
    totals(c, cnt)
    c.samples += [evkey(e) for e in evs[::max(1, len(evs) // 8)]]


def hasdiv(e):
    return e["k"] == "b" and (e["o"] == "/" or hasdiv(e["l"]) or hasdiv(e["r"])) or e["k"] == "u" and hasdiv(e["a"])


def divzero(e):
    return e["k"] == "b" and (e["o"] == "/" and ct.value(e["r"]) == 0 or divzero(e["l"]) or divzero(e["r"])) or e["k"] == "u" and divzero(e["a"])


def constdiv(e):
    """division of constants: done by the compiler in exact rationals, converted to double at compile time"""
    if e["k"] == "u":
        return constdiv(e["a"])
    return e["k"] == "b" and (e["o"] == "/" and ct.value(e) is not None or constdiv(e["l"]) or constdiv(e["r"]))


def evkey(e):
    return "%s of %s (%s)%s" % (e["call"], sh(e["c"]), e["style"], (" | " + sh(e["s"])) if isinstance(e.get("s"), dict) else "")


TAY_PRELUDE = CT_PRELUDE.replace('#include <cstdio>', '#include <stator/symbolic/taylor.hpp>\n#include <cstdio>')
TAYPOINTS = [(0, 1), (1, 1), (-2, 1), (1, 2), (0, 1), (3, 1)]


def C12(c):
    import random
    g = lambda p, n, **k: (lambda: dedup(gen(c, p, n, 3, "ct", **k)))
    res = par([g("tay", 3), g("tay", 5, exact=True, sim=c.pick(200, 2000), seed=1), g("tay", 7, exact=True, sim=c.pick(150, 1500), seed=2), g("ads", 4, exact=True, sim=c.pick(150, 1500), seed=3), g("int", 5, exact=True, sim=c.pick(100, 1000), seed=4), g("int", 1)])
    lim = [c.pick(90, 600), c.pick(70, 600), c.pick(40, 400), c.pick(60, 500), c.pick(60, 600), 100]
    rnd = random.Random(c.seed)
    evs, bodies = [], []
    for m, (r, n) in enumerate(zip(res, lim)):
        rnd.shuffle(r)
        k = 0
        for q in r:
            e = q["e"]
            style = ("C", "C", "double", "int")[k % 4]
            try:
                t, const = ct.cpp(e, style)
            except ct.Skip:
                continue
            if divzero(e) or style == "int" and (hasdiv(e) or ct.has(e, "ln")):      # dividing C++ integers is the user's choice
                continue
            if m >= 4 and not integrable(e):
                continue
            k += 1
            if m >= 4:
                evs.append(dict(op="integ", c=e, x="x", style=style, call="integral"))
                bodies.append(FLAGS + "auto r = integrate(%s, x); out += ctout(r);" % t)
            else:
                p = TAYPOINTS[len(evs) % len(TAYPOINTS)]
                o = rnd.choice((0, 1, 2, 3, 4, 5) if m in (0, 3) else (1, 2, 3))
                while o and ct.series_cost(e, "x", o) > (30 if ct.has(e, "y") else 150):       # what the compiler can stand
                    o -= 1
                if ct.has(e, "y") and o > (1 if ct.has(e, "/") or ct.has(e, "^") else 2):
                    o = 1
                if ct.series_cost(e, "x", o) > 150 or not numeric_ad.defined(e, p[0], p[1], o):
                    k -= 1
                    continue
                astyle = ("C", "double", "C", "int")[len(evs) // 2 % 4]
                evs.append(dict(op="taylor", c=e, x="x", n=p[0], d=p[1], order=o, style=style, at=astyle, call="series %d at %s (%s)" % (o, "%d/%d" % p, astyle)))
                bodies.append(FLAGS + "auto r = sym::taylor_series<%d>(%s, %s, x); out += ctout(r);" % (o, t, ct.const(p[0], p[1], astyle)))
            if k >= n:
                break
    log("%d expansions and integrals" % len(bodies))
    obs = ct.run_programs(c, "tay", TAY_PRELUDE, bodies, per_tu=10)
    evs = [dict(e, code=b, **dict(o or {"crash": 997})) for e, o, b in zip(evs, obs, bodies) if o is None or "nomem" not in o]
    for e in evs:
        if "fi" in e and (e["style"] == "C" or e["op"] == "taylor"):
            e["fi"] = 1                                        # rationals (1/k! among them) are converted by the compiler, which rounds without raising the flag
    verd = validate(c, [{k: v for k, v in e.items() if k not in ("call", "code")} for e in evs], "TraceTaylor", "CONSTANT Nd = 7\n")
    cnt = collections.Counter()
    for j, e in enumerate(evs):
        v = verd[j]["v"] if j in verd else "ok"
        if v in ("rounded", "unknown"):
            if e["op"] == "integ":
                n = numeric.judge(dict(e, op="deriv", c=e["r"], r=e["c"], x={"k": "v", "s": "x"}), "prod")
                n = {"close": "ok"}.get(n, n)
            else:
                n = numeric_ad.taylor(e["c"], e["r"], e["n"], e["d"], e["order"])
            v = "ok (rounded)" if n == "ok" else "vacuous" if n == "na" else "wrong series"
        cnt[v] += 1
        if v not in ("ok", "ok (rounded)", "vacuous", "refused"):
            known = v.startswith("expansion of")
            c.reject(v if known else "%s: %s" % (v, evkey(e)), {"code": e["code"], "r": sh(e["r"]) if "r" in e else ""})
    c.traces += len(evs)
    totals(c, cnt)
    c.samples += [evkey(e) for e in evs[::max(1, len(evs) // 8)]]


def integrable(e):
    """what integrate() is provided for"""
    if e["k"] == "b" and e["o"] in "+-":
        return integrable(e["l"]) and integrable(e["r"]) and not (e["o"] == "-" and ct.value(e["l"]) == 0)     # 0 - f is written -f
    has = lambda f: f.get("s") == "x" or any(has(f[i]) for i in ("l", "r", "a") if i in f)
    return not has(e) or e["k"] == "v" or e["k"] == "b" and e["o"] == "^" and e["l"]["k"] == "v" and value1(e["r"])


def value1(e):
    return e["k"] == "c" and e["d"] == 1 and e["n"] != -1


RAT_PRELUDE = "#include <stator/symbolic/runtime.hpp>\n#include \"rats.hpp\"\n#include <cstdio>\n"


def C10(c):
    def g(mode, sim=None, seed=0):
        t = TLC("GenRat", 'INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "%s"\n' % mode, c.work, simulate=1 if sim else None, depth=sim, seed=c.seed if sim else None, workers=1).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    small, mult, big = par([lambda: g("small"), lambda: g("multiple"), lambda: g("big", c.pick(250, 2000))])
    cmds = sample(c, small, c.pick(250, None)) + sample(c, mult, c.pick(120, None)) + sample(c, big, c.pick(250, 4000))
    lit = lambda t: ("-" if t[0] < 0 else "") + "".join(map(str, t[1:]))
    C = lambda q: "sym::C<%sL,%sL>()" % (lit(q["n"]), lit(q["d"]))
    bodies = []
    for q in cmds:
        a, b = C(q["a"]), C(q["b"])
        azero, bzero = q["a"]["n"][0] == 0, q["b"]["n"][0] == 0
        P = lambda n, e: 'out += ",\\"%s\\":" + jrat(%s);' % (n, e)
        D = lambda n, e: 'out += ",\\"%s\\":" + jbits(%s);' % (n, e)
        body = "auto a = %s; auto b = %s; " % (a, b) + P("add", "a + b") + P("sub", "a - b") + P("mul", "a * b") + ("" if bzero else P("div", "a / b")) + P("neg", "-a") + P("pos", "+a") + P("abs", "abs(a)")
        if not (azero and q["k"] < 0) and len(lit(q["a"]["n"])) * abs(q["k"]) < 18 and len(lit(q["a"]["d"])) * abs(q["k"]) < 18:
            body += P("pow", "pow(a, sym::C<%d>())" % q["k"])
        body += 'out += std::string(",\\"eq\\":") + (a == b ? "1" : "0") + ",\\"same\\":" + (std::is_same<decltype(a), decltype(b)>::value ? "1" : "0");'
        body += D("dbl", "double(a)") + D("arith", "double(sym::toArithmetic(a))") + D("n", "double(sym::N(a))") + D("expr", "sym::Expr(a).as<double>()")
        bodies.append(body)
    obs = ct.run_programs(c, "rat", RAT_PRELUDE, bodies, tus=8)
    events = [dict(o or {"crash": 997}, a=q["a"], b=q["b"], k=q["k"]) for q, o in zip(cmds, obs)]
    verd = validate(c, events, "TraceRat")
    show = lambda q: lit(q["n"]) + "/" + lit(q["d"])
    cnt = collections.Counter()
    for i, q in enumerate(cmds):
        v = verd[i]["v"] if i in verd else []
        cnt["rejected" if v else "ok"] += 1
        for w in v:
            c.reject("%s: %s , %s , %d" % (w, show(q["a"]), show(q["b"]), q["k"]), {"cmd": q, "obs": obs[i]})
    trig(c, cnt)
    c.traces += len(cmds)
    totals(c, cnt)
    c.samples += ["%s and %s, power %d" % (show(q["a"]), show(q["b"]), q["k"]) for q in cmds[::max(1, len(cmds) // 6)]]


def trig(c, cnt):
    """sines and cosines of multiples of pi/2 are exact, factorials are the factorials"""
    ks = [(n, d) for n in list(range(-9, 10)) + [12, 31, -46] for d in (1, 2)]
    bodies = []
    for n, d in ks:
        bodies += ["auto a = sym::C<%d,%d>() * sym::pi(); out += \",\\\"r\\\":\" + jrat(sym::%s(a));" % (n, d, f) for f in ("sin", "cos")]
    evs = [dict(f=f, n=n, d=d) for n, d in ks for f in ("sin", "cos")]
    for k in range(0, 21):
        for f in ("Factorial", "InvFactorial"):
            bodies.append("out += \",\\\"r\\\":\" + jrat(typename sym::%s<%d>::value());" % (f, k))
            evs.append(dict(f=f, n=k, d=1))
    obs = ct.run_programs(c, "trig", RAT_PRELUDE, bodies, tus=2)
    verd = validate(c, [dict(o or {"crash": 997}, **e) for e, o in zip(evs, obs)], "TraceRat", invariant="JudgeTrig")
    for i, e in enumerate(evs):
        v = verd[i]["v"] if i in verd else "ok"
        cnt[v] += 1
        if v != "ok":
            odd = e["f"] == "cos" and (2 * e["n"]) % (2 * e["d"]) == 0 and (e["n"] // e["d"]) % 2
            c.reject("cos of an odd multiple of pi is 1" if odd and v == "wrong value" and obs[i].get("r") == {"n": [1, 1], "d": [1, 1]} else "%s: %s of %d/%d" % (v, e["f"], e["n"], e["d"]), {"obs": obs[i]})


def C09(c):
    import props_syntax
    from props_expr import run_and_judge
    both = lambda op: [lambda n=n, st=st: gen(c, "unit", n, st, op) for n, st in [(c.pick(4, 5), 3)]]
    sim = lambda op, n, st, k, seed: (lambda: gen(c, "unit", n, st, op, exact=True, sim=c.pick(k, 10 * k), seed=seed))
    res = par([both("simplify")[0], both("sub1")[0], lambda: gen(c, "unit", 3, 3, "deriv"), lambda: gen(c, "unit", c.pick(3, 4), 3, "print"),
               sim("simplify", 7, 4, 300, 1), sim("simplify", 11, 4, 300, 2), sim("sub", 8, 4, 200, 3), sim("deriv", 9, 4, 200, 4), sim("print", 9, 4, 200, 5)])
    lim = [c.pick(12000, None), c.pick(6000, None), c.pick(3000, None), c.pick(2000, None)] + [c.pick(2500, 20000)] * 5
    res = [sample(c, dedup(r), n) for r, n in zip(res, lim)]
    cmds = [x for r in res for x in r if x["op"] != "print"]
    texts = [x for r in res for x in r if x["op"] == "print" and printable(x["e"])]
    log("%d calls, %d texts" % (len(cmds), len(texts)))
    cnt = run_and_judge(c, cmds, "prod", "TraceUnits", "JudgeU")
    cnt += run_and_judge(c, [x for x in cmds if x["op"] != "deriv"], "erase", "TraceUnits", "JudgeU")
    cnt += props_syntax.judge(c, texts)
    ctunits(c, cnt, res)
    totals(c, cnt)
    c.samples += [sh(x["e"]) for x in cmds[::max(1, len(cmds) // 8)]]


def ctunits(c, cnt, res):
    """the same on compile-time quantities"""
    import random
    pool = [x["e"] for r in (res[0], res[4]) for x in r if ct.has(x["e"], "units")]
    random.Random(c.seed).shuffle(pool)
    evs, bodies = [], []
    for e in pool:
        style = ("C", "double", "int")[len(evs) // 2 % 3]
        try:
            t, const = ct.cpp(e, style)
        except ct.Skip:
            continue
        if const or divzero(e) or style == "int" and hasdiv(e):
            continue
        evs += [dict(op="simplify", c=e, style=style, call="written"), dict(op="build", c=e, style=style, call="Expr")]
        bodies += [FLAGS + "auto r = %s; out += ctout(r);" % t, FLAGS + "sym::Expr r(%s); out += rtout(r);" % t]
        if len(evs) >= c.pick(120, 1200):
            break
    obs = ct.run_programs(c, "units", "static constexpr char NM[] = \"m\", NS[] = \"s\";\n" + RT_PRELUDE + "static const sym::Var<NM> m; static const sym::Var<NS> s;\n", bodies, tus=4)
    evs = [dict(e, code=b, **dict(o or {"crash": 997})) for e, o, b in zip(evs, obs, bodies) if o is None or "nomem" not in o]
    for unit in ("prod", "erase"):
        verd = validate(c, [{k: v for k, v in e.items() if k not in ("call", "style", "code")} for e in evs], "TraceExpr", 'CONSTANT UnitMode = "%s"\n' % unit)
        for j, e in enumerate(evs):
            v = verd[j]["v"] if j in verd else "ok"
            if v == "rounded" or v == "wrong value" and e["style"] == "C":
                n = numeric.judge(e, unit)
                v = "ok (rounded)" if n == "close" else "vacuous" if n == "na" else "wrong value"
            cnt[v] += 1
            if v not in ("ok", "ok (rounded)", "vacuous", "refused", "error"):
                c.reject("%s: %s (units %s)" % (v, evkey(e), unit), {"code": e["code"], "r": sh(e["r"]) if isinstance(e.get("r"), dict) else ""})
    c.traces += len(evs)
    c.notes["compile_time_programs"] = len(evs)


IV_PRELUDE = r'''#include <stator/symbolic/interval.hpp>
#include <stator/symbolic/polynomial.hpp>
#include <stator/exception.hpp>
#include "rats.hpp"
#include <cstdio>
#include <vector>
using namespace sym;
static constexpr char X_[] = "x";
static const Var<X_> x;
inline std::string jbound(double d) {
  if (std::isnan(d)) return "{\"nan\":1}";
  if (std::isinf(d)) return std::string("{\"inf\":") + (d < 0 ? "-1}" : "1}");
  return jbits(d);
}
inline std::string jiv(const interval<double>& r) { return ",\"lo\":" + jbound(r.lower()) + ",\"hi\":" + jbound(r.upper()); }
template<class T> std::string jiv(const T& r) { std::string b = jbound(double(r)); return ",\"lo\":" + b + ",\"hi\":" + b + ",\"const\":1"; }
template<class F> void over(std::string& out, const F& f) {
  out += ",\"r\":[";
  for (int i = 0; i < NIV; ++i) {
    interval<double> iv(std::ldexp(IVS[i][0], IVS[i][2]), std::ldexp(IVS[i][1], IVS[i][2]));
    if (i) out += ",";
    out += "{\"i\":" + std::to_string(i + 1);
    try { out += jiv(sub(f, x = iv)); } catch (std::exception& e) { out += ",\"exc\":1"; }
    out += "}";
  }
  out += "]";
}
'''


def C24(c):
    import random

    def g(inv, n, exact=False, sim=None, seed=0):
        return lambda: dedup(gen(c, "iv", n, 3, "iv", exact=exact, sim=sim, seed=seed, module="GenIv", inv=inv))
    tab, poly, small, mid, big, huge = par([g("ReportTable", 0), g("ReportPoly", 0), g("ReportIv", c.pick(4, 5)), g("ReportIv", 5, True, c.pick(300, 3000), 1), g("ReportIv", 8, True, c.pick(200, 2000), 2), g("ReportIv", 11, True, c.pick(150, 1500), 3)])
    ivs = tab[0]["t"]
    rnd = random.Random(c.seed)
    evs, bodies = [], []

    def dyadic(e):
        return e["d"] & (e["d"] - 1) == 0 if e["k"] == "c" else all(dyadic(e[f]) for f in ("a", "l", "r") if f in e)
    for r, n in ((small, c.pick(120, 3000)), (mid, c.pick(50, 1500)), (big, c.pick(40, 1500)), (huge, c.pick(25, 1000))):
        rnd.shuffle(r)
        k = 0
        for q in r:
            style = ("C", "double")[k % 2]
            if style == "double" and not dyadic(q["e"]):
                continue
            try:
                t, const = ct.cpp(q["e"], style)
            except ct.Skip:
                continue
            evs.append(dict(op=q["op"], e=q["e"], style=style))
            bodies.append("over(out, %s);" % (t if q["op"] == "sub" else "sym::derivative(%s, x)" % t))
            k += 1
            if k >= n:
                break
    for q in sample(c, poly, c.pick(50, None)):
        evs.append(dict(op="sub", e=q["e"], style="polynomial"))
        bodies.append("over(out, sym::Polynomial<%d>{%s});" % (len(q["cs"]) - 1, ",".join(repr(z["n"] / z["d"]) for z in q["cs"])))
    table = "#include <cmath>\nstatic const int NIV = %d;\nstatic const int IVS[][3] = {%s};\n" % (len(ivs), ",".join("{%d,%d,%d}" % tuple(t) for t in ivs))
    log("%d expressions on %d intervals" % (len(evs), len(ivs)))
    obs = ct.run_programs(c, "iv", table + IV_PRELUDE, bodies, tus=NCPU)
    events, src = [], []
    for j, (e, o) in enumerate(zip(evs, obs)):
        for r in (o or {"crash": 997}).get("r", [dict(o or {"crash": 997}, i=1)]):
            events.append(dict(r, op=e["op"], e=e["e"]))
            src.append(j)
    verd = validate(c, events, "TraceIv")
    cnt = collections.Counter()
    for k, ev in enumerate(events):
        v = verd[k]["v"] if k in verd else "ok"
        cnt[v] += 1
        if v not in ("ok", "vacuous"):
            e = evs[src[k]]
            c.reject("%s: %s%s (%s) on [%d,%d]*2^%d" % ((v, "d/dx " if e["op"] == "deriv" else "", sh(e["e"]), e["style"]) + tuple(ivs[ev["i"] - 1])), {"code": bodies[src[k]], "obs": {f: ev[f] for f in ("lo", "hi", "exc", "crash") if f in ev}})
    c.traces += len(events)
    totals(c, cnt)
    c.samples += ["%s%s (%s)" % ("d/dx " if e["op"] == "deriv" else "", sh(e["e"]), e["style"]) for e in evs[::max(1, len(evs) // 8)]]


TOOLS_PRELUDE = r'''#include <cstddef>
#include <stator/exception.hpp>
#include <stator/orphan/static_list.hpp>
#include <stator/orphan/template_config.hpp>
#include <string>
#include <type_traits>
#include <cstdio>
using namespace stator::orphan;
template <class T, T... V> std::string raw(static_list<T, V...>) { std::string s = "["; bool f = true; (void)std::initializer_list<int>{0, (s += (f ? "" : ",") + std::to_string((long)V), f = false, 0)...}; return s + "]"; }
template <class L, size_t I, size_t N> struct Items { static std::string all() { return (I ? "," : "") + std::to_string((long)get_static_list_item<L, I>::value) + Items<L, I + 1, N>::all(); } };
template <class L, size_t N> struct Items<L, N, N> { static std::string all() { return ""; } };
struct Visit { template <class T> void operator()(T v, std::string& s, long& sum) { s += (s.empty() ? "" : ",") + std::to_string((long)v); sum += (long)v; } };
template <class L> std::string seen() {
  std::string f; long sum = 0; static_foreach<L>()(Visit(), f, sum);
  return "{\"l\":" + raw(L()) + ",\"n\":" + std::to_string(static_list_size<L>::value) + ",\"g\":[" + Items<L, 0, static_list_size<L>::value>::all() + "],\"f\":[" + f + "],\"sum\":" + std::to_string(sum) + "}"; }
struct IdA; struct IdB; struct IdC;
template <int N> struct ValA : value_conf_t<IdA, int, N> {}; template <int N> struct ValB : value_conf_t<IdB, int, N> {}; template <int N> struct ValC : value_conf_t<IdC, int, N> {};
template <int N> using Num = std::integral_constant<int, N>;
template <int N> struct TypA : type_conf_t<IdA, Num<N>> {}; template <int N> struct TypB : type_conf_t<IdB, Num<N>> {}; template <int N> struct TypC : type_conf_t<IdC, Num<N>> {};
template <int N> struct With { template <class T> struct type { static constexpr int value = N + T::value; }; };
template <int N> struct TmpA : template_type_conf_t<IdA, With<N>::template type> {}; template <int N> struct TmpB : template_type_conf_t<IdB, With<N>::template type> {}; template <int N> struct TmpC : template_type_conf_t<IdC, With<N>::template type> {};
static std::string three(int a, int b, int c) { return "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]"; }
static std::string tf(bool b) { return b ? "true" : "false"; }
'''


def C26(c):
    import props_num
    def one(mode, n, rich, sim, seed):
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = "%s"\n Len0 = %d\n Rich = %s\n' % (mode, n, str(rich).upper())
        t = TLC("GenTools", cfg, c.work, simulate=sim, depth=n + 2 if sim else None, seed=c.seed * 1000 + 170 + seed if sim else None, workers=1 if sim else NCPU).require_ok()
        c.add_tlc(t)
        return dedup(t.emitted)
    k = c.pick(1, 6)
    jobs = [("list", 1, False, None), ("list", 2, False, None), ("list", 7, True, 60 * k), ("option", 3, False, None), ("option", 6, True, 40 * k), ("error", c.pick(4, 6), False, None), ("error", 12, True, 400 * k),
            ("text", c.pick(4, 6), False, None), ("swap", 20, True, 60 * k)]
    res = par([lambda j=j, q=q: one(*q, j) for j, q in enumerate(jobs)])
    lists = dedup([q for j, r in zip(jobs, res) if j[0] == "list" for q in sample(c, r, c.pick(120, 1500))])
    opts = dedup([q for j, r in zip(jobs, res) if j[0] == "option" for q in sample(c, r, c.pick(80, 600))])
    for q in [q for q in lists if not isinstance(q["s"], list)]:
        q["s"] = []
    bodies = []
    types = ["int", "long", "unsigned", "unsigned char", "short"]
    for i, q in enumerate(lists):
        T = types[i % len(types)]
        L = lambda l: "make_static_list<%s>::type" % ", ".join([T] + [str(x) for x in l])
        s = "typedef %s l0; out += \",\\\"r\\\":[\" + seen<l0>();" % L(q["s"])
        for n, a in enumerate(q["h"]):
            p = "l%d" % n
            e = {"rev": lambda: "reverse_static_list<%s>::type" % p, "rep": lambda: "replace_static_list_item<%s, %s, %d, %d>::type" % (T, p, a["i"], a["v"]), "app": lambda: "append_static_list_item<%s, %s, %d>::type" % (T, p, a["v"]),
                 "pre": lambda: "prepend_static_list_item<%s, %s, %d>::type" % (T, p, a["v"]), "merge": lambda: "merge_static_lists<%s, %s>::type" % (p, L(a["l"])), "premerge": lambda: "merge_static_lists<%s, %s>::type" % (L(a["l"]), p),
                 "head": lambda: "split_static_list<%s, %d>::first" % (p, a["i"]), "tail": lambda: "split_static_list<%s, %d>::second" % (p, a["i"])}[a["a"]]()
            s += "\ntypedef %s l%d; out += \",\" + seen<l%d>();" % (e, n + 1, n + 1)
        bodies.append(s + ' out += "]";')
    for q in opts:
        G = lambda k: "".join(", %s%s<%d>" % (k, i, v) for i, v in q["o"])
        defs = (("A", -7), ("B", 20), ("C", 0))
        body = 'out += ",\\"val\\":" + three(%s);' % ", ".join("get_value<Val%s<%d>%s>::value" % (i, d, G("Val")) for i, d in defs)
        body += '\nout += ",\\"typ\\":" + three(%s);' % ", ".join("get_type<Typ%s<%d>%s>::value::value" % (i, d, G("Typ")) for i, d in defs)
        body += '\nout += ",\\"tmpl\\":" + three(%s);' % ", ".join("get_template_type<Tmp%s<%d>%s>::template value<Num<100>>::value - 100" % (i, d, G("Tmp")) for i, d in defs)
        body += '\nout += ",\\"here\\":[" + %s + "]";' % ' + "," + '.join("tf(is_present<Val%s<%d>%s>::value)" % (i, d, G("Val")) for i, d in (("A", 2), ("B", 5), ("C", 0)))
        body += '\nout += ",\\"ok\\":[" + %s + "]";' % ' + "," + '.join("tf(is_valid<tmp_list<%s>%s>::value)" % (", ".join("Id" + i for i in ids), G("Val")) for ids in ("", "A", "BA", "CB", "ABC"))
        bodies.append(body)
    cmds = lists + opts
    obs = ct.run_programs(c, "tools", TOOLS_PRELUDE, bodies, tus=8)
    ev = [dict({k: v for k, v in (o or {"crash": 997}).items()}, **q) for q, o in zip(cmds, obs)]
    verd = validate(c, ev, "TraceTools")
    for i, v in sorted(verd.items()):
        c.reject("%s: %s" % (v["v"], json.dumps(cmds[i], sort_keys=True)), {"cmd": cmds[i], "obs": obs[i]})
    c.traces += len(ev)
    texts = dedup([q for j, r in zip(jobs, res) if j[0] in ("error", "text", "swap") for q in sample(c, r, c.pick(1500, 20000))])
    props_num.simple(c, texts, "toolsd.cpp", "TraceTools", lambda q: json.dumps(q, sort_keys=True))
    c.notes["compiled"] = len(cmds)
