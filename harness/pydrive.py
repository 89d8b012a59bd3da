#!/usr/bin/python3
# C22: executes commands on the Python package and records what came back.  Usage: pydrive.py in out skip
import sys, json, os, ctypes
sys.path.insert(0, os.environ["STATOR_PY"])
from fractions import Fraction
from stator import *
PF = 10007
libm = ctypes.CDLL("libm.so.6")
ALL, BAD = 0x3d, 0x20 | 0x08 | 0x01          # x86: inexact, overflow, invalid


def res(v):
    f = Fraction(v)
    return f.numerator % PF * pow(f.denominator, PF - 2, PF) % PF


def num(e, st):
    n, d = e["n"], e["d"]
    v = n / d if d != 1 or st == 2 else n
    return v


def wrap(v):
    return v if isinstance(v, Expr) else Expr(v)


def build(e, st):
    """a tree through the operators of the package; numbers stay Python numbers where the language allows it"""
    k = e["k"]
    if k == "c":
        v = num(e, st)
        return Expr(v) if st == 1 else v
    if k == "v":
        return Expr(e["s"])
    if k == "arr":
        return Expr([build(x, st) if not isinstance(build(x, st), list) else wrap(build(x, st)) for x in e["x"]])
    if k == "dict":
        return Expr({Expr(p[0]["s"]): build(p[1], st) for p in e["m"]})
    if k == "u":
        a = build(e["a"], st)
        if e["o"] == "neg":
            return 0 - wrap(a)
        return sub(Expr(e["o"] + "(q)"), {Expr("q"): wrap(a)})
    l, r = build(e["l"], st), build(e["r"], st)
    o = e["o"]
    if o == "^":
        return sub(Expr("p^q"), {Expr("p"): wrap(l), Expr("q"): wrap(r)})
    if o == "=":
        return wrap(l).equal(r)
    if not isinstance(l, Expr) and not isinstance(r, Expr):
        if st == 3 or isinstance(r, (list, dict)):
            r = wrap(r)
        else:
            l = wrap(l)
    if isinstance(l, (list, dict)):
        l = wrap(l)
    if isinstance(r, (list, dict)):
        r = wrap(r)
    return l + r if o == "+" else l - r if o == "-" else l * r if o == "*" else l / r


def view(v):
    if isinstance(v, bool):
        return {"k": "bool"}
    if isinstance(v, (int, float)):
        if v != v or v in (float("inf"), float("-inf")):
            return {"k": "nan"}
        return {"k": "c", "r": res(v)}
    if isinstance(v, list):
        return {"k": "arr", "x": [view(x) for x in v]}
    if isinstance(v, dict):
        return {"k": "dict", "m": [[view(a), view(b)] for a, b in v.items()]}
    if isinstance(v, Expr):
        s = str(v)
        if repr(v) != "Expr('" + s + "')":
            return {"k": "badrepr"}
        return {"k": "txt", "t": chars(s)}
    return {"k": "other"}


def chars(s):
    return ["+-" if c == "\u00b1" else c for c in s]


class Err:
    pass


def run(q):
    out = {}
    op = q["op"]
    try:
        libm.feclearexcept(ALL)
        if op == "simplify":
            v = build(q["e"], q["st"])
            if q.get("how") == 1:
                v = simplify(wrap(v))
            elif q.get("how") == 2:
                v = wrap(v).simplify()
            elif q.get("how") == 3:
                v = wrap(v).to_python()
            fi = libm.fetestexcept(BAD)
            out["r"] = view(v)
        elif op == "deriv":
            v = derivative(wrap(build(q["e"], q["st"])), Expr(q["x"]["s"]))
            fi = libm.fetestexcept(BAD)
            out["r"] = view(v)
        elif op == "sub":
            e = wrap(build(q["e"], q["st"]))
            s = q["s"]
            if s["k"] == "dict":
                d = {Expr(p[0]["s"]): (lambda b: wrap(b) if isinstance(b, (list, dict)) else b)(build(p[1], q["st"])) for p in s["m"]}
                v = sub(e, d if q["st"] != 1 else Expr(d))
            else:
                v = sub(e, Expr(s["l"]["s"]).equal(wrap(build(s["r"], q["st"]))))
            fi = libm.fetestexcept(BAD)
            out["r"] = view(v)
        elif op == "text":
            v = Expr("".join("\u00b1" if c == "+-" else c for c in q["t"]))
            fi = libm.fetestexcept(BAD)
            out["r"] = view(v)
        elif op == "eq":
            a, b = build(q["a"], q["st"]), build(q["b"], q["st"])
            if not isinstance(a, Expr) or q["st"] == 1:
                a = wrap(a)
            if isinstance(b, (list, dict)) or q["st"] == 1:
                b = wrap(b)
            fi = libm.fetestexcept(BAD)
            out["a"], out["b"] = view(a), view(b)
            out["ab"], out["ba"], out["ne"] = int(a == b), int(b == a), int(a != b)
            out["hh"] = int(hash(a) == hash(b)) if isinstance(b, Expr) else -1
            out["set"] = len({a, b}) if isinstance(b, Expr) else -1
            out["st1"] = int(hash(a) == hash(a))
        elif op == "misuse":
            e = Expr("x+y*2")
            w = q["w"]
            bad = {"none": None, "str": "x", "obj": object(), "set": {1}, "cplx": 1j, "bytes": b"x", "list": [1], "dict": {}}[q["z"]]
            if w == "add": v = e + bad
            elif w == "radd": v = bad + e
            elif w == "sub": v = e - bad
            elif w == "rsub": v = bad - e
            elif w == "mul": v = e * bad
            elif w == "rdiv": v = bad / e
            elif w == "deriv": v = derivative(e, bad)
            elif w == "derivof": v = derivative(bad, e)
            elif w == "derivx": v = derivative(e, Expr("x+1") if q["z"] == "none" else Expr(2) if q["z"] == "obj" else bad)
            elif w == "sub1": v = sub(e, bad) if q["z"] not in ("dict",) else sub(e, Expr("x"))
            elif w == "sub2": v = sub(e, {bad: 1} if q["z"] not in ("list", "dict", "set") else {Expr("x"): bad})
            elif w == "make": v = Expr(bad) if q["z"] not in ("list", "dict", "str") else Expr([object()]) if q["z"] == "list" else Expr({Expr("x"): object()}) if q["z"] == "dict" else Expr("x +")
            elif w == "simp": v = simplify(bad)
            elif w == "eqobj":
                # comparing with something else is allowed and false
                out["r"] = {"k": "bool"}
                out["same"] = int(e == bad) + int(bad == e) + int(not (e != bad))
                return out
            fi = 0
            out["r"] = view(v)
        out["fi"] = int(fi != 0)
    except Exception as x:
        out = {"exc": type(x).__name__, "what": str(x)[:200]}
    return out


def main():
    inp, outp, skip = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0
    with open(outp, "a") as f:
        for i, line in enumerate(open(inp)):
            if i < skip:
                continue
            o = run(json.loads(line))
            o["i"] = i
            f.write(json.dumps(o) + "\n")
            f.flush()


main()
