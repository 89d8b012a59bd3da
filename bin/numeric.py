"""Rounding arbiter: when the specification's exact comparison fails *and* the library raised the floating-point
inexact flag, the two sides are compared in floating point (with derivatives carried as dual numbers)."""
import json, math, itertools

NAN = float("nan")


class D:
    __slots__ = ("v", "d")

    def __init__(s, v, d=0.0):
        s.v, s.d = v, d


class Arr(list):
    pass


class Bad(Exception):
    pass


def _num(c):
    if "x" in c:
        return float(c["x"])
    return c["n"] / c["d"]


def _pow(a, b):
    try:
        v = a.v ** b.v
        if isinstance(v, complex):
            return D(NAN, NAN)
    except ZeroDivisionError:
        return D(NAN, NAN)
    d = 0.0
    try:
        if a.d:
            d += b.v * a.d * a.v ** (b.v - 1)
        if b.d:
            d += b.d * math.log(a.v) * v
    except (ValueError, ZeroDivisionError):
        d = NAN
    if isinstance(d, complex):
        d = NAN
    return D(v, d)


def _un(o, a):
    if isinstance(a, Arr):
        return Arr(_un(o, x) for x in a)
    if not isinstance(a, D):
        raise Bad()
    v, d = a.v, a.d
    if o == "neg":
        return D(-v, -d)
    if o == "sin":
        return D(math.sin(v), d * math.cos(v))
    if o == "cos":
        return D(math.cos(v), -d * math.sin(v))
    if o == "exp":
        return D(math.exp(v), d * math.exp(v))
    if o == "ln":
        if not v > 0:
            return D(NAN, NAN)
        return D(math.log(v), d / v)
    if o == "abs":
        return D(abs(v), d * (1 if v > 0 else -1) if v else (0.0 if d == 0 else NAN))
    if o == "arb":
        return a
    raise Bad()


def _bin(o, a, b, um):
    if o == "=":
        return ("=", a, b)
    if o == "units" and um == "erase":
        return a
    if o == "idx":
        if isinstance(a, Arr) and isinstance(b, D) and b.v == int(b.v) and 0 <= b.v < len(a):
            return a[int(b.v)]
        raise Bad()
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a) != len(b):
            raise Bad()
        return Arr(_bin(o, x, y, um) for x, y in zip(a, b))
    if isinstance(a, Arr):
        return Arr(_bin(o, x, b, um) for x in a)
    if isinstance(b, Arr):
        return Arr(_bin(o, a, x, um) for x in b)
    if not (isinstance(a, D) and isinstance(b, D)):
        raise Bad()
    if o == "+":
        return D(a.v + b.v, a.d + b.d)
    if o == "-":
        return D(a.v - b.v, a.d - b.d)
    if o in ("*", "units"):
        return D(a.v * b.v, a.d * b.v + a.v * b.d)
    if o == "/":
        if b.v == 0:
            return D(NAN, NAN)
        q = a.v / b.v
        return D(q, (a.d - q * b.d) / b.v)
    if o == "^":
        return _pow(a, b)
    if o == "unc":
        return D(a.v + 0.37 * b.v, a.d)
    raise Bad()


def ev(e, env, um):
    k = e["k"]
    if k == "c":
        return D(_num(e))
    if k == "v":
        return env[e["s"]]
    if k == "u":
        return _un(e["o"], ev(e["a"], env, um))
    if k == "b":
        return _bin(e["o"], ev(e["l"], env, um), ev(e["r"], env, um), um)
    if k == "arr":
        return Arr(ev(x, env, um) for x in e["x"])
    if k == "dict":
        return ("d", sorted((m[0].get("s", ""), ev(m[1], env, um)) for m in e["m"]))
    return D(NAN, NAN)


def _cmp(mode, v, w, scale=1e-6):
    """True / False / None (not comparable)"""
    if isinstance(v, D):
        want = v.v if mode == "m" else v.d
        if not math.isfinite(want) or not math.isfinite(v.v):
            return None
        if not isinstance(w, D):
            return False
        if not math.isfinite(w.v):
            return None if math.isnan(w.v) else False
        return abs(w.v - want) <= scale * max(1.0, abs(want))
    if isinstance(v, Arr):
        if isinstance(w, D):
            r = [_cmp(mode, x, w) for x in v]
        elif isinstance(w, Arr) and len(v) == len(w):
            r = [_cmp(mode, x, y) for x, y in zip(v, w)]
        else:
            return False
    elif isinstance(v, tuple) and v[0] == "=":
        if not (isinstance(w, tuple) and w[0] == "="):
            return False
        r = [_cmp(mode, v[1], w[1]), _cmp(mode, v[2], w[2])]
    elif isinstance(v, tuple):
        if not (isinstance(w, tuple) and len(v[1]) == len(w[1])):
            return False
        r = [_cmp(mode, x[1], y[1]) if x[0] == y[0] else False for x, y in zip(v[1], w[1])]
    else:
        return None
    if any(x is False for x in r):
        return False
    return True if r and all(r) else None


PTS = [dict(x=0.7, y=1.3, z=0.4, w=2.1, a=0.9, b=1.7, m=0.6, s=1.1),
       dict(x=1.9, y=0.55, z=1.2, w=0.35, a=1.45, b=0.8, m=2.2, s=0.9),
       dict(x=0.31, y=2.3, z=2.6, w=1.05, a=0.2, b=0.5, m=1.4, s=1.8)]


def pairs(s):
    return [(m[0]["s"], m[1]) for m in s["m"]] if s["k"] == "dict" else [(s["l"]["s"], s["r"])]


SIGNED = [dict(x=-1.3, y=3.0, z=-0.6, w=2.0, a=-1.2, b=3.0, m=1.5, s=-2.0),
          dict(x=3.0, y=-1.4, z=2.0, w=-0.7, a=2.0, b=-0.8, m=-1.0, s=1.5)]


def variable_power(e):
    """does e hold a power whose exponent holds a variable?"""
    if isinstance(e, dict):
        if e.get("k") == "b" and e.get("o") == "^" and '"k": "v"' in json.dumps(e["r"]):
            return True
        return any(variable_power(x) for x in e.values())
    return isinstance(e, list) and any(variable_power(x) for x in e)


def judge(evn, um, pts=PTS):
    """'close' when some comparison was possible and none failed, 'far' when one failed, 'na' otherwise."""
    res = []
    for p in pts:
        try:
            rho = {n: D(v) for n, v in p.items()}
            env = dict(rho)
            mode = "m"
            if evn["op"] == "sub":
                for n, f in pairs(evn["s"]):
                    env[n] = ev(f, rho, um)
            if evn["op"] == "deriv":
                mode = "d"
                env[evn["x"]["s"]] = D(p[evn["x"]["s"]], 1.0)
            res.append(_cmp(mode, ev(evn["c"], env, um), ev(evn["r"], rho, um)))
        except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
            res.append(None)
    if any(r is False for r in res):
        return "far"
    return "close" if any(res) else "na"
