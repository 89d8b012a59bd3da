"""Rounding arbiter for series: the coefficients in 60-digit arithmetic, by Taylor sums, with a majorant that says how much
rounding may be amplified."""
import sys
try:
    import mpmath
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import mpmath
mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
mp.dps = 60
F = mp.mpf


class Und(Exception):
    pass


class S:
    """value coefficients v and majorant coefficients m"""
    def __init__(s, v, m=None):
        s.v, s.m = v, m if m is not None else [abs(x) for x in v]


def conv(a, b):
    return [sum((a[i] * b[k - i] for i in range(k + 1)), F(0)) for k in range(len(a))]


def mul(a, b):
    return S(conv(a.v, b.v), conv(a.m, b.m))


def add(a, b, sg=1):
    return S([x + sg * y for x, y in zip(a.v, b.v)], [x + y for x, y in zip(a.m, b.m)])


def scale(c, a, cm=None):
    return S([c * x for x in a.v], [(abs(c) if cm is None else cm) * x for x in a.m])


def compose(co, a, cm=None):
    """sum co[m] h^m, h = a without its constant term"""
    n = len(a.v)
    h = S([F(0)] + a.v[1:], [F(0)] + a.m[1:])
    r = S([F(0)] * n)
    p = S([F(1)] + [F(0)] * (n - 1))
    for m in range(n):
        r = add(r, scale(co[m], p, cm[m] if cm else None))
        p = mul(p, h)
    return r


def ser(e, x, x0, n):
    k = e["k"]
    if k == "c":
        c = F(e["n"]) / e["d"]
        return S([c] + [F(0)] * n)
    if k == "v":
        if e["s"] != x:
            raise Und()
        return S(([x0, F(1)] + [F(0)] * n)[:n + 1])
    fact = [mp.factorial(m) for m in range(n + 1)]
    if k == "u":
        a = ser(e["a"], x, x0, n)
        o, g = e["o"], a.v[0]
        if o == "neg":
            return scale(F(-1), a)
        if o in ("exp", "sin", "cos") and abs(g) > 300:
            raise Und()
        amp = 1 + a.m[0]                                   # how the argument's rounding shows in the value
        if o == "exp":
            E = mp.exp(g)
            return compose([E / f for f in fact], a, [E / f * amp for f in fact])
        if o in ("sin", "cos"):
            ph = {"sin": 0, "cos": 1}[o]
            cyc = [mp.sin(g), mp.cos(g), -mp.sin(g), -mp.cos(g)]
            return compose([cyc[(m + ph) % 4] / fact[m] for m in range(n + 1)], a, [amp / fact[m] for m in range(n + 1)])
        if o == "ln":
            if g <= 0:
                raise Und()
            rel = a.m[0] / g
            co = [mp.log(g)] + [F((-1) ** (m + 1)) / m / g ** m for m in range(1, n + 1)]
            return compose(co, a, [(abs(c) + rel) * rel for c in co])
        raise Und()
    a = ser(e["l"], x, x0, n)
    o = e["o"]
    if o == "^" and e["r"]["k"] == "c":
        p = F(e["r"]["n"]) / e["r"]["d"]
        g = a.v[0]
        if p == int(p) and 0 <= p <= 64:
            r = S([F(1)] + [F(0)] * n)
            for _ in range(int(p)):
                r = mul(r, a)
            if g:
                q = a.m[0] / abs(g)                        # the library divides by the base
                r.m = [x * q ** 2 * (1 + abs(g) ** -k) for k, x in enumerate(r.m)]
            return r
        if g == 0 or (g < 0 and p != int(p)):
            raise Und()
        G = g ** p if g > 0 else (-1) ** int(p) * (-g) ** p
        rel = a.m[0] / abs(g)
        co = [G * mp.binomial(p, m) / g ** m for m in range(n + 1)]
        return compose(co, a, [(abs(c) + abs(G)) * rel ** 2 * (1 + abs(p)) for c in co])
    b = ser(e["r"], x, x0, n)
    if o == "+":
        return add(a, b)
    if o == "-":
        return add(a, b, -1)
    if o == "*":
        return mul(a, b)
    if o == "/":
        g = b.v[0]
        if g == 0:
            raise Und()
        rel = b.m[0] / abs(g)
        return mul(a, compose([F((-1) ** m) / g ** (m + 1) for m in range(n + 1)], b, [rel ** 2 / abs(g) ** (m + 1) for m in range(n + 1)]))
    if o == "^":
        if a.v[0] <= 0:
            raise Und()
        L = {"k": "u", "o": "exp", "a": {"k": "b", "o": "*", "l": e["r"], "r": {"k": "u", "o": "ln", "a": e["l"]}}}
        return ser(L, x, x0, n)
    raise Und()


def judge(e, x, num, den, vals):
    """ok / wrong / na"""
    try:
        s = ser(e, x, F(num) / den, len(vals) - 1)
    except (Und, OverflowError, ZeroDivisionError):
        return "na"
    some = False
    for k, t in enumerate(vals):
        g = float(t)
        want, m = s.v[k], max(abs(s.v[k]), s.m[k])
        if m > F(10) ** 250 or (m and m < F(10) ** -250):
            continue
        if m > abs(want) * 10 ** 9 and m > 10 ** 9:
            continue                                       # rounding may swamp the coefficient
        if g != g or g in (float("inf"), float("-inf")):
            return "wrong"
        if abs(F(g) - want) > m * F(10) ** -9 + F(10) ** -280:
            return "wrong"
        some = True
    return "ok" if some else "na"


def pin(e, x, y):
    if e["k"] == "v":
        return e if e["s"] == x else {"k": "c", "n": y, "d": 1}
    if e["k"] == "u":
        return dict(e, a=pin(e["a"], x, y))
    if e["k"] == "b":
        return dict(e, l=pin(e["l"], x, y), r=pin(e["r"], x, y))
    return e


def num(e):
    """constants of a result: the exact value of the double that was printed"""
    if e["k"] == "c" and "x" in e:
        from fractions import Fraction
        q = Fraction(float(e["x"]))
        return {"k": "c", "n": q.numerator, "d": q.denominator}
    return {k: num(v) if isinstance(v, dict) else v for k, v in e.items()}


def defined(c, n, d, order):
    try:
        ser(pin(c, "x", 3), "x", F(n) / d, order)
        return True
    except (Und, OverflowError, ZeroDivisionError):
        return False


def taylor(c, r, n, d, order):
    """does r agree with the series of c at n/d up to order, and vanish beyond: ok / wrong / na"""
    some = False
    for y in (3, 10):
        try:
            s = ser(pin(c, "x", y), "x", F(n) / d, order)
            t = ser(pin(num(r), "x", y), "x", F(n) / d, order + 3)
        except (Und, OverflowError, ZeroDivisionError, KeyError):
            continue
        for k in range(order + 4):
            want, m = (s.v[k], s.m[k]) if k <= order else (F(0), F(0))
            m = max(abs(want), m, t.m[k])
            if m > F(10) ** 250 or m > abs(want) * 10 ** 9 and m > 10 ** 9:
                continue
            if abs(t.v[k] - want) > m * F(10) ** -9 + F(10) ** -280:
                return "wrong"
            some = True
    return "ok" if some else "na"
