"""Compile-time side: the specification's expressions written out as C++ programs over the library's types."""
import os, json
from vlib import *


class Skip(Exception):
    """the library has no such compile-time operation"""


FN = {"sin": "sym::sin", "cos": "sym::cos", "exp": "sym::exp", "ln": "sym::log", "abs": "sym::abs", "arb": "sym::arbsign"}


def const(n, d, style):
    if style == "C":
        return "sym::C<%d>()" % n if d == 1 else "sym::C<%d,%d>()" % (n, d)
    if style == "int" and d == 1:
        return str(n) if n >= 0 else "(%d)" % n
    return repr(n / d) if n >= 0 else "(%r)" % (n / d)


def cpp(e, style):
    """C++ text of an expression and whether it is a constant; style: how numbers are written"""
    k = e["k"]
    if k == "c":
        return const(e["n"], e["d"], style), True
    if k == "v":
        return e["s"], False
    if k == "u":
        a, c = cpp(e["a"], style)
        if e["o"] == "neg":
            if c and style == "C":
                return "(-%s)" % a, True
            return "(-%s)" % a, c
        if c:
            raise Skip()
        return "%s(%s)" % (FN[e["o"]], a), False
    if k == "b":
        o = e["o"]
        l, cl = cpp(e["l"], style)
        r, cr = cpp(e["r"], style)
        if cl and cr and o not in ("units", "unc"):
            if style != "C" or o == "^":
                raise Skip()
            if o == "/" and value(e["r"]) in (0, None):
                raise Skip()
        if o in ("units", "unc"):
            return "sym::%s(%s, %s)" % ({"units": "units", "unc": "uncertainty"}[o], l, r), False
        if o == "^":
            return "sym::pow(%s, %s)" % (l, r), False
        if o in "+-*/":
            return "(%s%s%s)" % (l, o, r), cl and cr
    raise Skip()


def value(e):
    from fractions import Fraction as F
    try:
        if e["k"] == "c":
            return F(e["n"], e["d"])
        if e["k"] == "u" and e["o"] == "neg":
            return -value(e["a"])
        if e["k"] == "b":
            a, b = value(e["l"]), value(e["r"])
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[e["o"]]()
    except (ZeroDivisionError, KeyError, TypeError):
        pass
    return None


def size(e):
    return 0 if e is None else 1 + sum(size(e[i]) for i in ("l", "r", "a") if i in e)


ONE = {"k": "c", "n": 1, "d": 1}


def deriv(e, x):
    """the derivative as the library writes it, for its size only"""
    B = lambda o, l, r: {"k": "b", "o": o, "l": l, "r": r}
    mul = lambda p, q: None if p is None or q is None else q if p == ONE else p if q == ONE else B("*", p, q)
    add = lambda p, q: p if q is None else q if p is None else B("+", p, q)
    if e["k"] in "cv":
        return ONE if e.get("s") == x else None
    if e["k"] == "u":
        return mul(deriv(e["a"], x), {"k": "u", "o": "cos", "a": e["a"]})
    l, r, o = e["l"], e["r"], e["o"]
    dl, dr = deriv(l, x), deriv(r, x)
    if o in "+-":
        return add(dl, dr)
    if o == "*":
        return add(mul(dl, r), mul(l, dr))
    if o == "/":
        n = add(mul(dl, r), mul(l, dr))
        return n and B("/", n, B("*", r, r))
    if r["k"] == "c":
        return None if r["n"] == 0 else mul(mul(r, dl), B("^", l, {"k": "c", "n": r["n"] - 1, "d": 1}))
    return add(mul(mul(r, dl), B("^", l, r)), mul(mul(dr, {"k": "u", "o": "ln", "a": l}), e))


def series_cost(e, x, n):
    """how big the derivatives up to order n get"""
    t = 0
    for _ in range(n + 1):
        if e is None or t > 2000:
            break
        t += size(e)
        e = deriv(e, x)
    return t


def has(e, o):
    return e.get("s") == o or e.get("o") == o or any(has(e[i], o) for i in ("l", "r", "a") if i in e)


def run_programs(c, name, prelude, bodies, per_tu=40, timeout=60, tus=None):
    """bodies: C++ statements appending to std::string out.  Returns the observation of each body (parsed JSON), in order."""
    res = [None] * len(bodies)
    if tus:
        per_tu = min(150, (len(bodies) + tus - 1) // tus)
    tus = [list(range(i, len(bodies), (len(bodies) + per_tu - 1) // per_tu)) for i in range((len(bodies) + per_tu - 1) // per_tu)]

    def write(tag, idx):
        p = os.path.join(c.work, "%s_%s.cpp" % (name, tag))
        with open(p, "w") as f:
            f.write(prelude)
            for i in idx:
                f.write("\nstatic void f%d(std::string& out) {\n%s\n}\n" % (i, bodies[i]))
            f.write('\nint main(int argc, char** argv) {\n FILE* fo = fopen(argv[1], "w");\n')
            for i in idx:
                f.write(' { std::string out; try { f%d(out); } catch (stator::Exception& ex) { out = ",\\"exc\\":\\"stator\\""; } catch (std::exception& ex) { out = ",\\"exc\\":\\"std\\""; }\n'
                        '  fprintf(fo, "{\\"#\\":%d%%s}\\n", out.c_str()); fflush(fo); }\n' % (i, i))
            f.write(" fclose(fo);\n}\n")
        return p

    def runp(b, idx):
        o = os.path.join(c.work, os.path.basename(b) + ".out")
        try:
            p = subprocess.run([b, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "hang"
        got = set()
        if os.path.exists(o):
            for line in open(o):
                if line.endswith("}\n"):
                    d = json.loads(line)
                    res[d.pop("#")] = d
                    got.add(line)
        for i in idx:
            if res[i] is None:
                res[i] = {"crash": rc if rc else 997}      # the first is the culprit, the rest did not run
                break

    jobs = [(write(str(t), idx), idx) for t, idx in enumerate(tus)]
    ok = try_compile([p for p, _ in jobs])
    single, round2 = [], []

    def done(b, idx):
        runp(b, idx)
        if any(res[i] is None for i in idx):                # after a crash, run the others one by one
            single.extend(i for i in idx if res[i] is None)

    for (p, idx), b in zip(jobs, ok):
        if b:
            done(b, idx)
        else:                                               # set aside the ones the compiler complains about
            bad = culprits(p, idx, ERR.get(p, ""))
            rest = [i for i in idx if i not in bad]
            single += bad
            if rest:
                round2.append((write(os.path.basename(p)[len(name) + 1:-4] + "r", rest), rest))
    for (p, idx), b in zip(round2, try_compile([p for p, _ in round2])):
        if b:
            done(b, idx)
        else:
            single += idx
    if single:
        if len(single) > 0.5 * len(bodies) and len(bodies) > 20:
            raise CheckError("most of the generated programs do not compile: " + next(iter(ERR.values()))[-2000:])
        log("%d programs compiled one by one" % len(single))
        single_jobs = [(write("s%d" % i, [i]), i) for i in single]
        for (p, i), b in zip(single_jobs, try_compile([p for p, _ in single_jobs])):
            if b:
                runp(b, [i])
            else:
                err = ERR.get(p, "")
                res[i] = {"nomem": 1} if "Killed" in err or "memory exhausted" in err or "out of memory" in err else {"nocompile": 1, "why": "overflow" if "overflow" in err else "depth" if "instantiation depth exceeds" in err else "other"}
    return res


def culprits(path, idx, err):
    """the programs of this file named in the compiler's messages"""
    import re
    start, cur = [], None
    for n, l in enumerate(open(path), 1):
        m = re.match(r"static void f(\d+)\(", l)
        if m:
            start.append((n, int(m.group(1))))
        if l.startswith("int main("):
            start.append((n, None))
    import bisect
    ns = [a for a, _ in start]
    bad = set()
    for m in re.finditer(re.escape(os.path.basename(path)) + r":(\d+):", err):
        k = bisect.bisect_right(ns, int(m.group(1))) - 1
        if k >= 0 and start[k][1] is not None:
            bad.add(start[k][1])
    return [i for i in idx if i in bad]


ERR = {}


def try_compile(srcs):
    """compiles independently; None where the compiler refused"""
    def one(p):
        try:
            return compile_one(p)
        except CompileFailure as e:
            ERR[p] = getattr(e, "full", str(e))
            return None
    return par([lambda p=p: one(p) for p in srcs], NCPU)
