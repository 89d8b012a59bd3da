"""Shared machinery: build harnesses from /repo, run TLC, run commands on the real code, evidence, verdicts."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STATOR_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXRESTART = 400
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not decide (never reported as a violation)."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()

# ---------------------------------------------------------------- building


def _tree_hash(extra):
    h = hashlib.sha256()
    for root in ("stator", "pysrc"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        if os.path.isfile(e):
            with open(e, "rb") as fh:
                h.update(fh.read())
        else:
            h.update(e.encode())
    return h.hexdigest()[:20]


CXX = ["/usr/bin/g++", "-std=c++17", "-O0", "-w", "-I" + REPO, "-isystem", "/usr/include/eigen3", "-I" + HARN]


class CompileFailure(Exception):
    def __init__(self, src, err):
        self.src, self.err = src, err


def compile_many(jobs, timeout=700):
    """jobs: list of (source path, extra flags).  Returns the binaries; compiled in parallel, cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    outs, running, todo = [], [], []
    common = [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f.endswith(".hpp")]
    for src, flags in jobs:
        tag = _tree_hash([src] + common + list(flags))
        out = os.path.join(BUILD, os.path.splitext(os.path.basename(src))[0] + "-" + tag)
        outs.append(out)
        if not os.path.exists(out):
            todo.append((src, flags, out))
    t0 = time.time()
    todo = list(todo)
    errs = []
    while todo or running:
        while todo and len(running) < NCPU:
            src, flags, out = todo.pop(0)
            tmp = out + ".tmp%d" % os.getpid()
            ef = tempfile.TemporaryFile()
            p = subprocess.Popen(CXX + [src, "-o", tmp] + list(flags), stdout=ef, stderr=ef)
            running.append((p, src, tmp, out, ef))
        nr = []
        for p, src, tmp, out, ef in running:
            if p.poll() is None:
                nr.append((p, src, tmp, out, ef))
                continue
            if p.returncode == 0:
                os.rename(tmp, out)
            else:
                ef.seek(0)
                errs.append((src, ef.read().decode(errors="replace")))
        running = nr
        if time.time() - t0 > timeout:
            for p, *_ in running:
                p.kill()
            raise CheckError("compilation timed out")
        time.sleep(0.05)
    if errs:
        f = CompileFailure(errs[0][0], "\n".join(e[1][-3000:] for e in errs))
        f.full = "\n".join(e[1] for e in errs)
        raise f
    return outs


def compile_one(name, flags=()):
    return compile_many([(os.path.join(HARN, name), tuple(flags))])[0]

# ---------------------------------------------------------------- running commands on the code


def _limits(stack_mb, cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
        except Exception:
            pass
    return f


def run_commands(binary, cmds, work, shards=NCPU, timeout=600, hang=20, env=None):
    """Feed JSON commands (one per line); returns one observation per command.
    A crash or a hang of the code under test is an observation too: {"crash": signal} / {"hang": 1}."""
    n = len(cmds)
    shards = max(1, min(shards, (n + 49) // 50))
    parts = [list(range(s, n, shards)) for s in range(shards)]
    res = [None] * n
    import threading
    fails = []

    def worker(s):
        try:
            idx = parts[s]
            inp = os.path.join(work, "in%d.json" % s)
            out = os.path.join(work, "out%d.json" % s)
            with open(inp, "w") as f:
                for i in idx:
                    f.write(json.dumps(cmds[i]) + "\n")
            open(out, "w").close()
            done, t0, restarts, hangs = 0, time.time(), 0, 0
            while done < len(idx):
                p = subprocess.Popen([binary, inp, out, str(done)], stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, preexec_fn=_limits(32, 0), env=env)
                hung = False
                last, tl = -1, time.time()
                while True:
                    try:
                        p.wait(0.02)
                        break
                    except subprocess.TimeoutExpired:
                        sz = os.path.getsize(out)
                        if sz != last:
                            last, tl = sz, time.time()
                        elif time.time() - tl > hang:
                            p.kill(); p.wait(); hung = True
                            break
                        if time.time() - t0 > timeout:
                            p.kill(); p.wait()
                            raise CheckError("commands did not finish within %ds" % timeout)
                lines = [l for l in open(out, errors="replace").read().split("\n") if l.endswith("}")]
                for l in lines:
                    o = json.loads(l)
                    res[idx[o["i"]]] = o
                done = len(lines)
                if done < len(idx):
                    o = {"i": done}
                    if hung:
                        o["hang"] = 1
                        hangs += 1
                    else:
                        o["crash"] = -p.returncode if p.returncode and p.returncode < 0 else (p.returncode or 999)
                    txt = open(out, errors="replace").read()
                    if txt and not txt.endswith("\n"):
                        txt = txt[:txt.rfind("\n") + 1]
                    with open(out, "w") as f:
                        f.write(txt + json.dumps(o) + "\n")
                    res[idx[done]] = o
                    done += 1
                    restarts += 1
                    if restarts > MAXRESTART or hangs > 7:
                        for k in range(done, len(idx)):
                            res[idx[k]] = {"crash": 998}
                        done = len(idx)
        except Exception as e:
            fails.append(e)

    ts = [threading.Thread(target=worker, args=(s,)) for s in range(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not fails and shards and n > 1:
        # a crash or a hang counts only if it repeats on its own
        for i in [i for i in range(n) if res[i] and ("crash" in res[i] or "hang" in res[i])][:12]:
            if res[i].get("crash") == 9:
                raise CheckError("the code under test was killed (out of memory?)")
            r = run_commands(binary, [cmds[i]], work, 1, timeout, hang, env)[0]
            if r and "crash" not in r and "hang" not in r:
                res[i] = dict(r, i=res[i].get("i"))
    if fails:
        raise fails[0] if isinstance(fails[0], CheckError) else CheckError(repr(fails[0]))
    return res

# ---------------------------------------------------------------- TLC


class TLC:
    """One TLC run.  Lines printed by the specification with Emit(tag, value) come back in .emitted."""

    def __init__(self, module, cfg, work, workers=NCPU, simulate=None, depth=None, env=None, timeout=800, seed=None, heap="6g",
                 keep=False, quiet_ok=False):
        self.dir = tempfile.mkdtemp(prefix="tlc_", dir=work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), self.dir)
        cfgp = os.path.join(self.dir, "run.cfg")
        if os.path.exists(os.path.join(SPEC, cfg)):
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        else:
            open(cfgp, "w").write(cfg)
        cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
               "-metadir", os.path.join(self.dir, "states"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        outp = os.path.join(self.dir, "out.txt")
        with open(outp, "w") as f:
            try:
                self.rc = subprocess.run(cmd, cwd=self.dir, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        self.wall = time.time() - t0
        self.emitted, self.other = [], []
        for l in open(outp, errors="replace"):
            if l.startswith('"@@'):
                self.emitted.append(json.loads(json.loads(l.strip())[2:]))
            else:
                self.other.append(l)
        txt = "".join(self.other)
        self.text = txt
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        if not m:
            m = re.findall(r"(\d+) states generated \(", txt)
            m = [(x, x) for x in m] or re.findall(r"The number of states generated: (\d+)()", txt)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1] or m[-1][0])) if m else (0, 0)
        self.violated = re.findall(r"Invariant (\w+) is violated|property (\w+) is violated|Postcondition (\w+)|POSTCONDITION (\w+)", txt)
        shutil.rmtree(os.path.join(self.dir, "states"), ignore_errors=True)

    def require_ok(self):
        if self.rc != 0:
            raise CheckError("TLC failed (rc %d):\n%s" % (self.rc, self.text[-3000:]))
        return self



def par(thunks, n=4):
    """Run independent TLC jobs side by side; results in order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(t) for t in thunks]
        return [f.result() for f in fs]

# ---------------------------------------------------------------- verdicts


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="w_%s_" % prop, dir=BUILD)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes, self.assumptions = {}, []
        self.bad = []      # (key, detail)
        self.known_hit = {}
        self.sound_known = self._known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def _known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for k in json.load(open(p)):
                if k["property"] == self.prop and k.get("status") == "known":
                    out.append(k)
        return out

    def add_tlc(self, t):
        self.states += t.distinct
        self.transitions += t.generated

    def reject(self, key, detail):
        """A behaviour of the code that the specification does not allow. key identifies input/call site/history."""
        for k in self.sound_known:
            if k["key"] == key or (k.get("match") and re.fullmatch(k["match"], key)):
                self.known_hit.setdefault(k["key"], (k, detail))
                return
        self.bad.append((key, detail))

    def finish(self):
        for key, (k, d) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.bad:
            rp = os.path.join(VERIF, "replays")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s.json" % self.prop)
            json.dump([{"key": k, "detail": d} for k, d in self.bad[:400]], open(path, "w"), indent=1, default=str)
            for k, d in self.bad[:10]:
                log("rejected:", k, str(d)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples[:8]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.bad), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s: %d states, %d impl traces/events validated, %d rejected, %d known" % (self.prop, self.states, self.traces, len(self.bad), len(self.known_hit)))
        sys.exit(1 if self.bad else 0)


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
    except CompileFailure as e:
        # The library no longer compiles for a documented use of it: the check cannot decide.
        print("harness does not compile against the current tree:\n" + e.err[:4000])
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(2)
    except CheckError as e:
        print("CHECK ERROR:", e)
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(2)
    c.finish()
