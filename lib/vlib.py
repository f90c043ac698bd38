"""Shared driver of all checks: builds the harness from /repo's current tree, runs TLC, writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(V, ".target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", RUSTFLAGS="-Awarnings")
ENV.pop("RUST_BACKTRACE", None)

class ToolError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ build
def _sums():
    r = {}
    for base in (os.path.join(REPO, "src"), os.path.join(V, "harness")):
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in fs:
                p = os.path.join(d, f)
                try:
                    r[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
                except OSError:
                    pass
    return r

CRATES = ["ringhopper", "ringhopper-definitions", "ringhopper-primitives", "ringhopper-structs-codegen",
          "ringhopper-structs", "ringhopper-engines-codegen", "ringhopper-engines"]

def build(bins=("rhx",)):
    """cargo decides by mtime: forget the fingerprints of every crate whose files differ from what was last built."""
    os.makedirs(TARGET, exist_ok=True)
    state = os.path.join(TARGET, "vsums.json")
    new = _sums()
    try:
        old = json.load(open(state))
    except (OSError, ValueError):
        old = {}
    changed = {p for p in set(new) | set(old) if new.get(p) != old.get(p)}
    stale = set()
    for p in changed:
        for c in CRATES:
            if p.startswith(f"{REPO}/src/{c}/"):
                stale.add(c)
        if p.startswith(V) or p.startswith(f"{REPO}/src/invader/"):
            stale.add("rhx")
    if "ringhopper-definitions" in stale:      # read by the code generators' build
        stale |= {"ringhopper-structs-codegen", "ringhopper-engines-codegen", "ringhopper-structs", "ringhopper-engines"}
    if old and stale:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        for d in (os.listdir(fp) if os.path.isdir(fp) else []):
            if re.sub(r"-[0-9a-f]{16}$", "", d) in stale:
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if changed and old:
        # until the build below succeeds nothing is known about what is in the target folder
        try: os.unlink(state)
        except OSError: pass
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    t = time.time()
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-6000:])
    json.dump(new, open(state, "w"))
    log(f"build ok ({time.time()-t:.1f}s, {len(changed)} changed files)")

RHX = os.path.join(TARGET, "debug", "rhx")
INVADER = os.path.join(TARGET, "debug", "invader")

# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = os.path.join(V, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.scratch = os.path.join(self.work, "scratch")
        os.makedirs(self.scratch)
        self.replays = os.path.join(V, ".work", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.exhaustive = []
        self.samples, self.assumptions, self.violations, self.stages, self.known = [], [], [], [], []
        self.rng_note = None

    def quick(self, a, b):
        return a if self.tier == "quick" else b

    # -- violations -----------------------------------------------------
    def violate(self, what, payload, name="case"):
        path = os.path.join(self.replays, f"{self.pid}-{len(self.violations)}-{name}.json")
        json.dump({"property": self.pid, "what": what, "tier": self.tier, "seed": self.seed, "observation": payload},
                  open(path, "w"), indent=1, default=str)
        self.violations.append({"what": what, "replay": path})
        log(f"VIOLATION property={self.pid} replay={path}")
        log("  " + what[:600])

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=780, args=(), heap="6g"):
        meta = os.path.join(self.work, "tlc-" + module + "-" + cfg.replace(".cfg", ""))
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=os.path.join(V, "specs"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            out = x.stdout or b""
            raise ToolError(f"TLC timed out on {module}/{cfg}: " + (out if isinstance(out, str) else out.decode(errors='replace'))[-1500:])
        open(os.path.join(self.work, f"tlc-{module}.log"), "w").write(p.stdout[-200000:])
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", p.stdout)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", p.stdout)
            if m: gen = dist = int(m[-1])
        return p.returncode, p.stdout, gen, dist

    def model(self, module, cfg=None, label=None, env=None, exhaustive=True, min_states=1, **kw):
        """Check the specification itself; a failure here is an error of this machinery, never of the code."""
        t = time.time()
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", env, **kw)
        if rc != 0 or "Error:" in out:
            raise ToolError(f"model {module} does not satisfy its own properties:\n" + out[-4000:])
        if dist < min_states:
            raise ToolError(f"model {module}: only {dist} states")
        self.states += dist; self.transitions += gen
        self.stages.append(f"model {module}: {dist} distinct states, {gen} transitions{' (exhaustive within its bounds)' if exhaustive else ''}")
        log(f"  model {module}: {dist} states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def gen(self, module, cfg=None, env=None, out="cases.ndjson", **kw):
        """Let TLC write test cases (with the results the specification prescribes); returns the file."""
        path = os.path.join(self.work, out)
        e = dict(env or {}); e["CASES"] = path
        text = self.model(module, cfg, env=e, **kw)
        if '\n"CASE ' in text:      # printed one by one while TLC explored the behaviours
            with open(path, "w") as f:
                for line in text.split("\n"):
                    if line.startswith('"CASE '):
                        f.write(json.loads(line)[5:] + "\n")
        n = sum(1 for _ in open(path))
        if n == 0:
            raise ToolError(f"{module} generated no cases")
        self.stages.append(f"{module}: {n} cases generated by TLC for replay on the code")
        return path

    def trace(self, module, path, cfg=None, env=None, explain=None, label="", **kw):
        """TLC must accept every record of the trace."""
        n = sum(1 for _ in open(path))
        if n == 0:
            raise ToolError(f"empty trace for {module}")
        t = time.time()
        e = dict(env or {}); e["TRACE"] = path
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", e, **kw)
        if rc == 0 and dist == n:
            self.states += dist; self.transitions += gen; self.traces += n
            self.stages.append(f"trace {module}{label}: {n} records of the real code accepted")
            log(f"  trace {module}{label}: {n} records accepted, {time.time()-t:.1f}s")
            return True
        if rc == 12 or "is violated" in out:
            m = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            if not m:
                raise ToolError(f"{module}: violation without a position:\n" + out[-3000:])
            i = int(m[-1])
            rec = json.loads(open(path).read().split("\n")[i - 1])
            inv = re.findall(r"Invariant (\w+) is violated", out)
            self.violate((explain(rec) if explain else f"record {i} of {n} ({inv[0] if inv else 'Accepted'}) is not allowed by the specification {module}: " + json.dumps(rec)), rec)
            return False
        raise ToolError(f"{module}: TLC failed (rc={rc}, {dist} of {n} records):\n" + out[-5000:])

    # -- harness ----------------------------------------------------------
    def shim(self):
        """A library that makes threads wait now and then where they allocate memory (for LD_PRELOAD), so that schedules vary."""
        so = os.path.join(self.work, "shim.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(V, "harness", "shim.c")])
        return so if r.returncode == 0 else None
    def shaken(self, every):
        so = self.shim()
        return {"LD_PRELOAD": so, "RHX_EVERY": str(every)} if so else {}

    def rhx(self, cmd, out="trace.ndjson", n=100, cases=None, extra=(), seed=None, timeout=800, cur=True, env=None):
        path = os.path.join(self.work, out)
        curf = os.path.join(self.work, "current.json")
        try: os.unlink(curf)
        except OSError: pass
        a = [RHX, cmd, "--seed", str(self.seed if seed is None else seed), "--n", str(n), "--out", path, "--scratch", self.scratch, "--cur", curf]
        if cases: a += ["--cases", cases]
        t = time.time()
        e = dict(ENV); e.update(env or {})
        p = subprocess.run(a + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=self.scratch, env=e, errors="replace")
        m = re.search(r"records (\d+)", p.stdout)
        if p.returncode != 0 or not m:
            cur_case = None
            if os.path.exists(curf):
                try: cur_case = json.load(open(curf))
                except ValueError: pass
            if cur_case is not None and (p.returncode == 97 or p.returncode < 0):
                how = {97: "did not return (hang)", -6: "aborted the process (out of memory or abort)", -11: "crashed the process (SIGSEGV)"}.get(p.returncode, f"killed the process ({p.returncode})")
                self.violate(f"the code under test {how}: " + json.dumps(cur_case)[:800] + " " + p.stderr[-300:], cur_case, "crash")
                return None
            raise ToolError(f"harness {cmd} failed (rc={p.returncode}): {p.stdout[-1500:]} {p.stderr[-3000:]}")
        self.evals += int(m.group(1))
        log(f"  harness {cmd}: {m.group(1)} records, {time.time()-t:.1f}s")
        return path

    def replay(self, path, label="replay", limit=3):
        """Every replayed case must end as the specification prescribes (want = got)."""
        n = 0
        for line in open(path):
            r = json.loads(line)
            n += 1
            if r["want"] != r["got"]:
                limit -= 1
                self.violate(f"{label}: the specification prescribes {json.dumps(r['want'])[:300]}, the code did {json.dumps(r['got'])[:300]} on {json.dumps(r)[:600]}", r, "replay")
                if limit <= 0: break
        self.traces += n
        self.stages.append(f"{label}: {n} behaviours of the specification replayed on the real code")
        self.sample(path, 1)

    def sample(self, path, k=3):
        with open(path) as f:
            ls = f.read().split("\n")[:-1]
        for i in sorted({0, len(ls) // 2, len(ls) - 1})[:k]:
            s = ls[i]
            self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    # -- end ----------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:8] or ["none"], "stages": self.stages},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        log(f"{self.pid} {self.tier}: {'VIOLATED' if self.violations else 'held'} ({wall:.1f}s)")
        return 1 if self.violations else 0
