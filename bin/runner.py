import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
VH = os.path.join(TARGET, "debug", "vh")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def env_clean():
    e = dict(os.environ)
    for k in ("NO_COLOR", "CLICOLOR", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR",
              "JAVA_TOOL_OPTIONS", "COLORTERM", "COLUMNS", "LINES"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["TERM"] = "xterm-256color"
    e["LC_ALL"] = "C.UTF-8"
    return e


def repo_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml"),
             os.path.join(VERIF, "harness", "Cargo.lock")]
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, _, fs in sorted(os.walk(base)):
            roots += [os.path.join(d, f) for f in sorted(fs)]
    for p in roots:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".vh.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".vh.hash")
        h = repo_hash()
        if os.path.exists(stamp) and os.path.exists(VH) and open(stamp).read() == h:
            return
        e = env_clean()
        e["CARGO_TARGET_DIR"] = TARGET
        manifest = os.path.join(VERIF, "harness", "Cargo.toml")
        if os.path.exists(stamp):
            os.unlink(stamp)
        # the content changed since the last build: don't rely on modification times
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", "termimad", "-p", "vh"],
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise ToolError("the harness doesn't build")
        with open(stamp, "w") as f:
            f.write(h)


class Ctx:
    def __init__(self, prop, tier, seed, keep):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.thorough = tier == "thorough"
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_validated=0,
                        model_states=0, model_transitions=0, samples=[], runs=[])
        self.assumptions = []
        self.known = load_known(prop)
        self.env = env_clean()

    def elapsed(self):
        return time.time() - self.t0

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, extra_env=None, timeout=780, args=(), heap="7g", workers="8"):
        e = dict(self.env)
        e.update(extra_env or {})
        meta = os.path.join(self.work, "meta")
        shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-cp", TLA, "tlc2.TLC", "-workers", workers, "-config", cfg,
               "-metadir", meta, "-noGenerateSpecTE", *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        with open(os.path.join(self.work, "tlc-%s.log" % os.path.basename(cfg)), "w") as f:
            f.write(r.stdout)
        return r

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def model_check(self, module, cfg, timeout=780, extra_env=None, workers="8"):
        """exhaustive check of the design"""
        t = time.time()
        cfgfile = cfg + ".cfg"
        r = self.tlc(module, cfgfile, timeout=timeout, extra_env=extra_env, workers=workers)
        gen, dist = self.counts(r.stdout)
        if "No error has been found" not in r.stdout:
            print(r.stdout[-4000:])
            raise ToolError("the specification %s (%s) doesn't satisfy its own properties" % (module, cfg))
        self.cov["model_states"] += dist
        self.cov["model_transitions"] += gen
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["runs"].append(dict(kind="exhaustive model checking", module=module, cfg=cfg, distinct_states=dist,
                                     transitions=gen, wall_s=round(time.time() - t, 2)))
        return r

    # -- Apalache ----------------------------------------------------------
    def prove(self, module, init, length, timeout=240):
        """symbolic check, all integers included: Proved holds in the states of init (length 0), or it also is
        kept by the steps from them (length 1: with an init as large as the invariant, that's an induction)"""
        t = time.time()
        out = os.path.join(self.work, "apalache")
        e = dict(self.env)
        e["JVM_ARGS"] = "-Xmx4g"
        cmd = ["apalache-mc", "check", "--out-dir=" + out, "--init=" + init, "--inv=Proved", "--length=%d" % length,
               os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace", stdin=subprocess.DEVNULL)
            rc, log = r.returncode, r.stdout
        except (subprocess.TimeoutExpired, OSError) as x:
            rc, log = None, str(x)
        shutil.rmtree(out, ignore_errors=True)
        if rc == 12:
            print(log[-3000:])
            raise ToolError("the specification %s isn't satisfied by its own arithmetic" % module)
        done = rc == 0 and "EXITCODE: OK" in log
        self.cov["runs"].append(dict(kind="symbolic proof (Apalache)", module=module, init=init, length=length,
                                     result="proved" if done else "not decided", wall_s=round(time.time() - t, 2)))
        if not done:
            self.assumptions.append("Apalache gave no answer on %s in this run: only the bounded check by TLC was done" % module)

    # -- harness -----------------------------------------------------------
    def harness(self, cmd, out, budget, seed=None, args=(), timeout=300, prop=None):
        seed = self.seed if seed is None else seed
        full = [VH, cmd, "--prop", prop or self.prop, "--seed", str(seed), "--budget", str(budget), "--tier", self.tier,
                "--out", out, *args]
        try:
            r = subprocess.run(full, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, cwd=self.work, stdin=subprocess.DEVNULL, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("harness timeout: " + " ".join(full))
        if r.returncode == 3:
            self.violation("the code hangs", dict(command=full, stderr=r.stderr[-2000:]))
        if r.returncode == 4:
            self.violation("the code panics", dict(command=full, stderr=r.stderr[-2000:]))
        if r.returncode in (-6, -11, 134, 139):
            self.violation("the code under test aborts the process (signal)", dict(command=full, stderr=r.stderr[-2000:]))
        if r.returncode != 0:
            sys.stdout.write(r.stderr[-3000:])
            raise ToolError("harness failed (%s): %s" % (r.returncode, " ".join(full)))
        try:
            return json.loads(r.stdout.strip().splitlines()[-1]), full
        except Exception:
            raise ToolError("harness gave no count")

    # -- trace validation ----------------------------------------------------
    def validate(self, module, trace_file, regen=None, timeout=780, consts=None, sample=True):
        """each recorded trace must be a behaviour of the specification"""
        t = time.time()
        cfgfile = os.path.join(self.work, module + ".cfg")
        with open(cfgfile, "w") as f:
            f.write("INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Prop = \"%s\"\n" % self.prop)
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s = %s\n" % (k, v))
        nb = sum(1 for _ in open(trace_file))
        if nb == 0:
            raise ToolError("no trace recorded")
        r = self.tlc(module, cfgfile, extra_env={"TRACE_FILE": trace_file}, timeout=timeout)
        out = r.stdout
        gen, dist = self.counts(out)
        if "No error has been found" in out:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["steps_validated"] += max(0, dist - nb)
            self.cov["traces_validated_against_impl"] += nb
            self.cov["runs"].append(dict(kind="trace validation", module=module, traces=nb, distinct_states=dist,
                                         wall_s=round(time.time() - t, 2)))
            if sample and len(self.cov["samples"]) < 6:
                self.add_samples(trace_file)
            return
        trs = re.findall(r"/\\ tr = (\d+)", out)
        is_ = re.findall(r"/\\ i = (\d+)", out)
        vs = re.findall(r'/\\ v = "([^"]*)"', out)
        evaluation = ("TLC threw an unexpected exception" in out or "The error occurred when TLC was evaluating" in out
                      or "Error: Evaluating" in out or "Attempted to" in out)
        tool = ("OutOfMemory" in out or "Parse Error" in out or "Semantic error" in out or "StackOverflow" in out
                or "Parsing or semantic analysis failed" in out or "ConfigFileException" in out)
        violated = "Invariant Accepted is violated" in out
        if tool or not (violated or evaluation) or not trs:
            print(out[-5000:])
            raise ToolError("TLC failed on the traces")
        tr = int(trs[-1])
        i = int(is_[-1]) if is_ else 0
        if violated:
            what = vs[-1] if vs else "?"
        else:
            what = "observation outside of the specification's domain"
            i += 1
        line = None
        with open(trace_file) as f:
            for k, l in enumerate(f, 1):
                if k == tr:
                    line = l
                    break
        try:
            data = json.loads(line)
            ev = data.get("ev", [])
            failing = ev[i - 1] if 0 < i <= len(ev) else None
        except Exception:
            data, failing = line, None
        self.violation(what, dict(spec=module, trace_index=tr, event_index=i, failing_event=failing, trace=data,
                                  regenerate=regen, tlc_tail=out[-3000:]))

    def add_samples(self, trace_file):
        with open(trace_file) as f:
            for k, l in enumerate(f):
                if k in (0, 7, 300):
                    self.cov["samples"].append(l[:600].rstrip() + ("..." if len(l) > 600 else ""))
                if k > 300:
                    break

    def violation(self, what, detail):
        detail = dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **detail)
        txt = json.dumps(detail, ensure_ascii=False, default=str)
        for k in self.known:
            if all(s in txt for s in k["match"]):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        with open(p, "w") as f:
            json.dump(detail, f, ensure_ascii=False, indent=1, default=str)
        raise Violation(what, p)


def load_known(prop):
    """lines `finding: property=<id> match=<json list of strings> <what>`; `fixed:` lines suppress nothing"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\[.*?\]) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(dict(match=json.loads(m.group(2)), what=m.group(3)))
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    import props
    if a.prop not in props.PROPS:
        print("unknown property", a.prop)
        return 2
    P = props.PROPS[a.prop]
    ctx = Ctx(a.prop, tier, seed, a.keep)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    evfile = os.path.join(ev, a.prop + ".json")
    rc, nviol = 0, 0
    try:
        try:
            build()
            P["run"](ctx)
        except Violation as v:
            print("%s: %s" % (a.prop, v.what))
            print("VIOLATION property=%s replay=%s" % (a.prop, v.replay))
            rc, nviol = 1, 1
    except ToolError as e:
        print("CHECK-ERROR %s: %s" % (a.prop, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR timeout", e)
        return 2
    cov = ctx.cov
    if not cov["samples"]:
        cov["samples"] = ["(no complete trace: violation found first)"]
    with open(evfile, "w") as f:
        json.dump(dict(property=a.prop, tier=tier, seed=seed, level=P.get("level", "model_checking"), coverage=cov,
                       assumptions=P.get("assumptions", []) + ctx.assumptions, wall_s=round(ctx.elapsed(), 2),
                       violations=nviol), f, ensure_ascii=False, indent=1)
    if rc == 0:
        print("OK %s (%s): %d traces, %d steps validated; %d model states; %.1f s" % (
            a.prop, tier, cov["traces_validated_against_impl"], cov["steps_validated"], cov["model_states"], ctx.elapsed()))
    if not a.keep:
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
