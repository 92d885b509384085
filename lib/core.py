"""Driver: builds the executor from /repo, runs TLC and the executor, collects the verdict.

Every expectation is computed by TLC from the modules in /verif/spec.  This file moves data:
cases -> executor (real code) -> recorded results -> TLC (trace modules) -> verdict.
"""
import base64, itertools, json, os, random, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("RUP_REPO", "/repo")


class ToolError(Exception):
    pass


def b64(b):
    return base64.b64encode(bytes(b)).decode()


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.replaying = False
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.out = os.path.join(ROOT, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.cases = 0
        self.mc = []            # model checking runs
        self.samples = []
        self.violations = []    # (case, why, observed)
        self.assumptions = []
        self.notes = {}
        self.nfile = 0
        self.cfgs = itertools.count()
        self.builder = threading.Thread(target=self._build)
        self.build_err = None
        self.builder.start()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def _build(self):
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        src = os.path.join(ROOT, "harness")
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(ROOT, "target")],
                           cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.build_err = p.stdout[-4000:]

    def exe(self):
        self.builder.join()
        if self.build_err:
            raise ToolError("the executor does not build:\n" + self.build_err)
        return os.path.join(ROOT, "target", "debug", "rupconf")

    # -------------------------------------------------------------- executor
    def run_cases(self, cases, env=None, stall=60):
        """Runs cases in the real code; returns {id: result}; a result is {"r":..}, {"panic":..},
        {"crash":..} (the process died) or {"hang":..}."""
        exe = self.exe()
        for c in cases:
            assert "id" in c
        n = min(8, max(1, len(cases) // 4))
        parts = [cases[i::n] for i in range(n)]
        res, errs = {}, []
        self.nfile += 1
        tag = self.nfile

        def work(k):
            try:
                todo = parts[k]
                rnd = 0
                while todo:
                    cf = os.path.join(self.out, "c%d.%d.%d" % (tag, k, rnd))
                    of = cf + ".out"
                    with open(cf, "w") as f:
                        for c in todo:
                            f.write(json.dumps(c) + "\n")
                    open(of, "w").close()
                    e = dict(os.environ, TZ="UTC", RUST_BACKTRACE="0")
                    e.update(env or {})
                    p = subprocess.Popen([exe, cf, of], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    size, last, why = -1, time.time(), None
                    while p.poll() is None:
                        time.sleep(0.02)
                        s = os.path.getsize(of)
                        if s != size:
                            size, last = s, time.time()
                        elif time.time() - last > stall:
                            why = "no result after %d s" % stall
                            p.kill()
                            p.wait()
                    done = 0
                    with open(of) as f:
                        for line in f:
                            if line.endswith("\n"):
                                o = json.loads(line)
                                res[o.pop("id")] = o
                                done += 1
                    if done < len(todo):
                        if why:
                            res[todo[done]["id"]] = {"hang": why}
                        elif p.returncode != 0:
                            res[todo[done]["id"]] = {"crash": "exit status %d" % p.returncode}
                        else:
                            raise ToolError("executor stopped early")
                        todo = todo[done + 1:]
                    else:
                        todo = []
                    rnd += 1
                    os.unlink(cf)
                    os.unlink(of)
            except Exception as ex:
                errs.append(ex)
        ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            raise ToolError("executor: %r" % errs[0])
        self.cases += len(cases)
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=600, expect_violation=False):
        cfg = cfg or module + ".cfg"
        n = next(self.cfgs)
        meta = os.path.join(self.out, "meta%d" % n)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xss256m"
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
               cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult(p.stdout, p.returncode)
        if p.returncode != 0 and not expect_violation:
            raise ToolError("TLC failed on %s (%d):\n%s" % (module, p.returncode, r.tail()))
        return r

    def cfg(self, cfgname, consts, over=None):
        """The given configuration with other constants, and definitions replaced by others."""
        if not consts and not over:
            return cfgname
        text = open(os.path.join(SPEC, cfgname)).read()
        for k, v in (over or {}).items():
            text += "\nCONSTANT %s <- %s\n" % (k, v)
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(\b%s\s*=\s*)(\"[^\"]*\"|\S+)" % k, lambda m: m.group(1) + v, text)
            if n != 1:
                raise ToolError("no constant %s in %s" % (k, cfgname))
        cfgname = os.path.join(self.out, "%s.%d.cfg" % (cfgname[:-4], next(self.cfgs)))
        open(cfgname, "w").write(text)
        return cfgname

    def model_check(self, module, cfg=None, consts=None, timeout=800, min_states=2, **kw):
        """Exhaustive check of a module; consts overrides constants of its cfg."""
        cfgname = self.cfg(cfg or module + ".cfg", consts)
        r = self.tlc(module, cfgname, timeout=timeout, **kw)
        if r.distinct < min_states:
            raise ToolError("%s explored only %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc.append({"module": module, "constants": consts or "as in " + cfgname, "distinct_states": r.distinct,
                        "states_generated": r.generated, "depth": r.depth})
        self.log("model %s %s: %d distinct states, %d transitions" % (module, consts or "", r.distinct, r.generated))
        return r

    def refuted(self, module, consts=None, over=None, cfg=None, **kw):
        """A mistake put into the model on purpose must be found: the checker sees what it is there to see.
        over: definitions of the specification replaced by mistaken ones."""
        cfg = cfg or module + ".cfg"
        r = self.tlc(module, self.cfg(cfg, consts, over), expect_violation=True, **kw)
        consts = dict(consts or {}, **(over or {}))
        if not re.search(r"Invariant \w+ is violated|Action property \w+ is violated|Temporal properties were violated|Error: Evaluating assumption|Assumption .* is false", r.text):
            raise ToolError("%s with %s should have been refuted:\n%s" % (module, consts, r.tail()))
        self.mc.append({"module": module, "constants": consts, "refuted": True})
        self.log("model %s %s: refuted, as it must be" % (module, consts))

    def prove(self, module):
        """Lets the proof system check a proof in spec/proofs (thorough tier: it says nothing of the code under test)."""
        if not self.thorough:
            return
        d = os.path.join(self.out, "proofs")
        shutil.copytree(SPEC, d, ignore=shutil.ignore_patterns(".tlacache"))
        p = subprocess.run(["tlapm", "--cleanfp", "--stretch", "5", "-I", d, module + ".tla"], cwd=os.path.join(d, "proofs"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        m = re.search(r"All (\d+) obligations proved", p.stdout)
        if p.returncode or not m:
            raise ToolError("%s is not proved:\n%s" % (module, p.stdout[-2000:]))
        shutil.rmtree(d)
        self.notes["obligations_proved"] = self.notes.get("obligations_proved", 0) + int(m.group(1))
        self.log("proof %s: all %s obligations proved" % (module, m.group(1)))

    def refute_all(self, *runs):
        """refuted(module, consts, over) for each, several at a time; runs: (module, consts, over)."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(self.refuted, m, c, o, workers=2) for m, c, o in runs]:
                f.result()

    def validate(self, module, recs, timeout=800):
        """Lets TLC judge recorded results: returns {id: [what disagrees]}."""
        if not recs:
            return {}
        if len(recs) > 4000:          # TLC holds what it reads in memory
            bad = {}
            for i in range(0, len(recs), 4000):
                bad.update(self.validate(module, recs[i:i + 4000], timeout))
            return bad
        self.nfile += 1
        f = os.path.join(self.out, "trace%d.ndjson" % self.nfile)
        with open(f, "w") as h:
            for r in recs:
                h.write(json.dumps(r) + "\n")
        r = self.tlc(module, env={"TRACE": f}, timeout=timeout * (4 if self.thorough else 1))
        # one state per lane plus one per case: everything was looked at
        if r.generated != len(recs) + 8:
            raise ToolError("%s looked at %d of %d cases" % (module, r.generated - 8, len(recs)))
        self.traces += len(recs)
        bad = {}
        for m in r.messages:
            bad[m["id"]] = m["bad"]
        self.log("%s judged %d recorded cases, %d disagree" % (module, len(recs), len(bad)))
        os.unlink(f)
        return bad

    # -------------------------------------------------------------- verdict
    def violate(self, case, why, observed=None, replay=None):
        """replay: (kind, item) from which registry.REPLAY runs the case again."""
        self.violations.append((case, why, observed, replay))

    def finish(self):
        self.builder.join()
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4] or ["none"],
               "evaluations": self.cases, "models": self.mc, "exhaustive": False}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        if not self.replaying:
          with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            self.log("property %s held: %d cases run, %d recordings validated" % (self.prop, self.cases, self.traces))
            return 0
        for n, (case, why, obs, replay) in enumerate(self.violations[:5]):
            path = os.path.join(self.out, "violation%d.json" % n)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "why": why, "rerun": replay, "case": case, "observed": obs,
                           "replay": "%s/check %s --replay %s" % (ROOT, self.prop, path)}, f, indent=1, default=str)
            print("  violation %d: %s" % (n, json.dumps(why, default=str)[:600]))
        print("%d violating cases" % len(self.violations))
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(self.out, "violation0.json")))
        return 1


class TlcResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        self.messages = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                self.messages.append(json.loads(json.loads(line)[2:]))
        m = re.search(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
        ms = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", text)
        self.generated = int(ms[-1][0].replace(",", "")) if ms else 0
        self.distinct = int(ms[-1][1].replace(",", "")) if ms else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        self.depth = int(m.group(1)) if m else None

    def tail(self):
        keep = [l for l in self.text.splitlines() if not l.startswith(("Semantic", "Linting", "Parsing"))]
        return "\n".join(keep[-60:])[-6000:]


def failed(res):
    """Why a case did not even give a result, or None."""
    for k in ("panic", "crash", "hang"):
        if k in res:
            return "%s: %s" % (k, res[k])
    return None
