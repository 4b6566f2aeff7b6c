"""Common machinery of the checks: runs drivers against the code in /repo, runs
TLC over the specifications in /verif/spec, and reports.

A check is a Python module in /verif/checks with PROP and run(c), c a Check.
Everything a check needs from the code under test is observed in separate driver
processes (see drivers/common.py), so that nothing the code does can end a check
with anything but a verdict."""

import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
NPROC = 8


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.nviol = 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = self._load_known()
        self.knownhits = {}
        self.reported = set()

    # ---- reporting

    def _load_known(self):
        res = []
        p = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(p):
            with open(p) as f:
                res = [k for k in json.load(f)["findings"] if k["property"] == self.prop]
        return res

    def n(self, quick, thorough):
        """ Number of cases for the tier """
        return quick if self.quick else thorough

    def log(self, what, t0):
        if os.environ.get("VF_LOG"):
            sys.stderr.write("%6.1fs %s\n" % (time.time() - t0, what))

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, clause, detail, sig=None):
        """ Report that the code broke the property. sig identifies the specific failure and
            is only used to recognise known findings """
        for k in self.known:
            if sig is not None and k.get("sig") == sig:
                if sig not in self.knownhits:
                    self.knownhits[sig] = k
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.nviol += 1
        if self.nviol > 5:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.nviol))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "clause": clause, "seed": self.seed, "tier": self.tier,
                       "detail": detail}, f, indent=1, ensure_ascii=True, default=repr)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  clause: %s" % clause)
        s = json.dumps(detail, ensure_ascii=True, default=repr)
        print("  detail: %s" % s[:1500])
        sys.stdout.flush()

    def report(self, bad):
        """ Violations as (clause, detail), the simplest first """
        for clause, detail in sorted(bad, key=lambda b: len(json.dumps(b[1], default=repr))):
            self.violation(clause, detail)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        ev["coverage"]["known_findings_seen"] = sorted(self.knownhits)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=repr)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.nviol:
            print("%s: %d violations" % (self.prop, self.nviol))
            return 1
        print("%s: held on everything explored (%d states, %d transitions, %d traces, %.1fs)" % (
            self.prop, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0

    # ---- running the code under test

    def drive(self, driver, cases, timeout=20, env=None, hashseeds=(0,), nproc=NPROC, lc="en_US.UTF-8"):
        """ Run each case through drivers/<driver>.py in parallel worker processes.
            Returns results in case order: whatever the driver returned, or
            {'exc': ...}, {'hang': True}, {'crash': rc} """
        n = len(cases)
        if not n:
            return []
        nproc = max(1, min(nproc, n))
        results = [None] * n
        shards = [list(range(i, n, nproc)) for i in range(nproc)]

        t0 = time.time()

        def work(si):
            todo = shards[si]
            attempt = 0
            while todo:
                attempt += 1
                wd = os.path.join(self.tmp, "w%s-%d-%d" % (driver, si, attempt))
                os.makedirs(wd, exist_ok=True)
                inp = os.path.join(wd, "in.json")
                outp = os.path.join(wd, "out.json")
                with open(inp, "w") as f:
                    for i in todo:
                        f.write(json.dumps([i, cases[i]]) + "\n")
                open(outp, "w").close()
                e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "LANG")}
                e.update(PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL=lc,
                         PYTHONHASHSEED=str(hashseeds[si % len(hashseeds)]),
                         PYTHONPATH=os.path.join(REPO, "lib"), VERIF_REPO=REPO,
                         VF_TIMEOUT=str(timeout), VF_WORK=wd)
                e.update(env or {})
                errf = open(os.path.join(wd, "err"), "wb")
                try:
                    rc = subprocess.call([PY, os.path.join(VERIF, "drivers", driver + ".py"), inp, outp],
                                         env=e, cwd=wd, stdout=errf, stderr=errf, stdin=subprocess.DEVNULL,
                                         timeout=timeout * 3 + 60 + len(todo) * 2)
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                errf.close()
                done = set()
                with open(outp) as f:
                    for l in f:
                        try:
                            i, r = json.loads(l)
                        except ValueError:
                            continue
                        results[i] = r
                        done.add(i)
                rest = [i for i in todo if i not in done]
                with open(os.path.join(wd, "err"), "rb") as f:
                    err = f.read()[-2000:].decode("utf-8", "replace")
                shutil.rmtree(wd, ignore_errors=True)
                if not rest:
                    break
                # the first unfinished case ended the process
                results[rest[0]] = {"hang": True} if rc == "timeout" else {"crash": rc, "err": err}
                todo = rest[1:]
                if attempt > 20:
                    for i in todo:
                        results[i] = {"crash": rc, "err": err}
                    break

        with ThreadPoolExecutor(nproc) as ex:
            list(ex.map(work, range(nproc)))
        self.log("drive %d with %s" % (n, driver), t0)
        return results

    def script(self, name, args, cwd, timeout=120, env=None, hashseed="0"):
        """ Run a script of the repository. Returns (rc, stdout, stderr), rc 'timeout' if it hung """
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "LANG")}
        e.update(PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="en_US.UTF-8",
                 PYTHONHASHSEED=hashseed, PYTHONPATH=os.path.join(REPO, "lib"))
        e.update(env or {})
        p = subprocess.Popen([PY, os.path.join(REPO, "scripts", name)] + args, cwd=cwd, env=e,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            o, r = p.communicate(timeout=timeout)
            return p.returncode, o.decode("utf-8", "replace"), r.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            return "timeout", "", ""

    # ---- TLC

    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=900, heap="6g", extra=()):
        """ Run TLC on spec/<module>.tla with the given configuration text. Returns its output. """
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), wd)
        with open(os.path.join(wd, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + wd, "-Dtlc2.TLC.stopAfter=0",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(wd, "md"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(wd, ignore_errors=True)
        return p.returncode, out

    def _counts(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g), int(d)

    def model(self, module, constants="", invariants=(), properties=(), view=None, constraint=None,
              spec="Spec", workers=NPROC, timeout=900, extra=(), init=None, next=None, env=None):
        """ Model check spec/<module>.tla exhaustively: the design satisfies the property.
            A failure here is a failure of the specification, so of the machinery.
            Returns the list of cases (JSON) it printed """
        cfg = ("SPECIFICATION %s\n" % spec) + constants + "\n"
        if invariants:
            cfg += "INVARIANTS\n " + "\n ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES\n " + "\n ".join(properties) + "\n"
        if view:
            cfg += "VIEW %s\n" % view
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        cfg += "CHECK_DEADLOCK FALSE\n"
        t0 = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
        self.log("model %s" % module, t0)
        if rc != 0:
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, out[-6000:]))
        g, d = self._counts(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("models", {})[module] = {"generated": g, "distinct": d, "constants": " ".join(constants.split())}
        cases = []
        for m in sorted(re.finditer(r'^<<"CASE", "(.*)">>$', out, re.M), key=lambda m: m.group(1)):     # as workers find them in any order
            cases.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        return cases

    def validate(self, module, traces, constants="", chunk=None, timeout=900, workers=NPROC, data=None):
        """ Check recorded traces against the trace specification spec/<module>.tla.
            Returns a verdict for each: (ok, line, clause) """
        if not traces:
            return []
        res = []
        chunk = chunk or 2000
        for o in range(0, len(traces), chunk):
            res += self._validate(module, traces[o:o + chunk], constants, timeout, workers, data)
        return res

    def _validate(self, module, traces, constants, timeout, workers, data):
        fn = os.path.join(self.tmp, "traces.json")
        with open(fn, "w") as f:
            json.dump({"traces": traces, "data": data if data is not None else {"none": 0}}, f)
        cfg = "SPECIFICATION TraceSpec\n" + constants + "\nCHECK_DEADLOCK FALSE\n"
        t0 = time.time()
        rc, out = self.tlc(module, cfg, env={"VF_TRACES": fn}, timeout=timeout, workers=workers)
        self.log("validate %d with %s" % (len(traces), module), t0)
        verd = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*"(OK|BAD)",\s*(\d+),\s*"([^"]*)"\s*>>', out):
            t, v, l, cl = int(m.group(1)), m.group(2), int(m.group(3)), m.group(4)
            old = verd.get(t)
            if old is None or (v == "OK" and old[0] != "OK") or (v == "BAD" and old[0] == "BAD" and l > old[1]):
                verd[t] = (v, l, cl)
        m = re.search(r"(?m)^(?:State \d+:.*\n)?/\\ tid = (\d+)$", out[out.rfind("The behavior up to this point"):]) if rc != 0 else None
        if m and not re.search("OutOfMemory|heap space|StackOverflow", out) and int(m.group(1)) not in verd:
            # a result of a form that the specification doesn't know, which no result of the code has
            self.log("not evaluable: trace %s\n%s" % (m.group(1), "\n".join(x for x in out.splitlines() if "VERDICT" not in x)[-3000:]), t0)
            verd[int(m.group(1))] = ("BAD", 0, "a result beyond the specification")
            for i in range(len(traces)): verd.setdefault(i + 1, ("OK", 0, "-"))
            rc = 0
        if rc != 0 or len(verd) != len(traces):
            if os.environ.get("VF_KEEP"):
                shutil.copy(fn, os.environ["VF_KEEP"])
            raise MachineryError("TLC gave %d verdicts for %d traces of %s (rc %s):\n%s" % (
                len(verd), len(traces), module, rc, out[-5000:]))
        g, d = self._counts(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["traces_validated_against_impl"] += len(traces)
        return [(verd[i + 1][0] == "OK", verd[i + 1][1], verd[i + 1][2]) for i in range(len(traces))]

    def isfailure(self, r):
        """ Whether a driver result says the code failed rather than returned """
        return isinstance(r, dict) and ("exc" in r or "hang" in r or "crash" in r)


class Interner:
    """ Maps strings to integers in code point order, for specifications that compare text """
    def __init__(self, strings):
        self.table = sorted(set(strings))
        self.ids = {s: i + 1 for i, s in enumerate(self.table)}

    def __getitem__(self, s):
        return self.ids[s]


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import importlib
    mod = importlib.import_module(prop.lower())
    c = Check(prop, seed, tier)
    try:
        mod.run(c)
        return c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR: " + str(e))
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 2 if not c.nviol else 1
    except Exception:
        traceback.print_exc()
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 2 if not c.nviol else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv))
