"""Shared machinery: build drivers, run them on scripts, validate traces with TLC."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")        # overridden only while experimenting
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HB = os.path.join(BUILD, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 4)))


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict on the code)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def build(*targets):
    os.makedirs(HB, exist_ok=True)
    if any(t.startswith("../mo/") for t in targets):
        import mobuild
        return mobuild.build(*[t[6:] for t in targets])
    env = dict(os.environ, CCACHE_DISABLE="1")
    lock = open(os.path.join(BUILD, ".lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    r = subprocess.run(["cmake", "-G", "Ninja", os.path.join(VERIF, "harness"), "-DREPO=" + REPO],
                       cwd=HB, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    for attempt in (1, 2):
        r = subprocess.run(["ninja"] + list(targets), cwd=HB, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
    else:
        raise CheckError("build failed:\n" + r.stdout[-6000:])
    lock.close()
    log("built %s in %.1fs" % (" ".join(targets), time.time() - t0))


# ------------------------------------------------------------------- driving
def _drive(driver, cases, path, env=None, timeout=600):
    """Run one script (list of cases); returns the list of trace events.

    A death of the driver becomes an event {"op": "died"} at the place of the
    command that killed it, and the run resumes with the next case."""
    script, out = path + ".script", path + ".out"
    owner = []
    with open(script, "w") as f:
        for ci, case in enumerate(cases):
            for cmd in case:
                f.write(json.dumps(cmd) + "\n")
                owner.append(ci)
    events, start, deaths = [], 0, 0
    t_end = time.time() + timeout
    while True:
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run([os.path.join(HB, driver), script, out, str(start)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env,
                               timeout=max(5, t_end - time.time()))
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s ran out of its %ds" % (driver, timeout))
        if r.returncode == 2:
            raise CheckError("driver %s refused the script: %s" % (driver, r.stderr[-500:]))
        got = []
        if os.path.exists(out):
            with open(out, "rb") as f:
                data = f.read()
            for line in data.split(b"\n"):
                if line:
                    try:
                        got.append(json.loads(line.decode("utf-8", "replace")))
                    except ValueError:
                        break
        for k, ev in enumerate(got):
            events.append((owner[start + k], ev))
        start += len(got)
        if r.returncode == 0:
            if start != len(owner):
                raise CheckError("driver %s stopped early" % driver)
            break
        # the command at index `start` killed the driver
        ci = owner[start]
        sig = -r.returncode if r.returncode < 0 else r.returncode
        what = {14: "timeout", 11: "segfault", 6: "abort"}.get(sig, "signal %d" % sig)
        events.append((ci, {"op": "died", "how": what, "cmd": cases[ci][start - owner.index(ci)]}))
        while start < len(owner) and owner[start] == ci:
            start += 1
        deaths += 1
        # Enough to report; what is left of this script is not run.
        if start >= len(owner) or deaths >= 3:
            break
    for p in (script, out):
        if os.path.exists(p):
            os.remove(p)
    return events


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), mem="3g", cwd=None, dump_ok=False):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)),
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, "-noGenerateSpecTE"] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s (%s)" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


class Checker:
    """One property check: collects coverage, reports violations, writes evidence."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.violations = [], [], []
        self.models, self.parts, self.known = [], {}, []
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # -- the design level: exhaustive model checking of the specification
    def model(self, module, cfg, workers=JOBS, timeout=600, expect=None, extra=(), mem="8g"):
        t = time.time()
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, mem=mem)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s/%s failed:\n%s" % (module, cfg, out[-3000:]))
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct_states": dist,
                            "states_generated": gen, "wall_s": round(time.time() - t, 1)})
        log("model %s (%s): %d states, %d distinct, %.1fs" % (module, cfg, gen, dist, time.time() - t))
        return out

    # -- a configuration that depends on the tier
    def config(self, name, text):
        path = os.path.join(self.tmp, name + ".cfg")
        with open(path, "w") as f:
            f.write(text)
        return path

    # -- behaviours generated by TLC from a specification, printed as JSON
    @staticmethod
    def scripts(out, tag="SCRIPT"):
        seen = {}
        for m in re.finditer(r'^<<"%s", "(.*)">>\s*$' % tag, out, re.M):
            seen.setdefault(m.group(1))
        return [json.loads(s.encode().decode("unicode_escape") if "\\" in s else s) for s in seen]

    def generate(self, module, cfg, num=None, depth=None, tag="SCRIPT", timeout=300, workers=1, extra=()):
        ex = list(extra)
        if num:
            ex += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, extra=ex)
        scripts = self.scripts(out, tag)
        if not scripts:
            raise CheckError("generator %s produced nothing:\n%s" % (module, out[-2000:]))
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen,
                            "behaviours": len(scripts)})
        self.parts["generated_by_" + module] = self.parts.get("generated_by_" + module, 0) + len(scripts)
        log("generator %s: %d behaviours" % (module, len(scripts)))
        return scripts

    # -- the conformance level
    def conform(self, label, driver, cases, module, cfg, chunk=None, env=None, project=None, max_report=3, mem="3g", timeout=800):
        """Run the cases against the real code and validate the traces."""
        t = time.time()
        if not cases:
            return
        if self.thorough:
            chunk = chunk or max(1, min(400, (len(cases) + JOBS - 1) // JOBS))
        else:
            chunk = chunk or max(1, (len(cases) + JOBS - 1) // JOBS)
        chunks = [cases[k:k + chunk] for k in range(0, len(cases), chunk)]

        def work(k):
            ev = _drive(driver, chunks[k], os.path.join(self.tmp, "%s_%d" % (label, k)), env=env)
            if project:
                ev = [(ci, project(e)) for ci, e in ev]
            bad = []
            skip = set()
            total_states = 0
            while True:
                live = [(ci, e) for ci, e in ev if ci not in skip]
                ok, pos, st, tail = self._validate(live, module, cfg, "%s_%d" % (label, k), mem, timeout)
                total_states += st
                if ok:
                    break
                ci = live[pos][0]
                skip.add(ci)
                bad.append((ci, live[pos][1], tail))
                if len(bad) >= max_report:
                    break
            return len(ev), total_states, bad

        nbad = 0
        with ThreadPoolExecutor(JOBS) as ex:
            for k, (nev, st, bad) in enumerate(ex.map(work, range(len(chunks)))):
                self.events += nev
                self.transitions += st
                self.states += st
                for ci, ev, tail in bad:
                    nbad += 1
                    if len(self.violations) < 5:
                        self._confirm(label, driver, chunks[k][ci], module, cfg, env, project)
        self.traces += len(cases)
        self.parts[label] = self.parts.get(label, 0) + len(cases)
        if len(self.samples) < 6:
            self.samples.append({"part": label, "case": _short(self.rng.choice(cases))})
        if self.violations and os.environ.get("VERIF_STOP"):
            log("first violation in %s: %s" % (self.violations[0][1], json.dumps(self.violations[0][2])[:400]))
            os._exit(1)
        log("conform %s: %d cases, %s, %.1fs%s" % (label, len(cases), module, time.time() - t,
                                                    ", %d REJECTED" % nbad if nbad else ""))

    def _validate(self, evs, module, cfg, name, mem="3g", timeout=800):
        if not evs:
            return True, 0, 0, ""
        path = os.path.join(self.tmp, name + ".ndjson")
        with open(path, "w") as f:
            for _, e in evs:
                if e.get("op") == "compile":
                    e = {k: v for k, v in e.items() if k not in ("text", "pipes", "keep")}
                f.write(json.dumps(e) + "\n")
        rc, out = tlc(module, cfg, env={"TRACE": path}, workers=1, mem=mem, timeout=timeout)
        gen, dist = tlc_stats(out)
        os.remove(path)
        if rc == 0 and "No error has been found" in out:
            return True, 0, dist, ""
        m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', out)
        if m:
            return False, int(m.group(1)), dist, ""
        # An evaluation error while matching an event: the recorded values lie
        # outside the domain of the specification, so no action explains them.
        if "The behavior up to this point is" in out and re.search(
                r"Attempted to|was evaluating|In evaluation|Evaluating", out):
            n = [int(x) for x in re.findall(r"^State (\d+):|^(?:/\\\\ )?STATE (\d+)", out, re.M) for x in x if x]
            if n and 1 <= max(n) <= len(evs):
                return False, max(n) - 1, dist, out[-1500:]
        raise CheckError("trace validation of %s failed to run:\n%s" % (name, out[-3500:]))

    def _confirm(self, label, driver, case, module, cfg, env, project):
        """Re-run a rejected case alone; a rejection counts only if it repeats
        (code that runs in parallel may need some attempts to repeat it)."""
        seen = []
        for k in range(12):
            ev = _drive(driver, [case], os.path.join(self.tmp, "confirm_%s" % label), env=env)
            if project:
                ev = [(ci, project(e)) for ci, e in ev]
            ok, pos, _, _ = self._validate(ev, module, cfg, "confirm_" + label)
            if not ok:
                seen.append((pos, ev[pos][1]))
            if len(seen) == 2 or k >= 3 and not seen and not any(e.get("threads") for e in case):
                break
        if len(seen) < 2:
            log("rejection in %s did not repeat; not reported" % label)
            self.parts["unrepeated_rejections"] = self.parts.get("unrepeated_rejections", 0) + 1
            return
        pos, ev = seen[0]
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_%d.json" % (self.pid, label, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "driver": driver, "module": module, "cfg": cfg,
                       "case": case, "rejected_at": pos, "event": ev}, f, indent=1)
        self.violations.append((path, label, ev))

    def run_known(self, label, driver, case, module, cfg, what, env=None, project=None):
        """Replay a recorded finding; prints KNOWN-FINDING while it still fails."""
        ev = _drive(driver, [case], os.path.join(self.tmp, "known_%s" % label), env=env)
        if project:
            ev = [(ci, project(e)) for ci, e in ev]
        ok, pos, _, _ = self._validate(ev, module, cfg, "known_" + label)
        if not ok:
            self.known.append(what)
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
        else:
            log("recorded finding no longer fails: " + what)

    def finish(self, level="model_checking", extra=None):
        shutil.rmtree(self.tmp, ignore_errors=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "trace_events": self.events, "design_models": self.models,
                           "parts": self.parts, "known_findings": self.known,
                           "samples": self.samples or ["none"]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        ev["coverage"].update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for path, label, e in self.violations:
                log("rejected (%s): %s" % (label, json.dumps(e)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][0]), flush=True)
            return 1
        log("%s: held on everything explored (%d traces, %d events, %.1fs)"
            % (self.pid, self.traces, self.events, time.time() - self.t0))
        return 0


def _short(case, limit=6):
    c = case[:limit]
    if len(case) > limit:
        c = c + ["... %d more" % (len(case) - limit)]
    return c
