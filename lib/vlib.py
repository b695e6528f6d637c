"""Machinery shared by all checks: TLC runs, building and running the driver, trace validation, verdicts."""
import itertools
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check could not do its work: neither 'held' nor 'violated'."""


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    godir = "/opt/veriftools/go1.27.3/bin"
    if not os.path.isdir(godir):
        g = shutil.which("go")
        godir = os.path.dirname(g) if g else godir
    e["PATH"] = godir + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off", GOWORK="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.clear_replays()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.states = self.transitions = 0
        self.models = []
        self.traces = self.events = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.exhaustive = None
        self.explain = []
        self._drv = {}
        self.n = itertools.count(1)
        try:
            self.known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
        except FileNotFoundError:
            self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def clear_replays(self):
        d = os.path.join(ROOT, "evidence", "replay")
        for f in os.listdir(d) if os.path.isdir(d) and self.tier in ("quick", "thorough") else []:
            if f.startswith("%s-%s-" % (self.pid, self.tier)):
                os.remove(os.path.join(d, f))

    def path(self, name):
        return os.path.join(self.tmp, "%d-%s" % (next(self.n), name))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=600, heap="4g"):
        """Run TLC on spec/<module>.tla; cfg is a file name under spec/ or the text of a configuration."""
        if "\n" in cfg:
            p = self.path(module + ".cfg")
            open(p, "w").write(cfg)
            cfg = p
        else:
            cfg = os.path.join(SPEC, cfg)
        meta = self.path("meta")
        e = dict(os.environ)
        e.setdefault("PROP", self.pid)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        jtmp = self.path("jtmp")
        os.makedirs(jtmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + jtmp, "-cp", TLA,
               "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise Infra("TLC on %s did not finish in %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(jtmp, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", r.stdout)
            if m:
                gen = int(m[-1])
        return dict(rc=r.returncode, out=r.stdout, generated=gen, distinct=dis)

    def model_check(self, module, cfg, workers=8, timeout=600, args=(), env=None, unused=()):
        """Check the specification itself; an error there is an error of this machinery, not of the code."""
        t = time.time()
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, args=["-coverage", "1", *args], env=env)
        if r["rc"] != 0:
            raise Infra("model checking of %s failed:\n%s" % (module, r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        acts = {}
        for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", r["out"], re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
        dead = [a for a, c in acts.items() if c == 0 and a not in unused]
        if dead:
            raise Infra("actions of %s never taken: %s" % (module, dead))
        self.models.append(dict(module=module, distinct=r["distinct"], generated=r["generated"], actions=acts,
                                seconds=round(time.time() - t, 1)))
        self.log("TLC %s: %d distinct states, %d generated" % (module, r["distinct"], r["generated"]))
        return r

    def generate(self, module, cfg, simulate=None, depth=60, workers=1, timeout=300, seed=None, env=None):
        """Behaviours of the specification, printed by it as SCN <json>.  They count as explored states too."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, workers=workers, args=args, timeout=timeout, env=env)
        if r["rc"] != 0:
            raise Infra("generation from %s failed:\n%s" % (module, r["out"][-3000:]))
        out, seen = [], set()
        for line in r["out"].splitlines():
            line = line.strip()
            if line.startswith('"SCN '):
                line = json.loads(line)
            if line.startswith("SCN "):
                if line not in seen:
                    seen.add(line)
                    out.append(json.loads(line[4:]))
        self.transitions += r["generated"]
        self.states += r["distinct"]
        self.log("TLC %s: %d behaviours generated" % (module, len(out)))
        if not out:
            raise Infra("%s generated no behaviour:\n%s" % (module, r["out"][-2000:]))
        return out

    # --------------------------------------------------------------- driver
    def driver(self, race=False):
        name = "drv-race" if race else "drv"
        if name in self._drv:
            return self._drv[name]
        src = os.path.join(self.tmp, "harness-" + name)
        shutil.copytree(os.path.join(ROOT, "harness"), src)
        if REPO != "/repo":
            gm = os.path.join(src, "go.mod")
            txt = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(txt)
        drv = os.path.join(self.tmp, name)
        t = time.time()
        r = subprocess.run(["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", drv, "."], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Infra("building the driver against %s failed:\n%s" % (REPO, r.stdout[-4000:]))
        self.log("driver built%s in %.1fs" % (" with the race detector" if race else "", time.time() - t))
        self._drv[name] = drv
        return drv

    def run_driver(self, area, scenarios, par=8, timeout=600, env=None, procs=1, race=False):
        """Run the scenarios against the real code; returns one event list per scenario.

        procs > 1: that many driver processes, each with the scenarios i, i+procs, ... (par at a time in each)."""
        drv = self.driver(race)
        if race:
            par = 1
        if procs > 1:
            parts = [scenarios[i::procs] for i in range(procs)]
            with ThreadPoolExecutor(procs) as ex:
                res = list(ex.map(lambda p: self.run_driver(area, p, par, timeout, env, race=race) if p else [], parts))
            return [res[i % procs][i // procs] for i in range(len(scenarios))]
        inp = self.path("scn.json")
        json.dump(scenarios, open(inp, "w"))
        out = [[] for _ in scenarios]
        done = [False] * len(scenarios)
        todo = None           # None: all at once; then one by one

        def once(only=None):
            log = self.path("events.ndjson")
            cmd = [drv, "-in", inp, "-out", log, "-par", str(par)]
            if only is not None:
                cmd += ["-only", str(only)]
            e = go_env()
            e["GOTRACEBACK"] = "all"
            if race:
                e["VERIF_RACE_LOG"] = self.path("race")
                e["GORACE"] = "log_path=%s exitcode=0 atexit_sleep_ms=0" % e["VERIF_RACE_LOG"]
            e.update(env or {})
            try:
                r = subprocess.run(cmd + [area], cwd=self.tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=timeout, text=True, errors="replace")
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired as x:
                rc, err = "timeout", (x.stderr or b"").decode(errors="replace") if isinstance(x.stderr, bytes) else str(x.stderr)
            evs, fin, started = {}, set(), set()
            if os.path.exists(log):
                for line in open(log):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue      # the last line of a killed driver
                    if "e" in d:
                        evs.setdefault(d["i"], []).append(d["e"])
                    elif d.get("end"):
                        fin.add(d["i"])
                    elif d.get("skip"):
                        fin.add(d["i"])
                        evs[d["i"]] = None
                    elif d.get("start"):
                        started.add(d["i"])
            return rc, err, evs, fin, started

        rc, err, evs, fin, started = once()
        for i in fin:
            out[i], done[i] = evs.get(i, []), True
        if rc == 3:
            raise Infra("driver: " + err[-1500:])
        if rc == "timeout":
            raise Infra("driver did not finish within %ds; unfinished: %s" % (timeout, [i for i in range(len(done)) if not done[i]][:10]))
        if rc != 0:
            # the whole process died: find out in which scenarios it does so on its own
            self.log("driver process died (exit %s); running its open scenarios one by one" % rc)
            self.log(err[-1500:])
            crashes, t = 0, time.time()
            for i in range(len(scenarios)):
                if done[i]:
                    continue
                if crashes >= 4 or (crashes and time.time() - t > 100):
                    out[i], done[i] = None, True      # enough is known
                    continue
                rc, err, evs, fin, _ = once(i)
                if rc == 3 or rc == "timeout":
                    raise Infra("driver, scenario %d: %s %s" % (i, rc, err[-1500:]))
                out[i] = evs.get(i, [])
                done[i] = True
                if rc != 0:
                    crashes += 1
                    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
                    out[i].append({"ev": "crash", "msg": m.group(1) if m else "exit %s" % rc})
        if not all(done):
            raise Infra("driver left scenarios unfinished")
        return out

    # ----------------------------------------------------------- validation
    def validate(self, module, traces, cfg="Trace.cfg", env=None, batch=300, timeout=600):
        """How far each trace can be followed in the specification: list of the number of accepted events."""
        groups, g, size = [], [], 0
        for i, tr in enumerate(traces):
            g.append(i)
            size += len(tr)
            if len(g) >= batch or size > 25000:
                groups.append(g)
                g, size = [], 0
        if g:
            groups.append(g)

        def one(g):
            tf, rf = self.path("traces.json"), self.path("result.json")
            json.dump([traces[i] for i in g], open(tf, "w"))
            e = dict(env or {})
            e.update(TRACES=tf, RESULT=rf)
            r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap="3g")
            if r["rc"] != 0 or not os.path.exists(rf):
                if len(g) == 1:
                    raise Infra("trace validation with %s failed:\n%s\n%s" % (module, r["out"][-3000:], json.dumps(traces[g[0]])[:3000]))
                h = len(g) // 2
                a, b = one(g[:h]), one(g[h:])
                return a + b
            self.states += r["distinct"]
            self.transitions += r["generated"]
            return json.load(open(rf))

        res = [0] * len(traces)
        with ThreadPoolExecutor(4) as ex:
            for g, r in zip(groups, ex.map(one, groups)):
                for i, v in zip(g, r):
                    res[i] = v - 1
        return res

    def conform(self, area, module, scenarios, par=8, timeout=800, relax=None, drv_env=None, env=None, keep_samples=2,
                cfg="Trace.cfg", batch=300, confirm=4, procs=1, race=False):
        """Run scenarios on the real code and validate what was observed.

        relax(scenario) gives a version of the scenario with more generous timing; a rejection counts only if it
        shows again in one of a few reruns of the scenario, with relax applied."""
        if self.violations:
            return []
        t = time.time()
        evs = self.run_driver(area, scenarios, par=par, timeout=timeout, env=drv_env, procs=procs, race=race)
        scenarios, evs = [s for s, e in zip(scenarios, evs) if e is not None], [e for e in evs if e is not None]
        t2 = time.time()
        acc = self.validate(module, evs, cfg=cfg, env=env, batch=batch)
        bad = [i for i in range(len(scenarios)) if acc[i] < len(evs[i]) or not evs[i]]
        self.log("%s: %d scenarios run in %.1fs, validated with %s in %.1fs, %d rejected" %
                 (area, len(scenarios), t2 - t, module, time.time() - t2, len(bad)))
        for i in bad:
            if not evs[i]:
                raise Infra("scenario %d of %s recorded nothing" % (i, area))
        final = []
        if bad:
            # confirm (a bounded number of) rejections: several reruns of each, undisturbed and with generous timing
            if os.environ.get("VERIF_KEEP"):
                for i in bad:
                    json.dump(dict(scenario=scenarios[i], accepted_prefix=acc[i], events=evs[i]),
                              open("%s/rejected-%s-%d.json" % (os.environ["VERIF_KEEP"], self.pid, i), "w"), indent=1)
            for cand in (bad[:12], bad[12:24]):
                again = [relax(scenarios[i]) if relax else scenarios[i] for i in cand for _ in range(confirm)]
                evs2 = self.run_driver(area, again, par=min(par, 4), timeout=timeout, env=drv_env, procs=min(procs, 4), race=race)
                some = [k for k in range(len(again)) if evs2[k]]
                acc2 = [0] * len(again)
                for k, v in zip(some, self.validate(module, [evs2[k] for k in some], cfg=cfg, env=env, batch=batch)):
                    acc2[k] = v
                evs2 = [e or [] for e in evs2]
                got = set()
                for k in range(len(again)):
                    if acc2[k] < len(evs2[k]) and k // confirm not in got:
                        got.add(k // confirm)
                        final.append((again[k], evs2[k], acc2[k]))
                if final:
                    break
                self.log("rejections did not show again: not counted: %s" % [evs[i][acc[i]] for i in cand[:3]])
                if len(bad) <= 12:
                    break
        self.traces += len(scenarios) - len(bad)
        self.events += sum(len(e) for e in evs)
        ok = [i for i in range(len(scenarios)) if i not in set(bad)]
        for i in ok[:1] + ok[len(ok) // 2:len(ok) // 2 + max(keep_samples - 1, 0)]:
            self.samples.append(dict(area=area, scenario=scenarios[i], events=evs[i][:40]))
        for sc, e, a in final:
            self.violation(area, module, sc, e, a, race)
        return evs

    def violation(self, area, module, sc, events, acc, race=False):
        nxt = events[acc] if acc < len(events) else None
        for k in self.known:
            if k.get("property") == self.pid and k.get("status") == "open" and self._matches(k, area, sc, nxt):
                self.known_hits.append(k)
                return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, len(self.violations) + 1))
        json.dump(dict(property=self.pid, area=area, module=module, scenario=sc, race=race, accepted_prefix=acc,
                       rejected_event=nxt, events=events), open(p, "w"), indent=1)
        self.violations.append(p)
        self.log("REJECTED by %s: scenario %s\n   after %d events: next %s\n   preceded by %s" %
                 (module, json.dumps(sc)[:600], acc, json.dumps(nxt)[:600], json.dumps(events[max(0, acc - 3):acc])[:900]))

    @staticmethod
    def _matches(k, area, sc, nxt):
        m = k.get("match", {})
        if m.get("area") != area:
            return False
        if any(sc.get(f) != v for f, v in m.get("scenario", {}).items()):
            return False
        return nxt is not None and all(nxt.get(f) == v for f, v in m.get("event", {}).items())

    # -------------------------------------------------------------- verdict
    def finish(self):
        ids = []
        for k in self.known_hits:
            if k["id"] not in ids:
                ids.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_validated=self.events,
                                models=self.models, samples=self.samples[:8],
                                explanation="; ".join(self.explain)),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        self.log("done: %d traces, %d violations" % (self.traces, len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
