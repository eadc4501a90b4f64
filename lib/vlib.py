"""Shared machinery of the checks: building the drivers from /repo's working
tree, running them in shards, handing their records to TLC, model checking the
specifications, evidence, verdicts."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check could not be carried out (never a verdict about the code)."""


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.setdefault("OMP_WAIT_POLICY", "passive")
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -999, out


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.viol = []          # (key, what, record)
        self.unrepeated = []
        self.states = self.trans = self.traces = 0
        self.cov = {}
        self.samples = []
        self.models = []
        self.known = load_known(prop)
        self.known_hit = []
        self.assumptions = []

    # ---------------------------------------------------------------- build
    def build(self, src, out=None, defs=(), flags=(), extra=(), cxx="g++", opt="-O1"):
        out = os.path.join(self.work, out or os.path.splitext(os.path.basename(src))[0])
        cmd = [cxx, "-std=c++17", opt, "-g1", "-DNDEBUG", "-fopenmp", "-w",
               *["-D" + d for d in defs], *flags,
               # (the message format of the processes takes addresses one past the end)
               *([] if "hx_dist" in src else ["-D_GLIBCXX_ASSERTIONS"]), "-include", SHIM + "/prelude.h", "-I" + SHIM, "-I" + SHIM + "/mpi",
               "-I" + REPO + "/lib", "-I" + HARN,
               src if os.path.isabs(src) else os.path.join(HARN, src), *extra, "-o", out, "-lpthread"]
        rc, o = sh(cmd, timeout=600)
        if rc != 0:
            raise Infra("build of %s failed:\n%s" % (src, "\n".join(
                [l for l in o.splitlines() if "error" in l][:20] or o.splitlines()[-20:])))
        return out

    def build_sched(self, src, out, defs=(), opt="-O1"):
        """A driver whose memory accesses are scheduling points of sched/."""
        so = os.path.join(self.work, "sched-%s.o" % out)
        rc, o = sh(["g++", "-O2", "-std=c++17", "-w", "-c", os.path.join(VERIF, "sched", "sched.cpp"), "-o", so], timeout=300)
        if rc != 0:
            raise Infra("build of the scheduler failed:\n" + o[-2000:])
        obj = self.build(src, out + ".o", defs=defs, flags=("-fsanitize=thread", "-c"), opt=opt)
        exe = os.path.join(self.work, out)
        rc, o = sh(["g++", obj, so, "-o", exe, "-fopenmp", "-ldl", "-lpthread"], timeout=300)
        if rc != 0:
            raise Infra("linking %s failed:\n%s" % (src, o[-2000:]))
        return exe

    def builds(self, specs):
        def one(*a, **k):
            return (self.build_sched if any("SCHED" in x for x in a[2:]) else self.build)(*a, **k)
        fs = [self.pool.submit(one, *a, **k) for a, k in specs]
        return [f.result() for f in fs]

    # ---------------------------------------------------------------- drivers
    def drive(self, binary, args=(), count=100, secs=30, shards=None, par=None, hard=None, tag="t", mult=1):
        """Runs the driver in shards; count is per shard; returns the records.
        mult: so many times more cases are run, of which only count and the
        ones the driver finds suspicious are recorded for the specification."""
        if mult > 1 and count:
            args = list(args) + ["--keep", count]
            self.cov["cases_run_at_most"] = self.cov.get("cases_run_at_most", 0) + count * mult * (shards or NPROC)
            count *= mult
        shards = shards or NPROC
        files = []

        def one(i):
            f = os.path.join(self.work, "%s-%s-%d.nd" % (os.path.basename(binary), tag, i))
            cmd = [binary, "--seed", str(self.seed), "--shard", str(i), "--nshards", str(shards),
                   "--count", str(count), "--secs", str(secs), "--tier", self.tier, "--out", f,
                   *map(str, args)]
            rc, o = sh(cmd, timeout=hard or secs * 4 + 120)
            return f, rc, o
        ex = cf.ThreadPoolExecutor(par or shards)
        for f, rc, o in ex.map(one, range(shards)):
            if rc != 0:
                raise Infra("driver %s ended with %s: %s" % (binary, rc, o[-800:]))
            files.append(f)
        ex.shutdown()
        recs = []
        for f in files:
            with open(f) as h:
                for l in h:
                    recs.append(json.loads(l))
            os.unlink(f)
        return recs

    def drive_one(self, binary, args, shard, it, tag, secs=120, shards=None):
        f = os.path.join(self.work, "one-%s.nd" % tag)
        cmd = [binary, "--seed", str(self.seed), "--shard", str(shard), "--nshards", str(shards or NPROC),
               "--count", "0", "--only", str(it), "--secs", str(secs), "--tier", self.tier, "--out", f, *map(str, args)]
        sh(cmd, timeout=secs * 4)
        recs = [json.loads(l) for l in open(f)] if os.path.exists(f) else []
        return recs

    def spec_graphs(self):
        """Inputs enumerated by the specification (every small graph)."""
        f = os.path.join(self.work, "given.nd")
        rc, o = self.tlc("GenGraphs.tla", "GenGraphs-%s.cfg" % self.tier, env={"OUT": f}, workers=1)
        if not os.path.exists(f):
            raise Infra("GenGraphs failed: " + o[-2000:])
        self._count(o)
        return f

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, mem="3g", timeout=600, args=(), tag=""):
        md = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + mem,
               "-XX:CICompilerCount=2" if workers == 1 else "-XX:CICompilerCount=4",
               "-Djava.io.tmpdir=" + md,
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *args,
               os.path.join(SPEC, module)]
        rc, o = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        return rc, o

    def _count(self, o):
        m = re.findall(r"^(\d+) states generated, (\d+) distinct", o, re.M)
        if m:
            self.trans += int(m[-1][0])
            self.states += int(m[-1][1])
            return int(m[-1][1])
        m = re.findall(r"(\d+) states (?:generated|checked)", o)
        return int(m[-1]) if m else 0

    def model(self, module, cfg, expect="ok", workers=4, timeout=400, env=None, args=(), what=""):
        """Model checks a specification.  expect="violated" is a vacuity check:
        the weakened machine must break the named property."""
        rc, o = self.tlc(module, cfg, workers=workers, timeout=timeout, mem="6g", env=env, args=args)
        n = self._count(o)
        ok = "No error has been found" in o
        viol = "Deadlock reached" in o or "is violated" in o or "was violated" in o or "properties were violated" in o
        self.models.append({"model": cfg, "states": n, "expected": expect})
        if expect == "ok" and not ok or expect == "violated" and not viol:
            raise Infra("model %s/%s: expected %s\n%s" % (module, cfg, expect, o[-3000:]))
        return o

    def model_bg(self, *a, **k):
        return self.pool.submit(self.model, *a, **k)

    def behaviours(self, module, cfg, num, depth, tagword="HIST", workers=1, timeout=300):
        """Random behaviours of a specification (TLC simulation), or with
        num=0 everything it enumerates, as JSON lines."""
        rc, o = self.tlc(module, cfg, workers=workers, timeout=timeout,
                         args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)) if num else ())
        out = [json.loads(l)[len(tagword) + 1:] for l in re.findall(r'^"%s .*"$' % tagword, o, re.M)]
        if not out or "Error:" in o:
            raise Infra("simulation of %s failed: %s" % (module, o[-2000:]))
        m = re.search(r"number of states generated: (\d+)", o) or re.search(r"^(\d+) states generated", o, re.M)
        self.trans += int(m.group(1)) if m else 0
        self.cov["spec_behaviours_replayed"] = self.cov.get("spec_behaviours_replayed", 0) + len(out)
        f = os.path.join(self.work, module.replace(".tla", "") + ".beh")
        with open(f, "w") as h:
            h.write("\n".join(out) + "\n")
        return f

    def judge(self, module, cfg, recs, cost=None, budget=None, quota=None, env=None, shards=None,
              timeout=800, sus=lambda r: r.get("sus"), strip=(), mem="3g"):
        """TLC decides the records: all suspicious ones, and the others as far
        as the budget (seconds of checker time over all shards) goes."""
        if not recs:
            return []
        shards = shards or NPROC
        cost = cost or (lambda r: 0.01)
        hot = [r for r in recs if sus(r)]
        rest = [r for r in recs if not sus(r)]
        hot.sort(key=cost)
        chosen, spent = [], 0.0
        for r in hot[:400]:
            c = cost(r)
            if budget and chosen and spent + c > 2 * budget:
                break
            chosen.append(r)
            spent += c
        nhot = len(chosen)
        spent = 0.0
        for r in rest:                     # the driver already randomised the order
            c = cost(r)
            if budget and spent + c > budget:
                continue
            chosen.append(r)
            spent += c
            if quota and len(chosen) - nhot >= quota:
                break
        chosen.sort(key=cost, reverse=True)
        parts = [[] for _ in range(shards)]
        load = [0.0] * shards
        for r in chosen:
            k = load.index(min(load))
            parts[k].append(r)
            load[k] += cost(r) + 0.001
        parts = [p for p in parts if p]

        def one(k):
            f = os.path.join(self.work, "judge-%s-%d-%d.nd" % (module, os.getpid(), k))
            f = f.replace(".tla", "")
            with open(f, "w") as h:
                for r in parts[k]:
                    h.write(json.dumps({a: b for a, b in r.items() if a not in strip}, separators=(",", ":")) + "\n")
            e = dict(env or {})
            e["TRACE"] = f
            rc, o = self.tlc(module, cfg, env=e, timeout=timeout, mem=mem)
            os.unlink(f)
            return k, o
        ex = cf.ThreadPoolExecutor(len(parts))
        rej = []
        byid = {r["id"]: r for r in chosen}
        for k, o in ex.map(one, range(len(parts))):
            self._count(o)
            m = re.search(r'"JUDGED (\d+) of (\d+)"', o)
            if not m or m.group(1) != m.group(2) or int(m.group(2)) != len(parts[k]) \
                    or "No error has been found" not in o:
                raise Infra("judge %s did not finish:\n%s" % (module, o[-3000:]))
            for line in re.findall(r'^"REJECT (.*)"$', o, re.M):
                rid, cfgname, why = (line.split(" ", 2) + ["", ""])[:3]
                rej.append((byid[rid], cfgname, why))
        ex.shutdown()
        self.traces += len(chosen)
        self.cov["records_recorded"] = self.cov.get("records_recorded", 0) + len(recs)
        self.cov["records_judged_by_tlc"] = self.cov.get("records_judged_by_tlc", 0) + len(chosen)
        self.cov["records_flagged_by_native_triage"] = self.cov.get("records_flagged_by_native_triage", 0) + len(hot)
        for r in chosen[:: max(1, len(chosen) // 2)][:2]:
            if len(self.samples) < 6:
                s = json.dumps(r)
                self.samples.append(r if len(s) < 3000 else s[:3000])
        return rej

    # ---------------------------------------------------------------- verdict
    def reject(self, rec, config, why, key=None):
        """A rejection that stands."""
        what = "%s: %s" % (config, why)
        key = key or "%s|%s" % (config, why)
        for k in self.known:
            if k["match"](rec, config, why):
                if k["text"] not in self.known_hit:
                    self.known_hit.append(k["text"])
                return
        self.viol.append((key, what, rec))

    def finish(self, infra=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rdir = os.path.join(VERIF, "replays")
        lines = []
        seen = set()
        for key, what, rec in self.viol:
            if key in seen or len(lines) >= 8:
                continue
            seen.add(key)
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, "%s-%d.json" % (self.prop, len(lines)))
            with open(f, "w") as h:
                json.dump({"property": self.prop, "what": what, "record": rec, "seed": self.seed,
                           "tier": self.tier}, h)
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, f))
            print("  %s" % what[:600])
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.viol)}
        ev["coverage"].update({"states": self.states, "transitions": self.trans,
                               "traces_validated_against_impl": self.traces,
                               "samples": self.samples or ["none"], "models": self.models,
                               "known_findings_seen": self.known_hit,
                               "unrepeated_abnormal_runs": self.unrepeated[:20]})
        if infra:
            ev["coverage"]["incomplete"] = infra[:2000]
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(tmp, "w") as h:
            json.dump(ev, h, indent=1)
        for t in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for l in lines:
            print(l)
        shutil.rmtree(self.work, ignore_errors=True)
        sys.stdout.flush()


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> match=<json> <text>' lines
    suppress exactly what they name; 'fixed:' lines suppress nothing."""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(f):
        return out
    for l in open(f):
        m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)$", l)
        if not m or m.group(1) != prop:
            continue
        pat = json.loads(m.group(2))

        def match(rec, config, why, pat=pat):
            if "config" in pat and not re.search(pat["config"], config):
                return False
            if "why" in pat and not re.search(pat["why"], why):
                return False
            for k, v in pat.get("rec", {}).items():
                if rec.get(k) != v:
                    return False
            return True
        out.append({"match": match, "text": m.group(3)})
    return out
