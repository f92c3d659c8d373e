#!/usr/bin/env python3
"""Runs the check of one property:  check.py C07 [--tier quick|thorough]

A check is a list of jobs (tools/jobs.py).  Kinds of job:
  trace  the driver runs the real code on generated inputs and records a trace; TLC decides whether the trace
         is a behaviour of the specification (one event = one specification step)
  gen    TLC generates behaviours of a model; the driver replays them into the real code, recording what the code
         answered; TLC decides whether the recording is a behaviour of the specification
  mc     TLC explores a small instance of the specification exhaustively (invariants and action properties)
Exit: 0 property held on everything explored; 1 violation (line VIOLATION ...); 2 the machinery itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs as J

CP = ":".join([os.path.join(HERE, "java/build"), "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
SPECS = os.path.join(HERE, "specs")
EVID = os.path.join(HERE, "evidence")
CORES = 8


class Broken(Exception):
    pass


def build():
    """The harness is rebuilt from /repo's working tree every time."""
    if not os.path.exists(os.path.join(HERE, "java/build/Prim.class")):
        os.makedirs(os.path.join(HERE, "java/build"), exist_ok=True)
        subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", "build", "Prim.java"], cwd=os.path.join(HERE, "java"), check=True)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; set -f; cd '%s/harness' && cargo build --offline" % HERE], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise Broken("the harness does not build")
    m = re.search(r"CARGO_TARGET_DIR=(\S+)", open("/opt/vp/env.sh").read())
    return os.path.join(m.group(1).strip('"') if m else os.path.join(HERE, "harness/target"), "debug/vh")


def tlc(spec, cfg, tmp, name, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """Runs TLC on a copy of `spec` under a fresh module name; returns its output."""
    mod = re.sub(r"\W", "_", name)
    text = open(os.path.join(SPECS, spec + ".tla")).read()
    text = re.sub(r"MODULE\s+%s\b" % spec, "MODULE " + mod, text, count=1)
    open(os.path.join(tmp, mod + ".tla"), "w").write(text)
    open(os.path.join(tmp, mod + ".cfg"), "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + SPECS, "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(tmp, "meta_" + mod),
           "-workers", str(workers), "-config", mod + ".cfg", *extra, mod + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + name)
    return r.stdout + r.stderr


def cfg_text(consts, spec=True, post=None, invs=(), props=(), deadlock=False):
    t = "SPECIFICATION Spec\n"
    if not deadlock:
        t += "CHECK_DEADLOCK FALSE\n"
    if post:
        t += "POSTCONDITION %s\n" % post
    for i in invs:
        t += "INVARIANT %s\n" % i
    for p in props:
        t += "PROPERTY %s\n" % p
    for k, v in consts.items():
        t += "CONSTANT %s = %s\n" % (k, v)
    return t


def known_findings():
    """{(property, name): what} of the defects listed as known and unrepaired"""
    rows = [re.match(r"known: property=(\w+) name=([\w-]+) (.*)", l) for l in open(os.path.join(HERE, "known-findings.txt"))]
    return {(m[1], m[2]): m[3] for m in rows if m}


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vcheck-")
        self.states = self.trans = self.traces = self.events = 0
        self.violations, self.samples, self.details = [], [], []
        self.known = set()

    def replay_path(self, tag):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s.ndjson" % (self.prop, tag))

    def violation(self, tag, text, lines):
        p = self.replay_path(tag)
        with open(p, "w") as f:
            f.write(json.dumps({"property": self.prop, "job": tag, "what": text[:2000]}) + "\n")
            for x in lines:
                f.write(x if x.endswith("\n") else x + "\n")
        self.violations.append({"replay": p, "summary": text[:600]})

    # ---- trace and gen jobs: one shard
    def shard(self, vh, job, i):
        tag = "%s-%d" % (job["name"], i)
        seed = (self.seed * 1000003 + i * 7919 + int(hashlib.sha256(job["name"].encode()).hexdigest()[:6], 16)) % (1 << 48)
        trace = os.path.join(self.tmp, tag + ".ndjson")
        n = job["n"][self.tier] if isinstance(job["n"], dict) else job["n"]
        cmd = [vh, job["driver"], "--mode", job.get("mode", ""), "--n", str(n), "--seed", str(seed), "--out", trace]
        if job["kind"] == "gen":
            cmd += ["--in", self.generate(job, i, seed)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=job.get("timeout", 3600 if self.tier == "thorough" else 700), cwd=self.tmp)
        except subprocess.TimeoutExpired:
            raise Broken("driver timed out: " + " ".join(cmd))
        if r.returncode != 0:
            if r.returncode == -9:
                raise Broken("driver was killed")
            last = open(trace).read().splitlines()[-40:] if os.path.exists(trace) else []
            what = "takes ever more memory" if r.returncode == 96 else "does not come back" if r.returncode == 97 else "brought the driver down (exit %d)" % r.returncode
            return dict(tag=tag, bad="the code under test %s: %s" % (what, r.stderr[max(0, r.stderr.find("panicked")):][:1500]), lines=last, cmd=cmd)
        lines = open(trace).read().splitlines()
        if not lines:
            raise Broken("driver recorded nothing: " + " ".join(cmd))
        cfg = cfg_text(job["consts"], post="Accepted")
        out = tlc(job["spec"], cfg, self.tmp, "T_" + re.sub(r"\W", "_", tag), env={"TRACE": trace}, heap=job.get("heap", "2500m"), timeout=3000 if self.tier == "thorough" else 800)
        res = dict(tag=tag, bad=None, events=len(lines), info=(r.stdout.strip().splitlines() or [""])[-1], sample=lines[min(1, len(lines) - 1)][:700], stats=stats(out),
                   inits=sum(1 for x in lines if '"ev":"init"' in x) or 1)
        if "No error has been found" in out:
            for name in set(re.findall(r'<<"KNOWN-FINDING", "([\w-]+)">>', out)):
                if (self.prop, name) not in known_findings():
                    res.update(bad="%s: a step of %s that no known finding covers" % (tag, job["spec"]), lines=lines, cmd=cmd)
                res.setdefault("known", set()).add(name)
            return res
        mism = re.findall(r"<<\s*\"MISMATCH\".*?>>\s*(?=\n<<|\nError|\n[A-Z])", out, re.S)
        m = re.search(r"<<\"REJECTED-AT\", (\d+)>>", out)
        if not m:
            raise Broken("TLC failed on %s:\n%s" % (tag, out[-3000:]))
        at = int(m.group(1))  # events 1..at-1 were accepted
        start = at
        while start > 1 and '"ev":"init"' not in lines[start - 1]:
            start -= 1
        res.update(bad="event %d of %s is not a step of %s: %s" % (at, tag, job["spec"], " ".join(" ".join(mism).split())[:1500]), lines=lines[start - 1:at], cmd=cmd)
        return res

    def generate(self, job, i, seed):
        g = job["gen"]
        out = os.path.join(self.tmp, "%s-%d.gen.ndjson" % (job["name"], i))
        num = g["num"][self.tier]
        txt = tlc(g["spec"], g["cfg"], self.tmp, "G_%s_%d" % (re.sub(r"\W", "_", job["name"]), i), env={"GEN_OUT": out}, heap="2g",
                  extra=["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)])
        if not os.path.exists(out) or os.path.getsize(out) == 0:
            raise Broken("TLC generated no behaviour:\n" + txt[-2000:])
        return out

    def run_traces(self, vh, job):
        k = job.get("shards", CORES)
        if isinstance(k, dict):
            k = k[self.tier]
        with cf.ThreadPoolExecutor(min(k, CORES)) as ex:
            rs = list(ex.map(lambda i: self.shard(vh, job, i), range(k)))
        for r in rs:
            if r["bad"]:
                self.violation(r["tag"], r["bad"] + "  [" + " ".join(map(str, r["cmd"][1:])) + "]", r["lines"])
                continue
            self.known |= r.get("known", set())
            self.traces += r["inits"]
            self.events += r["events"]
            self.trans += r["stats"][0]
            self.states += r["stats"][1]
            if len(self.samples) < 6:
                self.samples.append(r["sample"])
        good = [r for r in rs if not r["bad"]]
        self.details.append({"job": job["name"], "kind": job["kind"], "what": job["what"], "shards": k,
                             "events": sum(r["events"] for r in good), "runs": sum(r["inits"] for r in good),
                             "driver": [r["info"][:1500] for r in good][:2]})

    def run_mc(self, job):
        c = job["tiers"][self.tier] if "tiers" in job else job["consts"]
        cfg = cfg_text(c, invs=job.get("invs", ()), props=job.get("props", ()))
        if job.get("extra_cfg"):
            cfg += job["extra_cfg"] + "\n"
        out = tlc(job["spec"], cfg, self.tmp, "M_" + job["name"], workers=CORES, heap="12g", timeout=5000 if self.tier == "thorough" else 600)
        if "No error has been found" not in out:
            raise Broken("the specification fails its own check %s:\n%s" % (job["name"], out[-4000:]))
        g, d = stats(out)
        self.states += d
        self.trans += g
        self.details.append({"job": job["name"], "kind": "mc", "what": job["what"], "distinct_states": d, "states_generated": g, "constants": c,
                             "checked": list(job.get("invs", ())) + list(job.get("props", ()))})

    def go(self):
        t0 = time.time()
        chk = J.CHECKS[self.prop]
        vh = build()
        for job in chk["jobs"]:
            if job.get("tier") and job["tier"] != self.tier or any(w in v["summary"] for v in self.violations for w in ("does not come back", "ever more memory")):
                continue
            if job["kind"] == "mc":
                self.run_mc(job)
            else:
                self.run_traces(vh, job)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": chk["level"],
            "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                         "samples": self.samples or self.details, "details": self.details, "events_checked": self.events},
            "assumptions": chk.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for name in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, known_findings()[self.prop, name]))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
            print("  " + v["summary"].replace("\n", " "))
        if not self.violations:
            print("%s held: %d events of %d runs validated, %d model states, %.0f s" % (self.prop, self.events, self.traces, self.states, time.time() - t0))
        return 1 if self.violations else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(prop, tier, seed)
    try:
        code = r.go()
    except Broken as e:
        print("BROKEN %s: %s" % (prop, e), file=sys.stderr)
        code = 1 if r.violations else 2
        for v in r.violations:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    finally:
        if not os.environ.get("VKEEP"):
            shutil.rmtree(r.tmp, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
