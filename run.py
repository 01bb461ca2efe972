#!/usr/bin/env python3
"""Check runner: run.py ID [--tier quick|thorough]

Rebuilds everything it needs from /repo's current tree in a fresh directory, lets the analyzer
decide, compares with known_findings.txt, writes evidence/ID.json and exits 0 or 1."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GIF_REPO", "/repo")
GIFSA = os.path.join(HERE, "analyzer/target/release/gifsa")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TRUSTED = [
    "gifsa: abstract interpreter of rustc MIR (analyzer/src), including its models of std, alloc, weezl and color_quant",
    "rustc (nightly 1.101): type checking, MIR construction",
    "contracts assumed of Read implementations (at most buf.len() bytes are reported as read)",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def nightly_lib():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return r.stdout.strip() + "/lib"


def build_analyzer():
    if os.path.exists(GIFSA):
        src = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(HERE, "analyzer/src")) for f in fs)
        if os.path.getmtime(GIFSA) >= src:
            return None
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(HERE, "analyzer"))
    if r.returncode != 0:
        return "analyzer does not build: " + r.stderr[-2000:]
    return None


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = CHECKS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = os.path.join(HERE, ".work", f"run-{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.findings = []   # dicts: key, text, detail
        self.coverage = {}
        self.assumptions = []
        self.level = self.spec["level"]

    def violation(self, key, text, detail=None):
        self.findings.append({"key": key, "text": text, "detail": detail})

    # ---- building
    def build(self, feature):
        """Compile the library and the harness with the analyzer; returns dir or None"""
        d = os.path.join(self.work, feature)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=nightly_lib(), GIFSA_DIR=d, RUSTC_WRAPPER=GIFSA, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = sh(["cargo", "+nightly", "check", "--offline", "--locked", "--features", feature], cwd=os.path.join(HERE, "harness"), env=env)
        if r.returncode != 0 or not os.path.exists(d + "/harness.args"):
            errs = [l for l in r.stderr.splitlines() if l.startswith("error")][:3]
            self.violation("build", "the library or the analysis harness does not compile against it: " + "; ".join(errs), r.stderr[-4000:])
            return None
        return d

    # ---- kinds of checks
    def engine(self):
        sp = self.spec
        entries = [e for e in sp["entries"] if self.tier == "thorough" or not e.get("thorough")]
        feats = sorted({e.get("feature", "full") for e in entries})
        dirs = {}
        for f in feats:
            dirs[f] = self.build(f)
            if dirs[f] is None:
                return
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = nightly_lib()
        limit = 700 if self.tier == "quick" else 3000
        env["GIFSA_SECS"] = str(limit)

        def one(e):
            f = e.get("feature", "full")
            out = os.path.join(self.work, f"{f}-{e['name']}.json")
            try:
                r = sh([GIFSA, "--run", dirs[f] + "/harness.args", out, e["name"]], env=env, timeout=limit + 60)
            except subprocess.TimeoutExpired:
                return e, None, "timeout"
            if not os.path.exists(out):
                return e, None, f"analyzer failed ({r.returncode}): " + r.stderr[-1500:]
            return e, json.load(open(out))[0], r.stderr[-500:]

        with ThreadPoolExecutor(max_workers=8) as ex:
            results = list(ex.map(one, entries))
        ob = dis = 0
        detail, fns, models, opaque, reached, loops, psites = [], set(), set(), set(), set(), set(), set()
        asites = set()
        for e, o, err in results:
            nm = f"{e.get('feature', 'full')}:{e['name']}"
            if o is None:
                self.violation(f"{nm}:error", f"no result for entry {nm}: {err[:300]}", err)
                continue
            if o.get("incomplete"):
                self.violation(f"{nm}:incomplete", f"the analysis of {nm} cannot establish the property: {o['incomplete'][:400]}", o)
            mine = [x for x in o.get("findings", []) if x["prop"] == self.pid or e.get("all")]
            for x in mine:
                short = re.sub(r"^.*/src/", "src/", x["loc"])
                self.violation(f"{nm}:{x['kind']}:{x['msg']}:{x['func']}", f"{x['msg']} [{x['kind']}] in {x['func']} at {short} (entry {nm})", x)
            for t in e.get("reach", []):
                if t not in o.get("reached", []) and not o.get("incomplete"):
                    self.violation(f"{nm}:unreached:{t}", f"the point '{t}' of entry {nm} is not reachable any more, so the property is not exercised", o.get("reached"))
            for t in e.get("fns", []):
                if not any(t in f for f in o.get("gif_fns", [])) and not o.get("incomplete"):
                    self.violation(f"{nm}:anchor:{t}", f"{t} is not analysed from entry {nm} any more")
            pr = o.get("proved", {}).get(self.pid, 0)
            if pr < e.get("min", 1) and not o.get("incomplete") and not mine:
                self.violation(f"{nm}:vacuous", f"only {pr} obligations of {self.pid} arise from entry {nm}, expected at least {e.get('min', 1)}")
            ob += pr + len(mine)
            dis += pr
            fns.update(o.get("gif_fns", []))
            models.update(o.get("models", []))
            opaque.update(o.get("opaque", []))
            reached.update(o.get("reached", []))
            loops.update(o.get("loops", []))
            psites.update(o.get("panic_sites", []))
            asites.update(o.get("alloc_sites", []))
            detail.append({"entry": nm, "ms": o.get("ms"), "abstract_steps": o.get("steps"), "joins": o.get("joins"), "symbols": o.get("syms"), "proved": pr,
                           "obligation_kinds": o.get("obligations", {}).get(self.pid, []), "end_states": o.get("ends")})
        self.coverage.update(obligations=ob, discharged=dis, checker_cmd=f"python3 run.py {self.pid} --tier {self.tier}", trusted_base=TRUSTED,
                             rule=sp["rule"], entries=detail, functions=sorted(fns), loops=sorted(loops), reached=sorted(reached), std_models=sorted(models), opaque_callees=sorted(opaque))
        if self.pid in ("P01", "P12"):
            self.coverage["panic_sites"] = sorted(psites)
        if self.pid == "P05":
            self.coverage["allocation_sites"] = sorted(asites)

    def rules(self):
        d = self.build("full")
        if d is None:
            return
        o = json.load(open(d + "/rules.json"))
        for x in o["findings"]:
            if x["prop"] == self.pid:
                short = re.sub(r"^.*/src/", "src/", x["loc"])
                self.violation(f"{x['msg']}:{x['func']}", f"{x['msg']} in {x['func']} at {short}", x)
        st = {k.split(".", 1)[1]: v for k, v in o["stats"].items() if k.startswith(self.pid + ".")}
        for k, n in self.spec.get("floors", {}).items():
            v = st.get(k, [])
            m = int(v[0]) if len(v) == 1 and v[0].isdigit() else len(v)
            if m < n:
                self.violation(f"floor:{k}", f"the analysis covered only {m} {k}, expected at least {n}")
        self.coverage.update(explanation=self.spec["rule"], analysed=st)

    def witness(self):
        d = os.path.join(self.work, "witness")
        env = dict(os.environ, CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        env.pop("RUSTC_WRAPPER", None)

        def check(extra):
            r = sh(["cargo", "+stable", "check", "--offline", "--locked", "--message-format=json"] + extra, cwd=os.path.join(HERE, "witness"), env=env)
            errs = []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["message"].get("spans"):
                    s = m["message"]["spans"][0]
                    errs.append({"pkg": m["package_id"], "code": (m["message"].get("code") or {}).get("code"), "msg": m["message"]["message"], "rendered": m["message"]["rendered"],
                                 "line": s["line_start"], "file": s["file_name"], "text": s["text"][0]["text"].strip() if s.get("text") else ""})
            return r, errs
        r, errs = check([])
        if r.returncode != 0:
            for x in errs or [{"msg": r.stderr[-300:], "code": None, "text": "", "rendered": r.stderr[-3000:]}]:
                self.violation(f"{x['code']}:{x['text'][:120]}", f"{x['msg']} (witness: {x['text'][:120]})", x["rendered"])
        r2, errs2 = check(["--features", "canary"])
        got = {m.group(1) for x in errs2 for m in [re.search(r"canary_(\w+)\(", x["text"])] if x["code"] == "E0277" and m}
        if r.returncode == 0 and got != {"send", "sync"}:
            self.violation("canary", f"the assertions accept types that are not Send/Sync: rejected only {sorted(got)}", r2.stderr[-2000:])
        src = open(os.path.join(HERE, "witness/src/lib.rs")).read()
        types = re.findall(r"(?:send|sync|owned|error)::<([^;{}]+?)>\(\)", src) + re.findall(r"^    \w+: ([^;]+);$", src, re.M)
        types = sorted({t for t in types if t != "$t" and "Shared" not in t})
        self.coverage.update(explanation=self.spec["rule"], types=types, obligations=len(types), discharged=len(types) - len({x['text'] for x in errs}) if r.returncode == 0 or errs else 0, checker_cmd="cargo +stable check", trusted_base=["the trait solver of rustc (stable)"], rejected_by_canary=sorted(got))

    # ---- reporting
    def known(self):
        ks = []
        p = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(.*?) :: (.*)$", l.strip())
                if m and m.group(1) == self.pid:
                    ks.append((m.group(2), m.group(3)))
        return ks

    def finish(self):
        known = self.known()
        bad = []
        for f in self.findings:
            k = next((k for k in known if k[0] == f["key"]), None)
            if k:
                print(f"KNOWN-FINDING: property={self.pid} {k[1]}")
            else:
                bad.append(f)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.coverage or {"explanation": "no analysis was completed"},
              "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        if self.level == "proof":
            for k, v in (("obligations", 0), ("discharged", 0), ("checker_cmd", f"python3 run.py {self.pid}"), ("trusted_base", TRUSTED)):
                ev["coverage"].setdefault(k, v)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if bad:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", self.pid + ".json")
            json.dump(bad, open(rp, "w"), indent=1, default=str)
            for f in bad[:20]:
                print("  " + f["text"])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} wall_s={ev['wall_s']}")
        return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    r = Run(pid, tier)
    try:
        e = build_analyzer() if r.spec["kind"] != "witness" else None
        if e:
            r.violation("analyzer", e)
        else:
            getattr(r, r.spec["kind"])()
    except Exception as ex:  # an analysis that fails establishes nothing
        import traceback
        r.violation("internal", f"the check failed: {ex!r}", traceback.format_exc())
    sys.exit(r.finish())


main()
