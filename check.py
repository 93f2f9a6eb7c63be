#!/usr/bin/env python3
"""Decides one property: contract proofs over /repo's current source (gowp) and
bounded runtime contract checks. Usage: check.py ID [quick|thorough]"""
import json, os, re, subprocess, sys, tempfile, time, glob, shutil, threading, signal, atexit

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
HARD = 840  # seconds; the caller allows 900


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def left():
    return HARD - (time.time() - T0)


LIVE = set()


def run(cmd, cwd, timeout, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    LIVE.add(p.pid)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out
    finally:
        LIVE.discard(p.pid)


def literals():
    """Integer literals of the current source: boundary candidates for inputs."""
    s = set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith(".") and d not in ("asmgen",)]
        for f in files:
            if f.endswith((".go", ".s")) and not f.endswith("_test.go"):
                t = open(os.path.join(root, f), errors="replace").read()
                if f.endswith("params_list.go"):
                    continue
                for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|\d[\d_]*)(?![\w.])", t):
                    try:
                        v = int(m.group(1).replace("_", ""), 0)
                    except ValueError:
                        continue
                    if v < 1 << 64:
                        s.add(v)
    return ",".join(str(v) for v in sorted(s)[:400])


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cfg = json.load(open(os.path.join(V, "checks.json")))[pid]
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.fails = []      # concrete failures
        self.stats = []
        self.report = None
        self.notes = []
        self.dict = literals()

    # ---------- runtime contracts ----------
    def overlay(self, pkg):
        r = {f"{REPO}/internal/zzverif/rt.go": f"{V}/rt/internal/zzverif/rt.go",
             f"{REPO}/internal/zzverif/ops/ops.go": f"{V}/rt/internal/zzverif/ops/ops.go",
             f"{REPO}/internal/zzverif/ops/objs.go": f"{V}/rt/internal/zzverif/ops/objs.go"}
        fs = glob.glob(f"{V}/rt/{pkg}/common_test.go")
        todo, seen = [self.pid.lower()], set()
        while todo:     # the files of the property, and of those it names in "// needs:"
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for f in glob.glob(f"{V}/rt/{pkg}/{p}_*.go"):
                fs.append(f)
                for m in re.findall(r"^// needs: (.*)$", open(f).read(), re.M):
                    todo += m.split()
        for f in fs:
            r[f"{REPO}/{pkg}/zz_verif_{os.path.basename(f)}"] = f
        p = os.path.join(self.tmp, "ov_" + pkg.replace("/", "_") + ".json")
        json.dump({"Replace": r}, open(p, "w"))
        return p

    def build_rt(self):
        self.bins = []
        jobs = []
        for pkg in self.cfg.get("rt", []):
            ov = self.overlay(pkg)
            for tag in ("", "purego"):
                o = os.path.join(self.tmp, f"rt_{pkg.replace('/', '_')}_{tag or 'default'}.test")
                jobs.append((pkg, tag, o, ["go", "test", "-c", "-vet=off", "-overlay", ov, "-tags", tag, "-o", o, "./" + pkg]))
        errs = []

        def go(j):
            rc, out = run(j[3], REPO, 300)
            if rc != 0:
                errs.append((j, rc, out))
            else:
                self.bins.append((j[0], j[1], j[2]))
        ths = [threading.Thread(target=go, args=(j,)) for j in jobs]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            j, rc, out = errs[0]
            # does the repository itself build?
            rc2, out2 = run(["go", "build", "./..."], REPO, 200)
            print("harness build failed:", out[-3000:], file=sys.stderr)
            if rc2 != 0:
                print("repository does not build:", out2[-2000:], file=sys.stderr)
            sys.exit(2)

    def run_rt(self, tier, seed, race=False):
        jobs = []
        for pkg, tag, b in self.bins:
            if tag == "":
                jobs.append((pkg, "default", b, {}))
                jobs.append((pkg, "cpuoff", b, {"GODEBUG": "cpu.all=off"}))
            else:
                jobs.append((pkg, "purego", b, {}))
        limit = {"quick": 150, "deep": 240, "thorough": 700}[tier]
        limit = min(limit, left() - 20)
        res = []

        def go(j):
            pkg, name, b, ex = j
            ex = dict(ex, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_DICT=self.dict, VERIF_CONFIG=name)
            rc, out = run([b, "-test.run", f"TestVerif{self.pid}", "-test.timeout", f"{int(limit) + 60}s"], os.path.join(REPO, pkg), limit, ex)
            res.append((pkg, name, rc, out))
        ths = [threading.Thread(target=go, args=(j,)) for j in jobs]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for pkg, name, rc, out in res:
            n = 0
            for l in out.splitlines():
                if l.startswith("VERIFSTAT "):
                    d = json.loads(l[10:])
                    d["config"] = name
                    d["package"] = pkg
                    d["tier"] = tier
                    self.stats.append(d)
                elif l.startswith("VERIFFAIL "):
                    d = json.loads(l[10:])
                    d.update(config=name, package=pkg)
                    self.fails.append(d)
                    n += 1
            if rc is None:
                self.fails.append(dict(property=self.pid, check="termination", case=f"{pkg} {name}", failure=f"no result within {int(limit)} s; the code under test does not terminate or is far slower than before\n" + out[-1500:], config=name, package=pkg))
            elif rc != 0 and n == 0:
                self.fails.append(dict(property=self.pid, check="crash", case=f"{pkg} {name}", failure=out[-3000:], config=name, package=pkg))

    # ---------- proofs ----------
    def build_gowp(self):
        self.gowp = os.path.join(self.tmp, "gowp")
        rc, out = run(["go", "build", "-o", self.gowp, "."], os.path.join(V, "gowp"), 300)
        if rc != 0:
            print("cannot build the verifier:", out[-3000:], file=sys.stderr)
            sys.exit(2)

    def proof(self, budget, jobs=8, only=None, limit=500):
        out = os.path.join(self.tmp, "gowp.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [self.gowp, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", self.pid,
               "-variants", self.cfg.get("variants", "purego"), "-budget", str(budget), "-j", str(jobs), "-q", "-json", out]
        if only:
            cmd += ["-func", only]
        if self.tier == "thorough":
            cmd.append("-thorough")
        rc, txt = run(cmd, V, min(limit, left() - 20))
        if not os.path.exists(out):
            return None, txt
        return json.load(open(out)), txt

    # ---------- known findings ----------
    def known(self, f):
        for k in self.kf:
            if re.search(k["match"], f"{f['check']} | {f['case']} | {f['failure']}"):
                return k
        return None

    def main(self):
        self.kf = []
        p = os.path.join(V, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) match=`([^`]*)` (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    self.kf.append(dict(match=m.group(2), what=m.group(3)))
        tb = threading.Thread(target=self.build_gowp)
        if self.cfg.get("proof", True):
            tb.start()
        self.build_rt()
        if self.cfg.get("proof", True):
            tb.join()
        if self.bins:
            self.run_rt("thorough" if self.tier == "thorough" else "quick", self.seed)
        fresh = [f for f in self.fails if not self.known(f)]
        undone = []
        if not fresh and self.cfg.get("proof", True):
            budget = self.cfg.get("budget", 100)
            if self.tier == "thorough":
                budget *= 3
            rep, txt = self.proof(budget)
            if rep is None:
                undone = [dict(key="(verifier)", err="the verifier produced no report", out=txt[-3000:])]
                self.report = dict(verdicts=[], trusted={}, missing=[], errors=[txt[-800:]], wall_s=0, solver_queries=0, solver_s=0)
            else:
                self.report = rep
                bad = [v for v in rep["verdicts"] or [] if not v["ok"]]
                if bad and left() > 120:
                    keys = sorted({v["key"] for v in bad})
                    rx = "^(" + "|".join(re.escape(k) for k in keys) + ")$"
                    rep2, _ = self.proof(budget * 3, jobs=4, only=rx, limit=left() * 0.6)
                    if rep2:
                        good = {(v["key"], v["inst"], v["variant"], v.get("contract")): v for v in rep2["verdicts"] if v["ok"]}
                        rep["verdicts"] = [good.get((v["key"], v["inst"], v["variant"], v.get("contract")), v) if not v["ok"] else v for v in rep["verdicts"]]
                        rep["solver_s"] += rep2["solver_s"]
                        rep["solver_queries"] += rep2["solver_queries"]
                        bad = [v for v in rep["verdicts"] if not v["ok"]]
                undone = bad + [dict(key="(contracts)", err=e) for e in rep["errors"] or []]
                # an unexported helper that is gone (renamed, inlined) takes its contract with it: its callers are then verified
                # against its body wherever it is now
                undone += [dict(key=m, err="function under contract not found") for m in rep["missing"] or [] if exported(m)]
                if not rep["verdicts"]:
                    undone.append(dict(key="(contracts)", err="no obligations were generated"))
        if undone and self.bins and left() > 100:
            # look for a failing input with a deeper search
            self.run_rt("deep", self.seed + 1)
            fresh = [f for f in self.fails if not self.known(f)]
        self.finish(fresh, undone)

    def finish(self, fresh, undone):
        seen = set()
        for f in self.fails:
            k = self.known(f)
            if k and k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        viol = 0
        line = None
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        rp = os.path.join(V, "replay", f"{self.pid}.json")
        if fresh:
            viol = len(fresh)
            json.dump(dict(property=self.pid, kind="failing input on the real code", seed=self.seed, failures=fresh[:12], undischarged=undone[:10],
                           how="VERIF_SEED=%d python3 check.py %s runs the same inputs again" % (self.seed, self.pid)), open(rp, "w"), indent=1)
            f = fresh[0]
            print(f"{self.pid}: {f['check']} [{f.get('config')}]: {f['case']}: {f['failure'][:400]}")
            line = f"VIOLATION property={self.pid} replay={rp}"
        elif undone:
            viol = len(undone)
            json.dump(dict(property=self.pid, kind="undischarged proof obligation", obligations=undone[:40],
                           how=f"gowp -repo /repo -contracts contracts -prop {self.pid}"), open(rp, "w"), indent=1)
            for u in undone[:6]:
                fo = (u.get("failed") or [{}])[0]
                print(f"{self.pid}: undischarged: {u['key']} {u.get('inst', '')} {u.get('variant', '')}: {u.get('err', '')[:200]} {fo.get('kind', '')} {fo.get('pos', '')}")
            line = f"VIOLATION property={self.pid} replay={rp} no-failing-input-found"
        elif os.path.exists(rp):
            os.remove(rp)
        self.evidence(viol)
        if line:
            print(line, flush=True)
            sys.exit(1)
        r = self.report or dict(verdicts=[])
        print(f"{self.pid}: held; {sum(v['discharged'] for v in r['verdicts'])} obligations discharged, {sum(s['evaluations'] for s in self.stats)} bounded evaluations, {time.time() - T0:.0f} s")
        sys.exit(0)

    def evidence(self, viol):
        r = self.report or dict(verdicts=[], trusted={}, missing=[], errors=[], solver_queries=0, solver_s=0)
        vs = r["verdicts"] or []
        proved = [v for v in vs if not v.get("bounded")]
        bnd = [v for v in vs if v.get("bounded")]
        ev = sum(s["evaluations"] for s in self.stats)
        relies = {}
        for v in vs:
            for k, n in (v.get("relies_on") or {}).items():
                relies[k] = relies.get(k, 0) + n
        cov = dict(
            obligations=sum(v["obligations"] for v in proved),
            discharged=sum(v["discharged"] for v in proved),
            checker_cmd=f"gowp -repo {REPO} -contracts contracts -prop {self.pid} -variants {self.cfg.get('variants', 'purego')} (back ends z3 4.x/5.x, cvc5 1.1.2)",
            trusted_base=sorted(f"{k}: {w}" for k, w in (r.get("trusted") or {}).items()) + self.cfg.get("trusted", []) + [
                "gowp: the verification-condition generator of /verif/gowp, golang.org/x/tools/go/ssa, z3, cvc5, the Go compiler"],
            functions_under_contract=sorted({f"{v['key']}[{v['inst']}] ({v['variant']})" for v in proved if v["ok"]}),
            functions_count=len({v["key"] for v in proved if v["ok"]}),
            contracts_relied_on=relies,
            cases_deferred_to_thorough=r.get("deferred_cases", 0),
            solver_queries=r.get("solver_queries", 0), solver_s=round(r.get("solver_s", 0), 2),
            bounded_proofs=[dict(function=v["key"], inst=v["inst"], bound=v["bounded"], obligations=v["obligations"], discharged=v["discharged"]) for v in bnd],
            evaluations=ev,
            distinct_nontrivial=sum(s["distinct"] for s in self.stats),
            rule="bounded runtime contracts on the real code (never counted as proved): each case is one call or call sequence of exported functions with generated arguments compared with an independent definition; cases with a distinct description (function, type, shape, aliasing, parameters) count once per build configuration",
            samples=[x for s in self.stats for x in (s["samples"] or [])[:2]][:12] or ["none"],
            bounded_checks=[dict(check=s["name"], config=s["config"], package=s["package"], evaluations=s["evaluations"]) for s in self.stats],
        )
        lvl = self.cfg.get("level", "proof")
        if lvl == "other" or "explain" in self.cfg:
            cov["explanation"] = self.cfg.get("explain", "")
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=lvl, coverage=cov,
                 assumptions=COMMON + self.cfg.get("assume", []), wall_s=round(time.time() - T0, 2), violations=viol)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(d, open(os.path.join(V, "evidence", f"{self.pid}.json"), "w"), indent=1)


def exported(key):
    n = re.sub(r"#.*", "", key).split(".")[-1].split(":")[-1]
    return n[:1].isupper()


COMMON = [
    "64-bit platform; slice lengths are below 2^40 elements",
    "distinct slice arguments are either identical or disjoint as listed in each contract's alias clause; partial overlaps are not considered",
    "generic functions are verified at the element types listed per function, not at every possible instantiation",
]

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    Check(sys.argv[1], tier).main()
