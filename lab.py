#!/usr/bin/env python3
"""Pipeline: TLC generates behaviours (Gen.tla) -> the real code runs them (harness/drive) -> TLC checks the
recorded traces (Trace.tla/Obs.tla). Used by check.py; as a command: lab.py FAMS COUNT [SEED] (development)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, atexit, collections
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(1, min(int(os.environ.get("VERIF_CPU", "8")), os.cpu_count() or 1))


LOCK = threading.Lock()
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Err(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Lab:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="vneffos.")
        atexit.register(self.close)
        self.mode = ""
        self.stats = collections.Counter()
        self.n = 0
        self.logs = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def env(self, **kw):
        e = dict(os.environ)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    # ---- building the real code ----
    def build(self):
        if self.mode:
            return
        h = os.path.join(HERE, "harness")
        ge = self.env(GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local")
        r = run(["go", "build", "-o", self.path("instr"), "./instr"], cwd=h, env=ge)
        if r.returncode:
            raise Err("cannot build the instrumenter:\n" + r.stdout)
        modfile = self.path("go.mod")
        shutil.copy(os.path.join(h, "go.mod"), modfile)
        shutil.copy(os.path.join(h, "go.sum"), self.path("go.sum"))
        if REPO != "/repo":
            s = open(modfile).read().replace("=> /repo", "=> " + REPO)
            open(modfile, "w").write(s)
        r = run([self.path("instr"), "clients", self.tmp], cwd=h)
        if r.returncode:
            raise Err("cannot copy the broker clients:\n" + r.stdout)
        with open(modfile, "a") as f:
            f.write("\n" + r.stdout)
        out = ""
        for mode in ("full", "plain"):
            d = self.path("b-" + mode)
            os.makedirs(d)
            r = run([self.path("instr"), REPO, d, os.path.join(h, "vsched"), mode], cwd=h)
            if r.returncode == 0:
                r = run(["go", "test", "-vet=off", "-c", "-modfile", modfile, "-overlay", os.path.join(d, "overlay.json"), "-o", self.path("drv"), "./drive"], cwd=h, env=ge)
                if r.returncode == 0:
                    self.mode = mode
                    return
            out += r.stdout
        raise Err("cannot build the driver:\n" + out[-4000:])

    def table(self, mod, cfg=None, sample=None, workers=None):
        """TLC enumerates the cases of a table; the real code runs them -> (cases, [failed], crash output)"""
        self.build()
        r = self.tlc(mod, cfg, workers=workers)
        cases = [json.loads(json.loads(l)[5:]) for l in r.stdout.splitlines() if l.startswith('"CASE ')]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if not m or not cases or r.returncode not in (0,):
            raise Err("TLC on %s: %s" % (mod, r.stdout[-2000:]))
        self.stats["tlc_generated"] += int(m.group(1))
        self.stats["tlc_distinct"] += int(m.group(2))
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        for i, c in enumerate(cases):
            c["n"] = i
        return cases

    def run_table(self, cases):
        parts = [p for p in (cases[i::NCPU] for i in range(NCPU)) if p]

        def one(a):
            i, p = a
            fi, fo = self.path("pin%d.jsonl" % i), self.path("pout%d.jsonl" % i)
            with open(fi, "w") as f:
                for c in p:
                    f.write(json.dumps(c) + "\n")
            try:
                r = run([self.path("drv"), "-test.run", "TestParts", "-test.timeout", "0"], cwd=self.tmp, timeout=600, env=self.env(DRV_IN=fi, DRV_OUT=fo, GOTRACEBACK="all"))
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = str(e.stdout or "")[-6000:], 99
            bad, done = [], 0
            if os.path.exists(fo):
                for l in open(fo, errors="replace"):
                    try:
                        o = json.loads(l)
                    except ValueError:
                        break
                    if "done" in o:
                        done = o["done"]
                    else:
                        bad.append(o)
            if done != len(p):
                m = re.findall(r"RUNNING case (\d+)", out)
                c = [x for x in p if m and x["n"] == int(m[-1])]
                if not c or ("/repo/" not in out and "kataras/neffos" not in out and REPO not in out):
                    raise Err("driver failed (rc %s): %s" % (rc, out[-2000:]))
                bad.append(dict(n=c[0]["n"], case=c[0], got=dict(crash=out[-5000:])))
            return bad
        with ThreadPoolExecutor(NCPU) as ex:
            return [b for l in ex.map(one, list(enumerate(parts))) for b in l]

    def build_race(self):
        """the driver with the race detector, schedule not controlled"""
        h = os.path.join(HERE, "harness")
        ge = self.env(GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local")
        d = self.path("b-race")
        os.makedirs(d)
        r = run([self.path("instr"), REPO, d, os.path.join(h, "vsched"), "plain"], cwd=h)
        if r.returncode == 0:
            r = run(["go", "test", "-race", "-vet=off", "-c", "-modfile", self.path("go.mod"), "-overlay", os.path.join(d, "overlay.json"), "-o", self.path("drvr"), "./drive"], cwd=h, env=ge)
        if r.returncode:
            raise Err("cannot build the race driver:\n" + r.stdout[-4000:])

    def drive_race(self, scns):
        """-> (traces, race reports); only the storage is used"""
        scns = [dict(s, steps=[x for x in ([o for o in st if o["op"] in ("dial", "store")] for st in s["steps"]) if x]) for s in scns]
        fi, fo = self.path("inr.jsonl"), self.path("outr.jsonl")
        with open(fi, "w") as f:
            for s in scns:
                f.write(json.dumps(s) + "\n")
        r = run([self.path("drvr"), "-test.run", "TestDrive", "-test.timeout", "0"], cwd=self.tmp, timeout=800,
                env=self.env(DRV_IN=fi, DRV_OUT=fo, DRV_FREE=1, GORACE="halt_on_error=0", GOMAXPROCS=NCPU, GOTRACEBACK="all"))
        trs = []
        for l in open(fo, errors="replace"):
            try:
                trs.append(json.loads(l))
            except ValueError:
                break
        reps = re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", r.stdout, re.S) + re.findall(r"fatal error: concurrent map.*", r.stdout, re.S)
        return trs, reps

    # ---- TLC ----
    def tlc(self, mod, cfg=None, env=None, workers=None, timeout=800, extra=(), jopts=None):
        with LOCK:
            self.n += 1
            meta = self.path("meta%d" % self.n)
        cmd = ["java", "-Djava.io.tmpdir=" + self.tmp, *(jopts or ["-Xmx6g", "-XX:+UseParallelGC"]), "-cp", JARS, "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-config", (cfg or mod) + ".cfg", *extra, mod + ".tla"]
        e = self.env(**(env or {}))
        try:
            r = run(cmd, cwd=os.path.join(HERE, "spec"), env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Err("TLC timed out on " + mod)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if m and mod in ("Gen", "Trace"):
            with LOCK:
                self.stats["tlc_generated"] += int(m.group(1))
                self.stats["tlc_distinct"] += int(m.group(2))
        return r

    def gen(self, seed, fams, start, count):
        r = self.tlc("Gen", env={"SEED": seed, "FAMS": fams, "FROM": start, "COUNT": count})
        scns = []
        for l in r.stdout.splitlines():
            if l.startswith('"SCN '):
                t = json.loads(l)[4:].replace("~u", "\u00fcn\u00ef").replace("~s", "\u2603")
                s = json.loads(t)
                s["preempt"] = float(s.pop("pre"))
                scns.append(s)
        if len(scns) != count:
            raise Err("generation failed:\n" + r.stdout[-3000:])
        scns.sort(key=lambda s: s["id"])
        self.stats["gen"] += count
        return scns

    # ---- running the real code ----
    def drive1(self, scns, tag):
        """-> (traces, crash): crash is None or (scenario, output)"""
        fi, fo = self.path("in%s.jsonl" % tag), self.path("out%s.jsonl" % tag)
        with open(fi, "w") as f:
            for s in scns:
                f.write(json.dumps(s) + "\n")
        try:
            r = run([self.path("drv"), "-test.run", "TestDrive", "-test.timeout", "0"], cwd=self.tmp, timeout=800,
                    env=self.env(DRV_IN=fi, DRV_OUT=fo, GOMAXPROCS=1, GOTRACEBACK="all", DRV_MODE=self.mode))
            rc, out = r.returncode, r.stdout
            if os.environ.get("DRV_DUMP"):
                print(out)
        except subprocess.TimeoutExpired as e:
            rc, out = 99, "timeout " + str(e.stdout or "")[-3000:]
        trs = []
        if os.path.exists(fo):
            for l in open(fo, errors="replace"):
                try:
                    trs.append(json.loads(l))
                except ValueError:
                    break
            os.unlink(fo)
        os.unlink(fi)
        if rc == 0 and len(trs) == len(scns):
            return trs, None
        done = {t["id"] for t in trs}
        m = re.search(r"RUNNING scenario (\d+)\n(?!.*RUNNING)", out, re.S)
        rest = [s for s in scns if s["id"] not in done]
        bad = rest[0] if rest else None
        if m:
            for s in rest:
                if s["id"] == int(m.group(1)):
                    bad = s
        return trs, (bad, rc, out)

    def drive(self, scns):
        """Runs scenarios on the real code. -> (traces, crashes)"""
        parts = [scns[i::NCPU] for i in range(NCPU)]
        parts = [p for p in parts if p]

        def one(a):
            i, p = a
            trs, crashes = [], []
            while p:
                t, crash = self.drive1(p, "%d" % i)
                trs += t
                if crash is None:
                    break
                bad = crash[0]
                crashes.append(crash)
                done = {x["id"] for x in trs}
                p = [s for s in p if s["id"] not in done and bad is not None and s["id"] != bad["id"]]
                if len(crashes) > 3:
                    break
            return trs, crashes
        trs, crashes = [], []
        with ThreadPoolExecutor(NCPU) as ex:
            for t, c in ex.map(one, list(enumerate(parts))):
                trs += t
                crashes += c
        trs.sort(key=lambda t: t["id"])
        self.stats["run"] += len(trs)
        self.stats["events"] += sum(len(t["ev"]) for t in trs)
        return trs, crashes

    def validate(self, trs, mod="Trace"):
        """-> [(id, line, [labels])]; several TLC processes, one worker each"""
        if not trs:
            return []
        size = sum(len(t["ev"]) for t in trs)
        n = max(1, min(NCPU, size // 4000))
        parts = [trs[i::n] for i in range(n)]

        def one(a, depth=0):
            i, p = a
            f = self.path("tr%d-%s.jsonl" % (self.n, i))
            with open(f, "w") as o:
                for t in p:
                    o.write(json.dumps(t) + "\n")
            r = self.tlc(mod, env={"TRACES": f}, workers=1, jopts=["-Xmx3g", "-Xss16m", "-XX:+UseSerialGC"])
            os.unlink(f)
            done, viol = set(), []
            for m in re.finditer(r'<<"DONE", (\d+),', r.stdout):
                done.add(int(m.group(1)))
            for m in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', r.stdout):
                viol.append((int(m.group(1)), int(m.group(2)), re.findall(r'"([^"]+)"', m.group(3))))
            if done != {t["id"] for t in p}:
                if len(p) == 1:
                    # the trace makes no sense to the specification at all
                    with LOCK:
                        self.stats["undefined"] += 1
                    return [(p[0]["id"], 0, ["obs:undefined"])]
                if self.stats["undefined"] >= 6:
                    return [v for v in viol if v[0] in done]
                if depth > 12:
                    raise Err("validation did not finish:\n" + r.stdout[-1500:])
                rest = [t for t in p if t["id"] not in done]
                viol = [v for v in viol if v[0] in done]
                h = max(1, len(rest) // 2)
                return viol + one((str(i) + "a", rest[:h]), depth + 1) + (one((str(i) + "b", rest[h:]), depth + 1) if rest[h:] else [])
            return viol
        with ThreadPoolExecutor(n) as ex:
            viol = [v for l in ex.map(one, list(enumerate(parts))) for v in l]
        self.stats["checked"] += len(trs)
        viol.sort()
        return viol


def show(tr, upto=None):
    for j, e in enumerate(tr["ev"], 1):
        if upto and j > upto:
            break
        print(j, json.dumps({k: v for k, v in e.items() if v not in ("", 0, False, [], None)})[:420])


if __name__ == "__main__":
    lab = Lab()
    t0 = time.time()
    lab.build()
    print("build %s %.1fs" % (lab.mode, time.time() - t0))
    if sys.argv[1] == "replay":
        scns = [json.loads(l) for l in open(sys.argv[2])]
    else:
        t0 = time.time()
        scns = lab.gen(int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[1], 1, int(sys.argv[2]))
        print("gen %.1fs" % (time.time() - t0))
    t0 = time.time()
    trs, crashes = lab.drive(scns)
    print("drive %.1fs events %d" % (time.time() - t0, lab.stats["events"]))
    for c in crashes:
        print("CRASH", c[0] and c[0]["id"], c[1], c[2][:int(os.environ.get("CRASHLEN","1500"))])
    t0 = time.time()
    viol = lab.validate(trs)
    print("validate %.1fs" % (time.time() - t0))
    cnt, first = collections.Counter(), {}
    byid = {s["id"]: s for s in scns}
    for i, line, labels in viol:
        for l in labels:
            cnt[l] += 1
            if l not in first or line < first[l][1]:
                first[l] = (i, line)
    for l, n in cnt.most_common():
        print(n, l, first[l], byid[first[l][0]]["fam"])
    out = os.environ.get("LABOUT", "/tmp/lab")
    os.makedirs(out, exist_ok=True)
    with open(out + "/scn.jsonl", "w") as f:
        for s in scns:
            f.write(json.dumps(s) + "\n")
    with open(out + "/tr.jsonl", "w") as f:
        for s in trs:
            f.write(json.dumps(s) + "\n")
