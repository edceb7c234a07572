#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree (quick or thorough by VERIF_TIER, VERIF_SEED).
check.py --replay FILE: runs a recorded counterexample again.
exit 0 held, 1 VIOLATION, 2 the check itself could not answer."""
import collections, json, os, re, sys, time
from concurrent.futures import ThreadPoolExecutor
import lab as labm
from lab import Lab, Err, HERE

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED") or 1)
FAMS = "LMAHBRCNGOESTKX"
NAME = dict(L="life", M="msg", A="ask", H="hs", B="bcast", R="reg", C="close", N="nest", G="hostile", O="native", E="exc", S="sock", T="time", K="store", X="live")

# property -> behaviours of each family in a quick run (thorough: as many as fit)
PLAN = {
    "N01": dict(M=350, A=250, B=150, S=200, E=100),
    "N02": dict(G=450, O=300, M=150, H=100),
    "N03": dict(H=800, R=150),
    "N04": dict(H=650, G=250),
    "N05": dict(L=450, N=200, C=150, H=200, S=50),
    "N06": dict(L=600, N=200, C=150, S=50),
    "N07": dict(L=650, N=250, S=50),
    "N08": dict(L=400, C=300, N=200, R=100),
    "N09": dict(M=350, L=250, A=100, B=150, T=150),
    "N10": dict(M=400, A=250, N=150, S=150),
    "N11": dict(A=600, N=200, T=100),
    "N12": dict(A=250, C=250, L=200, T=100, N=150, H=150),
    "N13": dict(B=650, E=200),
    "N14": dict(B=600, T=150, E=100),
    "N15": dict(A=300, E=200, N=150, B=250),
    "N16": dict(R=500, H=200, C=250),
    "N17": dict(C=500, R=200, S=150, T=100),
    "N18": dict(N=650, L=200, C=150),
    "N19": dict(E=600, X=300),
    "N20": dict(E=600, X=300),
    "N21": dict(K=700),
    "N22": dict(S=500, T=200),
    "N23": dict(M=250, L=100),
    "N24": dict(H=150, R=100),
}

# which properties an observation contradicts
CORE = ["N%02d" % i for i in range(1, 21)]
OPP = dict(connect="N05", disconnect="N06", discall="N06", join="N07", leave="N07", leaveall="N07", ask="N11", sask="N15", dial="N03", rawdial="N03",
           bcast="N13 N14", close="N17", srvclose="N17 N16", waitconnect="N05", emit="N09 N10", native="N09 N02", query="N16 N18")
RULES = [
    (r"crash:|stuck:query|stuck:deadlock|obs:", " ".join(CORE)),
    (r"op:connect|op:waitconnect|life:connect", "N05"),
    (r"op:dis|life:disconnect", "N06"),
    (r"op:(join|leave)|life:(join|leave|left|room)|agree:rooms", "N07"),
    (r"life:.*-unasked|life:connect", "N02"),
    (r"life:", "N08"),
    (r"life:(rooms|room-phase|phase)|agree:", "N05 N06 N08"),
    (r"agree:rooms", "N07"),
    (r"op:.*-unjustified-error", "N12 N18"),
    (r"op:.*-undeclared", "N23"),
    (r"store:", "N21"),
    (r"send:", "N09"),
    (r"send:(failed|reply)", "N10 N05"),
    (r"ask:", "N11"),
    (r"ask:unjustified", "N12 N18 N01"),
    (r"ask:(wrong-reply|no-request)|op:.*-ok-|cb:lost", "N12"),
    (r"ask:(wrong-reply|no-request)", "N10"),
    (r"ask:wrong-reply", "N01 N18"),
    (r"sask:", "N15 N19 N11"),
    (r"hs:", "N03"),
    (r"hs:callback|hs:frame", "N04 N02"),
    (r"hs:(wrong-id|onconnect-wrong|dial-wrong-id|upgraded)", "N24 N17 N16"),
    (r"wire:disclosed", "N01 N19 N13"),
    (r"wire:unexplained", "N01 N02 N09 N10 N11 N13"),
    (r"wire:unexplained-request", "N05 N06 N07"),
    (r"req:", "N11"),
    (r"reply:", "N10 N11"),
    (r"reply:(wrong|noop)", "N01"),
    (r"reply:lifecycle", "N05 N06 N07 N02"),
    (r"reply:(missing|twice)", "N18"),
    (r"bcast:", "N13 N14 N19"),
    (r"bcast:not-a-member", "N09"),
    (r"bcast:(lost|dup)", "N15 N18"),
    (r"cb:(overlap)", "N10"),
    (r"cb:wrong-reg", "N23 N02"),
    (r"cb:(misaddressed|not-in|wrong-flags)", "N02 N05 N08"),
    (r"cb:(lost|unmatched)", "N10 N04 N05 N11 N18 N02"),
    (r"cb:(content|unmatched)", "N01 N02 N11"),
    (r"reg:", "N16"),
    (r"reg:(dead|ondisconnect)", "N17 N08"),
    (r"exc:", "N20 N19"),
    (r"close:", "N17"),
    (r"close:(membership)", "N08 N06"),
    (r"close:(without-cause)", "N03 N02 N18"),
    (r"close:not-noticed", "N03 N12"),
    (r"stuck:", "N12 N18"),
    (r"stuck:.*-(closed|final)", "N17"),
]
EXTRA = {  # by family
    "sock": [(r"cb:|ask:|close:|stuck:|wire:|crash:|send:|reply:", "N22")],
    "time": [(r"close:|stuck:|cb:|ask:unj|wire:|crash:|bcast:lost", "N22"), (r"stuck:(bcast|emit)|cb:lost", "N14")],
    "exc": [(r"stuck:|cb:|bcast:|sask:|wire:|crash:", "N19 N20"), (r"stuck:", "N15")],
    "live": [(r"stuck:|cb:|bcast:|sask:|wire:|crash:|req:|reply:|ask:|close:", "N19 N20")],
    "native": [(r".", "N02")],
    "hostile": [(r".", "N02")],
    "hs": [(r"stuck:|close:|crash:|reply:", "N03 N04"), (r"reg:", "N03")],
    "bcast": [(r"stuck:|cb:", "N13 N14"), (r"sask:|stuck:|cb:lost|ask:|req:", "N15")],
    "life": [(r"cb:wrong|crash:", "N23")],
    "msg": [(r"crash:", "N23")],
    "reg": [(r"stuck:|crash:|hs:", "N16 N17")],
    "close": [(r"stuck:", "N17")],
    "nest": [(r".", "N18")],
    "store": [(r"crash:|stuck:", "N21")],
}


def props(label, fam):
    out = set()
    for rx, ps in RULES + EXTRA.get(fam, []):
        if re.match(rx, label):
            out |= set(ps.split())
    m = re.match(r"stuck:([a-z]+)", label)
    if m:
        out |= set(OPP.get(m.group(1), "").split())
    return out


class Violation(Exception):
    pass


def brief(tr, upto=None, last=60):
    ev = tr["ev"][:upto] if upto else tr["ev"]
    return [{k: v for k, v in e.items() if v not in ("", 0, False, [], None)} for e in ev[-last:]]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.lab = Lab()
        self.cov = collections.OrderedDict()
        self.samples = []
        self.found = []           # violations: (label, replay path)
        self.assume = []
        self.states = self.trans = 0
        self.cases = 0

    # ---- behaviours of the whole system ----
    def evaluate(self, scns):
        """runs and validates; -> {scenario id: set of (label, line)}, {id: trace}"""
        trs, crashes = self.lab.drive(scns)
        bad = collections.defaultdict(set)
        for scn, rc, out in crashes:
            if scn is None:
                raise Err("driver failed (rc %s): %s" % (rc, out[-2000:]))
            label = "stuck:deadlock" if "WATCHDOG" in out or rc == 99 else "crash:fatal"
            if "kataras/neffos" not in out and "/repo/" not in out and labm.REPO not in out:
                raise Err("driver failed (rc %s): %s" % (rc, out[-2000:]))
            bad[scn["id"]].add((label, 0))
            self.crash[scn["id"]] = out[-6000:]
        for i, line, labels in self.lab.validate(trs):
            for l in labels:
                bad[i].add((l, line))
        return bad, {t["id"]: t for t in trs}

    def system(self, plan):
        self.crash = {}
        lab = self.lab
        lab.build()

        def gen(a):
            f, n = a
            return lab.gen(SEED, f, 1 + 100000 * FAMS.index(f), n)
        batches = [plan]
        budget = 0
        if TIER == "thorough":
            budget = float(os.environ.get("VERIF_BUDGET", "780"))
            plan = {f: n * 2 for f, n in plan.items()}
        rnd, total = 0, collections.Counter()
        kinds = set()
        while True:
            if rnd == 0:
                items = list(plan.items())
            else:
                items = [(f, n) for f, n in plan.items()]

            def gen(a):
                f, n = a
                return lab.gen(SEED, f, 1 + 100000 * FAMS.index(f) + rnd * 5000, n)
            with ThreadPoolExecutor(4) as ex:
                scns = [s for l in ex.map(gen, items) for s in l]
            byid = {s["id"]: s for s in scns}
            bad, trs = self.evaluate(scns)
            for t in trs.values():
                total[byid[t["id"]]["fam"]] += 1
                kinds.add(tuple(e["e"] + ":" + str(e.get("op") or e.get("evt") or e.get("kind") or "") for e in t["ev"]))
            if not self.samples and trs:
                t = trs[sorted(trs)[len(trs) // 2]]
                self.samples.append(dict(behaviour=byid[t["id"]], trace_events=len(t["ev"]), trace_tail=brief(t, last=12)))
            self.judge(bad, trs, byid)
            rnd += 1
            if self.found or TIER == "quick" or rnd >= 19 or time.time() - self.t0 > budget * 0.85:
                break
            el = time.time() - self.t0
            if el + el / rnd * 1.1 > budget:
                break
        self.cov["behaviours_by_family"] = dict(total)
        self.cov["traces_validated_against_impl"] = sum(total.values())
        self.cov["trace_events"] = lab.stats["events"]
        self.cov["distinct_event_sequences"] = len(kinds)
        self.cov["instrumentation"] = lab.mode

    def judge(self, bad, trs, byid):
        mine = {i: sorted(x for x in ls if self.prop in props(x[0], byid[i]["fam"])) for i, ls in bad.items()}
        mine = {i: ls for i, ls in mine.items() if ls}
        others = collections.Counter(l for i, ls in bad.items() for l, _ in ls if self.prop not in props(l, byid[i]["fam"]))
        if others:
            self.cov.setdefault("other_observations", {}).update(others)
        seen = set()
        tried = 0
        for i, ls in sorted(mine.items(), key=lambda a: len(trs.get(a[0], {}).get("ev", []))):
            labels = {l for l, _ in ls}
            if labels <= seen or tried >= 12:
                continue
            tried += 1
            hit = self.reproduce(byid[i], labels)
            if not hit:
                print("not reproduced: scenario %d %s" % (i, sorted(labels)))
                continue
            seen |= hit
            self.report(sorted(hit), dict(kind="system", scenario=byid[i], labels=sorted(hit), lines=ls, crash=self.crash.get(i, ""),
                                          trace=brief(trs[i], last=400) if i in trs else []))

    def reproduce(self, scn, labels, n=5):
        for _ in range(n):
            try:
                bad, _ = self.evaluate([scn])
            except Err:
                continue
            hit = {l for l, _ in bad.get(scn["id"], ()) if self.prop in props(l, scn["fam"])}
            if hit:
                return hit
        return set()

    def report(self, labels, obj):
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.found) + 1
        p = os.path.join(d, "%s-%d.json" % (self.prop, n))
        obj["property"] = self.prop
        with open(p, "w") as f:
            json.dump(obj, f, indent=1, ensure_ascii=False)
        self.found.append((labels, p))
        print("violated: %s" % ", ".join(labels))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()

    # ---- models checked exhaustively ----
    def model(self, mod, cfg=None, workers=None, timeout=600):
        r = self.lab.tlc(mod, cfg, workers=workers, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if r.returncode != 0 or not m or "No error has been found" not in r.stdout:
            raise Err("model %s: %s" % (cfg or mod, r.stdout[-1500:]))
        self.trans += int(m.group(1))
        self.states += int(m.group(2))
        self.cov.setdefault("models", {})[cfg or mod] = dict(generated=int(m.group(1)), distinct=int(m.group(2)))

    def race_store(self):
        """the storage under truly parallel use: linearizable histories, no data race"""
        lab = self.lab
        lab.build()
        lab.build_race()
        scns = lab.gen(SEED, "K", 1300001, 150 if TIER == "quick" else 1500)
        rx = r"neffos\.\(\*Conn\)\.(Set|Get|Increment|Decrement)\b|concurrent map"

        def once():
            trs, reps = lab.drive_race(scns)
            reps = [x for x in reps if re.search(rx, x)]
            bad = [(i, n, [l for l in ls if l.startswith("store:")]) for i, n, ls in lab.validate(trs)]
            return trs, reps, [b for b in bad if b[2]]
        trs, reps, bad = once()
        self.cov["parallel_histories"] = len(trs)
        if not trs and not reps:
            raise Err("no parallel history")
        if reps or bad:
            _, reps2, bad2 = once()
            if reps2 or bad2:
                self.report(sorted({l for b in bad2 for l in b[2]} | ({"store:data-race"} if reps2 else set())),
                            dict(kind="race", labels=["store"], scenarios=[scns[0]["id"], len(scns)], reports=reps2[:3], histories=bad2[:5]))

    def table(self, mod, cfg=None):
        """a decision table computed by TLC, every case run on the real code"""
        cases = self.lab.table(mod, cfg)
        name = cfg or mod
        bad = self.lab.run_table(cases)
        self.cov.setdefault("tables", {})[name] = len(cases)
        self.cases += len(cases)
        if not self.samples:
            self.samples.append(dict(table=name, case={k: cases[len(cases) // 2][k] for k in ("in", "want")}))
        if bad:
            again = self.lab.run_table([b["case"] for b in bad])
            if again:
                self.report(["table:" + name], dict(kind="table", module=mod, cfg=cfg, labels=["table:" + name], cases=[b["case"] for b in again[:20]], got=again[:20]))
            else:
                print("not reproduced: table %s %s" % (name, bad[:2]))

    def write(self, level):
        cov = collections.OrderedDict()
        cov["states"] = self.states + self.lab.stats["tlc_distinct"]
        cov["transitions"] = self.trans + self.lab.stats["tlc_generated"]
        cov["traces_validated_against_impl"] = self.cov.pop("traces_validated_against_impl", 0) + self.cases
        cov["samples"] = self.samples
        cov.update(self.cov)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=self.assume,
                           wall_s=round(time.time() - self.t0, 1), violations=len(self.found)), f, indent=1, ensure_ascii=False)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        o = json.load(open(sys.argv[2]))
        c = Check(o["property"])
        c.crash = {}
        c.lab.build()
        if o["kind"] == "table":
            hit = [b["n"] for b in c.lab.run_table(o["cases"])]
        elif o["kind"] == "race":
            c.race_store()
            hit = c.found
        else:
            hit = c.reproduce(o["scenario"], set(o["labels"]))
        print("reproduced: %s" % sorted(hit) if hit else "not reproduced")
        sys.exit(1 if hit else 0)
    prop = sys.argv[1]
    c = Check(prop)
    try:
        for mod in MODELS.get(prop, ()):
            c.model(mod[0], mod[1] + ("2" if TIER == "quick" else "3"))
        for t in TABLES.get(prop, ()):
            c.table(t)
        for fn in PARTS.get(prop, ()):
            fn(c)
        if prop in PLAN:
            c.system(PLAN[prop])
        c.assume = ["the in-memory transport and the virtual clock (testing/synctest) behave like a network and real time",
                    "traces record what the application and the wire can observe; the specification in spec/Obs.tla is the oracle"]
        c.write("model_checking")
    except Err as e:
        print("ERROR %s" % e)
        if c.found:
            sys.exit(1)
        sys.exit(2)
    print("%s %s: %d traces, %d states, %.0fs%s" % (prop, TIER, c.lab.stats["checked"], c.states + c.lab.stats["tlc_distinct"], time.time() - c.t0,
                                                    "" if not c.found else ", VIOLATED"))
    sys.exit(1 if c.found else 0)


TECH = {}
NOTE = {}
MODELS = {"N05": [("Member", "MemberNs")], "N06": [("Member", "MemberNs")], "N07": [("Member", "MemberRoom")], "N08": [("Member", "MemberRoom")], "N18": [("Member", "MemberNs")]}
TABLES = {"N01": ["Codec"], "N02": ["Codec"], "N22": ["Sock"], "N23": ["Handlers"], "N24": ["Http"]}
PARTS = {"N21": [Check.race_store]}

if __name__ == "__main__":
    main()
