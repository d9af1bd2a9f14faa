#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py PROP [--tier quick|thorough]     search; exit 0 held, 1 violation, 2 error of the check itself
  check.py --replay FILE                    runs one replay file and prints what it shows

Every simulated execution is one plan (a small text file); a violation is confirmed by running its
plan twice in fresh processes (same event hash, same violation), minimised, and saved under replays/.
"""
import argparse, collections, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SPS_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(BUILD, "sim")
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

# property -> scenarios (name, share of the budget)
PLAN = {
    "C01": [("relay", 1)], "C02": [("relay", 1)], "C03": [("relay", 1)], "C04": [("relay", 1)],
    "C05": [("edge", 1)], "C06": [("edge", 1)], "C07": [("proxy", 1)], "C08": [("proxy", 1)], "C09": [("proxy", 1)], "C10": [("proxy", 1)],
    "C11": [("relay", 1)], "C12": [("relay", 1)], "C15": [("relay", 1)], "C16": [("tls", 1)], "C17": [("tls", 1)],
    "C18": [("srt", 1)], "C19": [("srt", 1)], "C20": [("srt", 1)],
    "C21": [("conf", 1)], "C22": [("udp", 1)], "C23": [("rtp", 1)], "C24": [("out", 1)],
    "C13": [("robust", 4), ("edge", 1), ("proxy", 1)], "C14": [("robust", 4), ("edge", 1), ("proxy", 1)],
}
QUICK_S, THOROUGH_S = 45, 600

REAL = ("everything under /repo/src that the server binary links (main, install, conf, modules http/stream/edge/host/"
        "server/srt/upstream, HTTP parser and sockets, FLV/TS/RTP code, caches, the state-threads/OpenSSL/SRT socket "
        "adaptors, url protocols), OpenSSL and http_parser themselves")
STUB = ("state-threads scheduler, kernel sockets/TCP/UDP/DNS/clock, libsrt (replaced by the simulator); clients, "
        "publishers and origin servers are simulated actors; RTMP (patched librtmp missing) and FFmpeg are not built")


def norm(msg):
    return re.sub(r"[0-9]+(\.[0-9]+)?", "#", re.sub(r"\[[^\]]*\]", "[]", msg))[:90]


def outcome_viols(o, prop):
    """violations of this property shown by one run: list of (class, message)"""
    r = []
    for p, m in o["viol"]:
        if p == prop:
            r.append((p + ":" + norm(m), m))
        elif p in ("HANG", "DOWN"):
            r.append((p, m))
    if o["crash"] is not None:
        f = re.findall(r"<- ([A-Za-z_:~<>]+)", o["crash"])
        kind = re.sub(r"[^A-Za-z -]", "", o["crash"])[:60]
        r.append(("CRASH:" + (f[0] if f else kind), "the server process crashed: " + o["crash"]))
    if o["timeout"]:
        r.append(("TIMEOUT", "the simulated server never yields"))
    return r


def run_plan(path):
    p = subprocess.run([SIM, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return json.loads(p.stdout.strip().splitlines()[-1])


class Search:
    def __init__(self, prop, secs, seed, known):
        self.prop, self.secs, self.seed, self.known = prop, secs, seed, known
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.hits = []            # (scen, seed, class, msg)
        self.known_hits = collections.Counter()
        self.n = 0; self.nontrivial = 0; self.sim_us = 0; self.steps = 0
        self.cnt = collections.Counter()
        self.sched = set(); self.states = set(); self.hashes = {}
        self.per = collections.Counter()
        self.samples = []
        self.errors = []

    def worker(self, w, scen, secs):
        base = self.seed * 1000000 + w
        p = subprocess.Popen([SIM, "batch", scen, self.prop, str(base), "100000000", str(secs), str(WORKERS)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        for line in p.stdout:
            try:
                o = json.loads(line)
            except ValueError:
                self.errors.append("bad line: " + line[:200]); break
            with self.lock:
                self.n += 1; self.per[scen] += 1
                self.nontrivial += 1 if o["nontrivial"] else 0
                self.sim_us += o["sim_us"]; self.steps += o["steps"]
                if o["nontrivial"]:
                    self.sched.add(o["sched"]); self.states.add(o["state"])
                if len(self.hashes) < 4000:
                    self.hashes[(scen, o["seed"])] = o["hash"]
                for k, v in o["cnt"].items():
                    self.cnt[k] += v
                if o["nontrivial"] and len(self.samples) < 4:
                    self.samples.append("%s seed %d: %d scheduler steps, %.1f simulated s, hash %s" % (scen, o["seed"], o["steps"], o["sim_us"] / 1e6, o["hash"]))
                for cls, msg in outcome_viols(o, self.prop):
                    k = self.match_known(msg)
                    if k:
                        self.known_hits[k] += 1
                        continue
                    self.hits.append((scen, o["seed"], cls, msg)); self.stop.set()
                    break
            if self.stop.is_set():
                break
        p.kill()
        err = p.stderr.read()
        p.wait()
        if err.strip() and not self.stop.is_set():
            self.errors.append(err.strip()[:400])

    def match_known(self, msg):
        for k in self.known:
            if k["property"] == self.prop and re.search(k["match"], msg):
                return k["id"]
        return None

    def run(self):
        tot = sum(x for _, x in PLAN[self.prop])
        for scen, share in PLAN[self.prop]:
            th = [threading.Thread(target=self.worker, args=(w, scen, max(2, self.secs * share / tot))) for w in range(WORKERS)]
            for t in th: t.start()
            for t in th: t.join()
            if self.stop.is_set():
                break


def gen_plan(scen, prop, seed):
    return subprocess.run([SIM, "gen", scen, prop, str(seed)], stdout=subprocess.PIPE, text=True, check=True).stdout


def shows(text, prop, cls, tmp):
    with open(tmp, "w") as f:
        f.write(text)
    o = run_plan(tmp)
    for c, m in outcome_viols(o, prop):
        if c == cls:
            return o, m
    return o, None


def minimise(text, prop, cls, tmp, limit):
    t0 = time.time()
    lines = text.splitlines()
    fixed = [l for l in lines if not l.startswith(("op ", "fault "))]
    var = [l for l in lines if l.startswith(("op ", "fault "))]
    ok = lambda v: shows("\n".join(fixed + v) + "\n", prop, cls, tmp)[1] is not None
    n = max(1, len(var) // 2)
    while n >= 1 and time.time() - t0 < limit:
        i, changed = 0, False
        while i < len(var) and time.time() - t0 < limit:
            cand = var[:i] + var[i + n:]
            if ok(cand):
                var, changed = cand, True
            else:
                i += n
        if n == 1 and not changed:
            break
        n = n if changed and n == 1 else n // 2
    for i in range(len(var)):          # drop optional arguments of the operations that are left
        if not var[i].startswith("op "):
            continue
        w = var[i].split(" ")
        for a in list(w[4:]):
            if time.time() - t0 > limit:
                break
            cand = var[:i] + [" ".join(x for x in w if x != a)] + var[i + 1:]
            if ok(cand):
                w = [x for x in w if x != a]; var = cand
    return "\n".join(fixed + var) + "\n"


def load_known():
    path = os.path.join(HERE, "known-findings.jsonl")
    r = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("{"):
                r.append(json.loads(l))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if not a.no_build:
        r = subprocess.run([sys.executable, os.path.join(HERE, "build.py")])
        if r.returncode:
            print("the simulator does not build from the current tree"); return 2
    if a.replay:
        with open(a.replay) as f:
            head = f.read()
        prop = re.search(r"^prop (\S+)", head, re.M).group(1)
        o = run_plan(a.replay)
        vs = outcome_viols(o, prop)
        for c, m in vs:
            print("%s: %s" % (c, m))
        print("hash", o["hash"])
        return 1 if vs else 0
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = a.secs or (QUICK_S if a.tier == "quick" else THOROUGH_S)
    print("property %s tier %s VERIF_SEED %d" % (prop, a.tier, seed)); sys.stdout.flush()
    s = Search(prop, secs, seed, [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"])
    s.run()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc, replay = 0, None
    if s.hits:
        scen, sd, cls, msg = sorted(s.hits, key=lambda h: h[1])[0]
        text = gen_plan(scen, prop, sd)
        tmp = os.path.join(HERE, "replays", ".%s-%d.tmp" % (prop, os.getpid()))
        o1, m1 = shows(text, prop, cls, tmp)
        o2, m2 = shows(text, prop, cls, tmp)
        if not m1 or not m2 or o1["hash"] != o2["hash"]:
            print("error: seed %d of %s does not replay (%s / %s, %s / %s): %s" % (sd, scen, o1["hash"], o2["hash"], m1, m2, msg))
            os.unlink(tmp); return 2
        small = minimise(text, prop, cls, tmp, 40)
        o3, m3 = shows(small, prop, cls, tmp)
        if not m3:
            small, m3, o3 = text, m1, o1
        os.unlink(tmp)
        replay = os.path.join(HERE, "replays", "%s-seed%d.plan" % (prop, sd))
        with open(replay, "w") as f:
            f.write("# %s\n# %s\n# event hash %s; found with seed %d of scenario %s\n" % (prop, m3, o3["hash"], sd, scen) + small)
        print("found: %s" % m3)
        print("seed %d, %d of %d operations and faults left after minimisation" % (sd,
              sum(l.startswith(("op ", "fault ")) for l in small.splitlines()), sum(l.startswith(("op ", "fault ")) for l in text.splitlines())))
        print("replay with: python3 %s --replay %s" % (os.path.join(HERE, "check.py"), replay))
        rc = 1
    elif s.errors:
        print("error: " + s.errors[0]); return 2
    elif s.n == 0:
        print("error: nothing was run"); return 2
    # determinism on a sample, in other processes
    det = 0
    if rc == 0:
        keys = sorted(s.hashes)[:: max(1, len(s.hashes) // 16)][:16]
        for scen, sd in keys:
            p = subprocess.run([SIM, "batch", scen, prop, str(sd), "1", "60", "1"], stdout=subprocess.PIPE, text=True)
            if json.loads(p.stdout)["hash"] != s.hashes[(scen, sd)]:
                print("error: seed %d of %s is not deterministic" % (sd, scen)); return 2
            det += 1
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in s.cnt.items() if k.startswith("fault.")}
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
        "coverage": {
            "evaluations": s.n, "distinct_nontrivial": len(s.sched),
            "rule": "one evaluation = one simulated execution of the whole server; nontrivial = the run exercised the property "
                    "(media, replies or refusals were actually judged by its oracle); distinct = different sequences of scheduling and delivery decisions",
            "samples": s.samples or ["none"],
            "runs_per_hour": int(s.n / max(wall, 1e-3) * 3600),
            "simulated_seconds": round(s.sim_us / 1e6), "scheduler_steps": s.steps,
            "nontrivial_runs": s.nontrivial, "distinct_end_states": len(s.states),
            "runs_per_scenario": dict(s.per), "faults_injected": faults,
            "probes": {k: v for k, v in s.cnt.items() if not k.startswith("fault.")},
            "determinism_rechecked_seeds": det,
            "real_components": REAL, "stubbed_components": STUB,
            "known_findings_seen": dict(s.known_hits),
        },
    }
    if replay:
        ev["violation"] = {"replay": os.path.relpath(replay, HERE), "message": m3}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in s.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%d simulated runs, %d distinct nontrivial schedules, %.0f simulated s, %.0f s wall" % (s.n, len(s.sched), s.sim_us / 1e6, wall))
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    return rc


if __name__ == "__main__":
    sys.exit(main())
