#!/usr/bin/env python3
"""Build and run the check of one property.

  run.py ID [quick|thorough]           explore; exit 0 held / 1 VIOLATION
  run.py ID --replay FILE              re-run the recorded case only
  run.py --build ID...                 only build
"""
import sys, os, json, subprocess, time, tempfile, signal, fnmatch, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
import build as B
import registry as R

def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line[len("finding: "):].split(" || "))
                out.append(f)
    return out

def match(known, prop, case, what):
    for k in known:
        if k["property"] == prop and fnmatch.fnmatchcase(case + "|" + what, k["key"]):
            return k
    return None

class Shard:
    def __init__(self, exe, prop, tier, i, n, deadline, env, work):
        self.status = os.path.join(work, f"st{i}")
        self.outp = os.path.join(work, f"out{i}")
        self.cmd = [exe, "--property", prop, "--tier", tier, "--shard", f"{i}/{n}", "--deadline", str(deadline), "--status", self.status]
        self.out = open(self.outp, "w+b")
        self.err = open(self.outp + ".err", "w+b")
        self.p = subprocess.Popen(self.cmd, stdout=self.out, stderr=self.err, env=env, cwd=work, start_new_session=True)
        self.seen = None; self.since = time.time(); self.hung = False
    def current(self):
        try:
            b = open(self.status, "rb").read(8192)
            return int.from_bytes(b[:8], "little"), b[8:].split(b"\0", 1)[0].decode("utf-8", "replace")
        except OSError:
            return 0, ""
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass

def parse(path):
    fails, counts = [], None
    for line in open(path, "r", errors="replace"):
        if line.startswith("FAIL\t"):
            _, case, what, msg = (line.rstrip("\n").split("\t", 3) + ["", "", ""])[:4]
            fails.append((case, what, msg))
        elif line.startswith("COUNTS\t"):
            try: counts = json.loads(line.split("\t", 1)[1])
            except ValueError: pass
    return fails, counts

def run_only(exe, prop, tier, case, env, timeout):
    with tempfile.TemporaryDirectory(prefix="vfo") as d:
        o = os.path.join(d, "o"); e = os.path.join(d, "e")
        with open(o, "wb") as fo, open(e, "wb") as fe:
            p = subprocess.Popen([exe, "--property", prop, "--tier", tier, "--only", case], stdout=fo, stderr=fe, env=env, cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait(); rc = "hang"
        fails, counts = parse(o)
        err = open(e, errors="replace").read()[-1500:]
        return rc, fails, counts, err

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        ids = a[1:] or list(R.CHECKS)
        for p in ids: print(p, B.build(R.CHECKS[p]))
        return 0
    if a and a[0] == "--setup":   # nothing to prepare: every check builds what it needs
        for d in ("build", "evidence", "replays"): os.makedirs(os.path.join(HERE, d), exist_ok=True)
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = a[1:]
    while rest:
        x = rest.pop(0)
        if x in ("quick", "thorough"): tier = x
        elif x == "--replay": replay = rest.pop(0)
    spec = R.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        exe = B.build(spec)
    except B.BuildError as e:
        print("BUILD-ERROR", str(e)[-6000:]); return 2
    tb = time.time() - t0
    env = dict(os.environ)
    env.update(spec.get("env", {}))
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=1")
    env.setdefault("OMP_NUM_THREADS", "2")
    env["OMP_DYNAMIC"] = "false"; env["OMP_WAIT_POLICY"] = "passive"
    if replay:
        r = json.load(open(replay))
        rc, fails, counts, err = run_only(exe, prop, r["tier"], r["case"], env, 600)
        for f in fails: print("FAIL", *f)
        if err: print(err)
        bad = rc != 0 or any(f[0] == r["case"] for f in fails)
        if bad: print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else 0
    n = spec.get("shards", 8)
    budget = spec.get("budget", {}).get(tier, 500 if tier == "quick" else 7200)
    case_limit = spec.get("case_limit", {}).get(tier, 150 if tier == "quick" else 1800)
    work = tempfile.mkdtemp(prefix="vf")
    try:
        return explore(exe, prop, tier, spec, seed, n, budget, case_limit, work, env, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def explore(exe, prop, tier, spec, seed, n, budget, case_limit, work, env, t0, tb):
    shards = [Shard(exe, prop, tier, i, n, budget, env, work) for i in range(n)]
    live = list(shards)
    while live:
        time.sleep(0.05)
        for s in list(live):
            if s.p.poll() is not None: live.remove(s); continue
            cur = s.current()
            if cur[0] != s.seen: s.seen, s.since = cur[0], time.time()
            elif time.time() - s.since > case_limit:
                s.hung = True; s.kill(); s.p.wait(); live.remove(s)
    fails, merged, crashed = [], {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "assertions": 0}, []
    outcomes, tallies, samples, capped, total = set(), {}, [], False, 0
    for s in shards:
        f, c = parse(s.outp)
        fails += f
        if c is None or s.p.returncode != 0:
            crashed.append(s)
        if c:
            for k in merged: merged[k] += c[k]
            outcomes.update(c["outcomes"]); capped |= c["capped"]; total = max(total, c["cases_total"])
            for k, v in c["tallies"].items(): tallies[k] = tallies.get(k, 0) + v
            samples += c["samples"]
    problems = []   # infrastructure problems
    known = known_findings()
    confirmed, knownhits = [], {}
    # crashes: attribute to the case that was running, and replay it alone
    for s in crashed:
        _, case = s.current()
        rc, f2, c2, err = run_only(exe, prop, tier, case, env, case_limit * 2)
        serr = open(s.outp + ".err", errors="replace").read()[-2500:]
        if rc == "hang": fails.append((case, "hang", f"did not finish within {case_limit*2}s when run alone"))
        elif rc != 0: fails.append((case, "crash", f"process ended with status {rc}: {err[-800:]}"))
        elif f2: fails += f2
        else: problems.append(f"shard ended abnormally (rc={s.p.returncode}, hung={s.hung}) in case {case!r} but the case passes alone: {serr[-600:]}")
    seen = set(); new = []
    for case, what, msg in fails:
        if (case, what) in seen: continue
        seen.add((case, what))
        k = match(known, prop, case, what)
        if k: knownhits.setdefault(k["key"], [k, 0, case])[1] += 1
        else: new.append((case, what, msg))
    for case, what, msg in new[:12]:
        if what not in ("crash", "hang"):
            rc, f2, c2, err = run_only(exe, prop, tier, case, env, case_limit * 2)
            if not any(x[0] == case and x[1] == what for x in f2) and rc == 0:
                problems.append(f"failure of {case}|{what} did not replay: {msg}")
                continue
        confirmed.append((case, what, msg))
    viol = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for j, (case, what, msg) in enumerate(confirmed):
        path = os.path.join(HERE, "replays", f"{prop}-{j}.json")
        json.dump({"property": prop, "tier": tier, "case": case, "what": what, "message": msg,
                   "replay": f"python3 /verif/run.py {prop} --replay {path}"}, open(path, "w"), indent=1)
        viol.append({"case": case, "what": what, "message": msg, "replay": path})
    print(f"property={prop} tier={tier} cases={merged['cases']}/{total} states={merged['states']} transitions={merged['transitions']} "
          f"traces={merged['traces']} assertions={merged['assertions']} distinct_outcomes={len(outcomes)} failures={len(new)} known={sum(v[1] for v in knownhits.values())} "
          f"capped={capped} build={tb:.1f}s wall={time.time()-t0:.1f}s")
    for k in sorted(tallies): print(f"  {k}: {tallies[k]}")
    for k, (kk, cnt, case) in knownhits.items():
        print(f"KNOWN-FINDING: property={prop} {kk['what']} [{cnt} case(s), e.g. {case}]")
    for p in problems: print("PROBLEM:", p)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {"states": merged["states"], "transitions": merged["transitions"],
                       "traces_validated_against_impl": merged["traces"], "cases": merged["cases"], "assertions": merged["assertions"],
                       "distinct_outcomes": len(outcomes), "exhaustive": not capped and not crashed,
                       "rule": spec["rule"], "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")),
                       "counts": tallies, "samples": samples[:8] or ["(none)"]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": viol, "known_findings": [k for k in knownhits]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if confirmed:
        for v in viol: print(f"  {v['case']} | {v['what']}: {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={viol[0]['replay']}")
        return 1
    if problems or (not merged["cases"]):
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
