#!/usr/bin/env python3
"""Driver of the checks: python3 run.py <property> [--tier quick|thorough] [--replay FILE]
Builds the property's harness from /repo's working tree in a scratch directory, explores every case/schedule of
the tier on all cores, confirms each violation by replaying it, compares with known_findings.json and writes
evidence/<property>.json. Exit 0: held. Exit 1: VIOLATION. Exit 2: the check itself failed."""
import sys, os, json, subprocess, tempfile, shutil, time, glob, struct, re, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, VERIF)
from specs import SPECS
NPROC = int(os.environ.get("VF_JOBS", os.cpu_count() or 4))

def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True); sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(spec, scratch):
    inc = [f"-I{d}" for d in sorted(glob.glob(f"{REPO}/subprojects/*/include"))]
    libsrc = sorted(glob.glob(f"{REPO}/subprojects/ufjfmltk-core/src/*.cpp") + glob.glob(f"{REPO}/subprojects/ufjfmltk-classifier/src/*.cpp"))
    for p in ("clusterer", "ensemble", "featselect", "regressor", "valid") + spec.get("parts", ()):
        libsrc += sorted(glob.glob(f"{REPO}/subprojects/ufjfmltk-{p}/src/*.cpp"))
    jobs = []; objs = []
    if spec["engine"] == "mc":
        cf = ["-std=c++17", "-O1", "-g", "-w", "-fsanitize=thread", f"-I{VERIF}/mc"] + inc
        srcs = [f"{VERIF}/harness/{s}" for s in spec["src"]] + libsrc
        jobs.append((["g++", "-std=c++17", "-O2", "-w", "-c", f"{VERIF}/mc/mc_rt.cpp", "-o", f"{scratch}/rt.o"], None)); objs.append(f"{scratch}/rt.o")
    else:
        cf = ["-std=c++17", spec.get("opt", "-O1"), "-g1", "-w"] + ([] if spec.get("san") is False else ["-fsanitize=address"]) + ["-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", f"-I{VERIF}/harness"] + inc
        srcs = [f"{VERIF}/harness/{s}" for s in spec["src"]] + libsrc
    cf += spec.get("flags", [])
    for s in srcs:
        o = f"{scratch}/{os.path.basename(s)}.{len(objs)}.o"; objs.append(o)
        jobs.append((["g++"] + cf + ["-c", s, "-o", o], o))
    procs = [(c, o, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")) for c, o in jobs]
    for c, o, p in procs:
        out, _ = p.communicate()
        if p.returncode: die("build failed: " + " ".join(c[-4:]) + "\n" + out[-3000:])
        if spec["engine"] == "mc" and o:
            r = sh(["objcopy"] + [x for f in ("memcpy", "memmove", "memset") for x in ("--redefine-sym", f"{f}=mc_{f}")] + [o])
            if r.returncode: die("objcopy: " + r.stdout)
    exe = f"{scratch}/harness"
    link = ["g++"] + objs + ["-o", exe, "-lpthread", "-ldl"] + (["-rdynamic"] if spec["engine"] == "mc" else [] if spec.get("san") is False else ["-fsanitize=address"])
    r = sh(link)
    if r.returncode: die("link failed:\n" + r.stdout[-3000:])
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=66:quarantine_size_mb=16:malloc_context_size=6:allocator_may_return_null=0", LC_ALL="C", TZ="UTC")

def launch(exe, args, scratch, tag):
    err = open(f"{scratch}/{tag}.err", "wb")
    return subprocess.Popen([exe] + args, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=ENV, cwd=scratch, preexec_fn=os.setsid)

def tail(path, n=1500):
    try:
        s = open(path, "rb").read().decode(errors="replace")
    except OSError:
        return ""
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*Assertion[^\n]*|VF-TIMEOUT|VF-EXIT[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)", s)
    head = m.group(1).strip() if m else ""
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", s)
    fr = [f for f in fr if "/repo/" in f][:3]
    return (head + " " + " <- ".join(fr)).strip() or s[-300:]

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()

def lines(path):
    try:
        with open(path, errors="replace") as f:
            return [json.loads(l) for l in f if l.strip()]
    except (OSError, ValueError) as e:
        die(f"unreadable harness output {path}: {e}")

def run_all(spec, exe, tier, scratch, deadline):
    """-> (violations, records, notes)"""
    base = (["--thorough"] if tier == "thorough" else [])
    sh_n = NPROC; viols = []; recs = []; work = []
    for i in range(sh_n):
        out = f"{scratch}/s{i}.out"; open(out, "w").close()
        sd = f"{scratch}/d{i}"; os.makedirs(sd, exist_ok=True)
        work.append(dict(i=i, out=out, sd=sd, start=0, restarts=0, p=launch(exe, base + ["--out", out, "--shard", str(i), str(sh_n), "--scratch", sd] if spec["engine"] == "seq" else base + ["--out", out, "--shard", str(i), str(sh_n)], scratch, f"s{i}")))
    live = list(work)
    while live:
        time.sleep(0.05)
        if time.time() > deadline:
            for w in live: kill(w["p"])
            die("the exploration did not finish within its time limit")
        for w in list(live):
            rc = w["p"].poll()
            if rc is None: continue
            live.remove(w)
            if rc == 0: continue
            if spec["engine"] == "mc":
                if rc == 1: continue
                die(f"harness exited with {rc}: " + tail(f"{scratch}/s{w['i']}.err"))
            cur = open(w["out"] + ".cur", "rb").read(); n = struct.unpack("I", cur[:4])[0]
            if not n: die(f"harness died outside of a case (exit {rc}): " + tail(f"{scratch}/s{w['i']}.err"))
            idx, desc = cur[4:4 + n].decode(errors="replace").split("\n", 1)
            msg = {42: "the call does not return", 43: "the library ended the process"}.get(rc, f"crash (exit {rc})")
            key = {42: "hang", 43: "exit"}.get(rc, "crash")
            viols.append(dict(idx=int(idx), key=key, case=desc, msg=msg + ": " + tail(f"{scratch}/s{w['i']}.err")))
            w["restarts"] += 1
            if w["restarts"] <= 3:
                w["p"] = launch(exe, base + ["--out", w["out"], "--shard", str(w["i"]), str(sh_n), "--start", str(int(idx) + 1), "--scratch", w["sd"]], scratch, f"s{w['i']}"); live.append(w)
            else:
                recs.append({"t": "incomplete"})
    for w in work:
        for r in lines(w["out"]):
            if r["t"] == "viol": viols.append(r)
            else: recs.append(r)
    return viols, recs

def confirm(spec, exe, tier, scratch, v):
    """replay the case alone; True if it fails again"""
    base = (["--thorough"] if tier == "thorough" else []); out = f"{scratch}/confirm.out"
    for f in (out, out + ".cur"):
        if os.path.exists(f): os.remove(f)
    open(out, "w").close()
    if spec["engine"] == "mc": args = base + ["--out", out, "--case", v["case"], "--choices", v["choices"]]
    else:
        sd = f"{scratch}/dc"; os.makedirs(sd, exist_ok=True)
        args = base + ["--out", out, "--only", str(v["idx"]), "--limit", "120", "--scratch", sd]
    p = launch(exe, args, scratch, "confirm")
    try: rc = p.wait(timeout=200)
    except subprocess.TimeoutExpired:
        kill(p); return True if v["key"] == "hang" else None
    if rc == 0 or (spec["engine"] == "mc" and rc == 1):
        return any(r["t"] == "viol" for r in lines(out))
    return rc in (42, 43, 66) or rc < 0 or rc == 134 or rc == 139 or (rc == 1 and spec["engine"] == "seq")

def main():
    args = sys.argv[1:]
    if not args or args[0] not in SPECS: die("usage: run.py <property> [--tier T] [--replay FILE]; properties: " + " ".join(SPECS))
    pid = args[0]; spec = SPECS[pid]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-", dir="/tmp")
    try:
        rc = work(pid, spec, tier, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def work(pid, spec, tier, seed, scratch, t0, replay):
    exe = build(spec, scratch); tb = time.time() - t0
    if replay:
        v = json.load(open(replay)); r = confirm(spec, exe, v.get("tier", tier), scratch, v)
        print(json.dumps(v, indent=1)); print("still fails" if r else "passes"); return 1 if r else 0
    viols, recs = run_all(spec, exe, tier, scratch, t0 + (820 if tier == "quick" else 6 * 3600))
    known = [k for k in json.load(open(f"{VERIF}/known_findings.json"))["findings"] if k["property"] == pid and k["status"] == "known"]
    new = []; seen_known = set()
    for v in viols:
        hit = [i for i, k in enumerate(known) if v["key"] == k["key"] and ("case" not in k or k["case"] == v["case"] or re.fullmatch(k["case"], v["case"]))]
        if hit: seen_known.add(hit[0])
        else: new.append(v)
    for i in sorted(seen_known): print(f"KNOWN-FINDING: property={pid} {known[i]['what']}")
    # evidence
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=spec.get("assumptions", []))
    cov = {"build_s": round(tb, 1), "shards": NPROC, "known_findings_seen": len(seen_known)}
    if spec["engine"] == "mc":
        sc = {}
        for r in recs:
            if r["t"] != "mc": continue
            a = sc.setdefault(r["name"], dict(bound=r["bound"], executions=0, points=0, traces=0, max_points=0, capped=False, outcomes=set()))
            a["executions"] += r["executions"]; a["points"] += r["points"]; a["traces"] += r["traces"]; a["max_points"] = max(a["max_points"], r["max_points"]); a["capped"] |= r["capped"]; a["outcomes"] |= set(r["outcomes"])
        ex = sum(a["executions"] for a in sc.values())
        big = sorted(sc.items(), key=lambda x: -x[1]["executions"])
        cov.update(states=sum(a["traces"] for a in sc.values()), transitions=sum(a["points"] for a in sc.values()), traces_validated_against_impl=ex,
                   rule="stateless exploration of the implementation itself: every execution is one schedule of the compiled code; states counts distinct (thread, operation) traces, transitions the scheduling points executed, traces_validated_against_impl the executions",
                   samples=[f"{n}: bound {a['bound']}, {a['executions']} schedules, {a['points']} points, longest {a['max_points']}, outcomes {sorted(a['outcomes'])[:4]}" for n, a in big[:10]],
                   scenarios=len(sc), bounds={str(b): sum(1 for a in sc.values() if a["bound"] == b) for b in sorted({a["bound"] for a in sc.values()})}, exhaustive=not any(a["capped"] for a in sc.values()) and not new,
                   multi_outcome_scenarios=sum(1 for a in sc.values() if len(a["outcomes"]) > 1))
        ok = all(any(r["t"] == "done" for r in lines(f"{scratch}/s{i}.out")) for i in range(NPROC))
    else:
        sums = [r for r in recs if r["t"] == "sum"]; st = set(); nt = set()
        for f, tgt in (("states", st), ("nontriv", nt)):
            for i in range(NPROC):
                p = f"{scratch}/s{i}.out.{f}"
                if os.path.exists(p):
                    b = open(p, "rb").read(); tgt.update(struct.unpack(f"{len(b)//8}Q", b))
        ev_n = sum(r["evals"] for r in sums); cnt = {}
        for r in sums:
            for k, n in r["counters"].items(): cnt[k] = cnt.get(k, 0) + n
        samples = [s for r in sums for s in r["samples"]][:: max(1, sum(len(r["samples"]) for r in sums) // 12)][:14]
        if spec["level"] == "model_checking":
            cov.update(states=len(st), transitions=sum(r["transitions"] for r in sums), traces_validated_against_impl=ev_n, rule=spec["rule"])
        else:
            cov.update(evaluations=ev_n, distinct_nontrivial=len(nt), rule=spec["rule"])
        cov.update(samples=samples, counters=cnt, exhaustive=not new and not any(r["t"] == "incomplete" for r in recs))
        ok = len(sums) >= NPROC or any(r["t"] == "incomplete" for r in recs)
        if not new and ok and len(sums) and len({r["cases"] for r in sums}) != 1: die("shards disagree on the case list")
    ev["coverage"] = cov
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    if not new:
        if not ok: die("a shard ended without finishing")
        print(f"{pid} {tier}: held on everything explored; {json.dumps({k: cov[k] for k in cov if k in ('states','transitions','traces_validated_against_impl','evaluations','distinct_nontrivial','scenarios')})} in {ev['wall_s']} s (build {cov['build_s']} s)")
        return 0
    new.sort(key=lambda v: (v.get("idx", 0), len(v.get("choices", "")))); per = {}; shown = 0; confirmed = 0
    for v in new:
        if per.get(v["key"], 0) >= 1 or shown >= 8: continue
        r = confirm(spec, exe, tier, scratch, v)
        if not r:
            print(f"UNCONFIRMED: {v['key']}: {v['case'][:300]}: {v['msg'][:300]}"); continue
        per[v["key"]] = 1; shown += 1; confirmed += 1
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True); path = f"{VERIF}/evidence/replay/{pid}-{shown}.json"
        json.dump(dict(v, property=pid, tier=tier, replay_cmd=f"python3 {VERIF}/run.py {pid} --replay {path}"), open(path, "w"), indent=1)
        print(f"  [{v['key']}] case: {v['case'][:600]}\n     {v['msg'][:600]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    if not confirmed: die("violations were reported but none could be replayed")
    return 1

main()
