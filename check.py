#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE]  -  builds and runs the check of one property.

Builds the harnesses of the property from /repo's working tree, drives them in parallel
shards, writes evidence/ID.json, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1
(2: the check itself could not run)."""
import sys, os, json, hashlib, subprocess, time, tempfile, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLER_REPO", "/repo")
OUT = os.environ.get("CLER_OUT", VERIF)      # build/, evidence/ and replays/ (elsewhere for experiments)
sys.path.insert(0, os.path.join(VERIF, "lib"))
from targets import TARGETS, ASSUMPTIONS   # id -> list of harness targets

JOBS = 8
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:handle_abort=1:malloc_context_size=12",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=87",
           TSAN_OPTIONS="halt_on_error=1:exitcode=88:second_deadlock_stack=1:history_size=4",
           LC_ALL="C.UTF-8")

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

_tree = None
def tree_hash():
    """hash of every source file of /repo and of the harness library"""
    global _tree
    if _tree: return _tree
    h = hashlib.sha256()
    for base in [REPO + "/" + d for d in ("include", "desktop_blocks", "desktop_logger", "tools", "embedded_examples")] + [VERIF + "/lib", VERIF + "/props"]:
        for root, dirs, files in os.walk(base):
            dirs.sort(); dirs[:] = [d for d in dirs if d not in ("__pycache__", "_build", "build", "node_modules")]
            for f in sorted(files):
                p = os.path.join(root, f)
                if not re.search(r"\.(h|hpp|c|cc|cpp|S)$", f): continue
                h.update(p.encode()); h.update(open(p, "rb").read())
    _tree = h.hexdigest()
    return _tree

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
def build(pid, t, log):
    """compile one harness; returns the path of the executable"""
    cxx, cc = t.get("cxx", "g++"), t.get("cc", "gcc")
    opt = t.get("opt", ["-O1", "-g1", "-fno-omit-frame-pointer"])
    san = SAN[t.get("san", "asan")] + t.get("sanextra", [])
    inc = ["-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/desktop_blocks", "-I" + VERIF + "/lib", "-I" + VERIF + "/props"]
    inc = ["-I" + i.replace("$REPO", REPO).replace("$VERIF", VERIF) for i in t.get("inc", [])] + inc
    defs = [d.replace("$REPO", REPO).replace("$VERIF", VERIF) for d in t.get("defs", [])] + (["-DNDEBUG"] if t.get("ndebug") else ["-UNDEBUG"])
    common = opt + san + inc + defs + ["-w", "-pthread", "-D_GLIBCXX_ASSERTIONS"]
    srcs = [s.replace("$REPO", REPO).replace("$VERIF", VERIF) for s in [VERIF + "/props/" + t["src"]] + t.get("extra", [])]
    key = sha(tree_hash(), json.dumps(t, sort_keys=True), " ".join(common))
    bdir = os.path.join(OUT, "build", pid + "-" + t["name"] + "-" + key)
    exe = os.path.join(bdir, "harness")
    if os.path.exists(exe): return exe
    # drop stale builds of this target
    bparent = os.path.join(OUT, "build")
    os.makedirs(bparent, exist_ok=True)
    for d in os.listdir(bparent):
        if d.startswith(pid + "-" + t["name"] + "-") and d != os.path.basename(bdir): shutil.rmtree(os.path.join(bparent, d), ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    procs, objs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, "o%d.o" % i); objs.append(o)
        if s.endswith(".c"): cmd = [cc, "-std=gnu11"] + common + t.get("cflags", [])
        else: cmd = [cxx, "-std=" + t.get("std", "c++17")] + common + t.get("cxxflags", [])
        if i: cmd += t.get("extraflags", [])
        cmd += ["-c", s, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    ok = True
    for cmd, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode: ok = False; log.append(" ".join(cmd) + "\n" + out[-2500:])
    if ok:
        cmd = [cxx] + opt + san + objs + ["-pthread", "-o", exe + ".tmp"] + t.get("libs", [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: ok = False; log.append(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])
    if not ok: return None
    for o in objs: os.unlink(o)
    os.rename(exe + ".tmp", exe)
    return exe

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    if pid == "--selftest":      # setup_cmd: everything is compiled by the checks themselves
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL); os.makedirs(VERIF + "/evidence", exist_ok=True); print("ok"); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    rep = None; only = None; scale = 1.0; target_only = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"): tier = a
        elif a == "--replay": rep = args.pop(0)
        elif a == "--only": only = args.pop(0)
        elif a == "--target": target_only = args.pop(0)
        elif a == "--scale": scale = float(args.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    targets = TARGETS[pid]
    if target_only: targets = [t for t in targets if t["name"] == target_only]
    log = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: exes = list(ex.map(lambda t: build(pid, t, log), targets))
    if any(e is None for e, t in zip(exes, targets) if not t.get("optional")):
        print("BUILD-ERROR property=%s" % pid); print("\n".join(log)); return 2
    pairs = [(e, t) for e, t in zip(exes, targets) if e]
    t_build = time.time() - t0
    if rep:
        name = json.load(open(rep))["prop"]
        for e, t in pairs:
            names = [l.split("\t")[0] for l in subprocess.run([e, "list"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.splitlines()]
            if name in names: return subprocess.run([e, "replay", os.path.abspath(rep)], env=ENV).returncode
        print("no harness has property", name); return 2

    scratch = tempfile.mkdtemp(prefix="cler_%s_" % pid)
    ENV["PBT_SCRATCH"] = scratch
    try:
        return drive(pid, tier, seed, pairs, only, scale, t0, t_build, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def drive(pid, tier, seed, pairs, only, scale, t0, t_build, scratch):
    hard = 780.0 if tier == "quick" else 3.0 * 3600
    jobs, known = [], []
    for e, t in pairs:
        for l in subprocess.run([e, "list"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.splitlines():
            name, q, th, kf, rule = l.split("\t")
            if only and name != only: continue
            if kf == "1": known.append((e, t, name)); continue
            n = int(q if tier == "quick" else th)
            n = max(1, int(n * scale))
            shards = min(t.get("shards", JOBS), n)
            for s in range(shards): jobs.append((e, t, name, s, shards, n))
    # long list first keeps all cores busy; interleave properties
    jobs.sort(key=lambda j: j[3])
    running, done, idx = [], [], 0
    def start(j, k):
        e, t, name, s, shards, n = j
        sp = os.path.join(scratch, "%s.%s.%d.json" % (t["name"], name, s))
        rp = os.path.join(scratch, "%s.%s.%d.replay" % (t["name"], name, s))
        dl = max(20.0, hard - (time.time() - t0) - 60)
        env = dict(ENV)
        if t.get("env"): env.update(t["env"])
        sd = os.path.join(scratch, "w%d" % k); os.makedirs(sd, exist_ok=True)
        env["PBT_SCRATCH"] = sd
        p = subprocess.Popen([e, "run", name, str(seed), str(s), str(shards), str(n), "%.0f" % dl, sp, rp],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=sd)
        return (j, p, sp, rp)
    width = {}
    stop = False
    while idx < len(jobs) or running:
        while idx < len(jobs) and not stop:
            wsum = sum(r[0][1].get("width", 1) for r in running)
            if running and wsum + jobs[idx][1].get("width", 1) > JOBS: break
            running.append(start(jobs[idx], idx)); idx += 1
        if stop: idx = len(jobs)
        for r in list(running):
            if r[1].poll() is not None:
                running.remove(r); done.append(r)
                if r[1].returncode == 1: stop = True     # a confirmed violation: no need to start more
        time.sleep(0.005)
    # merge
    merged = {}
    viol, unconf, errors = [], [], []
    for j, p, sp, rp in done:
        name = j[2]
        if p.returncode not in (0, 1, 4) or not os.path.exists(sp):
            errors.append("%s shard %d: exit %s %s" % (name, j[3], p.returncode, p.stderr.read().decode(errors="replace")[-500:])); continue
        st = json.load(open(sp))
        m = merged.setdefault(j[1]["name"] + "/" + name, dict(rule=st["rule"], evals=0, nt=0, labels={}, hashes=set(), samples=[], time=0))
        m["evals"] += st["evals"]; m["nt"] += st["nontrivial"]; m["hashes"].update(st["hashes"])
        for k, v in st["labels"].items(): m["labels"][k] = m["labels"].get(k, 0) + v
        if len(m["samples"]) < 3: m["samples"] += st["samples"][: 3 - len(m["samples"])]
        if st["result"] == "time": m["time"] += 1
        if p.returncode == 1: viol.append((name, st["message"], rp))
        if p.returncode == 4: unconf.append((name, st["message"], rp))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rdir = os.path.join(OUT, "replays")
    rc = 0
    # known findings: listed, still failing -> KNOWN-FINDING line; not listed -> violation
    listed = {}
    kfp = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kfp):
        for k in json.load(open(kfp)).get("findings", []):
            if k["property"] == pid: listed[k["case"]] = k
    kf_seen = []
    for e, t, name in known:
        sp, rp = os.path.join(scratch, "kf.json"), os.path.join(scratch, name + ".replay")
        r = subprocess.run([e, "run", name, str(seed), "0", "1", "1", "60", sp, rp], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 1:
            if name in listed:
                print("KNOWN-FINDING: property=%s %s" % (pid, listed[name]["what"])); kf_seen.append(name)
            else: viol.append((name, json.load(open(sp))["message"], rp))
    for name, msg, rp in viol:
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-%s.json" % (pid, name))
        shutil.copy(rp, dst)
        print("%s: %s" % (name, msg))
        tr = json.load(open(dst))
        if tr.get("trace"): print("  trace: " + tr["trace"][:1500].replace("\n", "\n    "))
        if tr.get("stderr"): print("  stderr: " + tr["stderr"][:1500].replace("\n", "\n    "))
        rc = 1
    if viol: print("VIOLATION property=%s replay=%s" % (pid, os.path.join("replays", "%s-%s.json" % (pid, viol[0][0]))))
    for name, msg, rp in unconf: print("UNCONFIRMED (did not reproduce, not counted): %s: %s" % (name, msg))
    for x in errors: print("ERROR", x)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(m["evals"] for m in merged.values()),
                            distinct_nontrivial=sum(len(m["hashes"]) for m in merged.values()),
                            rule="; ".join("%s: %s" % (k, m["rule"]) for k, m in merged.items()),
                            samples=[dict(check=k, case=x) for k, m in merged.items() for x in m["samples"]][:40] or ["none"],
                            per_check={k: dict(evaluations=m["evals"], nontrivial=m["nt"], distinct_nontrivial=len(m["hashes"]), labels=m["labels"], stopped_by_time_shards=m["time"]) for k, m in merged.items()},
                            known_findings_reproduced=kf_seen, unconfirmed=len(unconf), build_s=round(t_build, 1)),
              assumptions=ASSUMPTIONS.get(pid, []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(viol), ev["wall_s"], t_build))
    if os.environ.get("PBT_VERBOSE"):
        for k, m in merged.items(): print("  ", k, m["evals"], "nt", m["nt"], "distinct", len(m["hashes"]), json.dumps(m["labels"]))
    if errors and rc == 0: return 2
    return rc

if __name__ == "__main__":
    sys.exit(main())
