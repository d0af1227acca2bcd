#!/usr/bin/env python3
"""check.py <PID> [--tier quick|thorough] [--replay FILE]

Builds the explorer from /repo's current working tree, runs every configuration that decides property PID, and reports
VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored, 1: violated, 2: no verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.path.join(HERE, "evidence")

def load_configs():
    r = []
    for l in open(os.path.join(HERE, "mc", "configs.txt")):
        l = l.strip()
        if not l or l.startswith("#"): continue
        n, b, q, t, spec, *rest = l.split("|")
        opt = dict(x.split("=") for x in (rest[0].split() if rest else []))
        r.append(dict(name=n, bin=b, quick=q.split(",") if q else [], thorough=t.split(",") if t else [], spec=spec, opt=opt))
    return r

# Every oracle watches every execution, so every configuration that explores whole contexts is run for every property; those
# marked only=1 (the deeper ones) just for the properties that name them.  P19-P21 are about components of their own.
COMPONENT = {"P19", "P20", "P21"}; ALL = {"P%02d" % i for i in range(1, 28)}

def known_keys(pid):
    keys = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+)", l)
        if m: keys.append(m[2])
    return keys

def build(out, variants):
    ps = [(v, subprocess.Popen(["bash", os.path.join(HERE, "mc", "build.sh"), out, v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for v in variants]
    ok = True
    for v, p in ps:
        o = p.communicate()[0].decode(errors="replace")
        if p.returncode or not os.path.exists(os.path.join(out, "rmcmc_" + v)):
            print("check: cannot build the explorer (%s) from the working tree:\n%s" % (v, o[-3000:])); ok = False
    return ok

def run_one(out, c, pid, keys, args, limit, replay_out):
    cmd = [os.path.join(out, "rmcmc_" + c["bin"]), "--spec", c["spec"], "--prop", pid, "--known", ",".join(keys), "--replay-out", replay_out] + args
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=out)
    t = threading.Timer(limit, p.kill); t.start()
    o, e = p.communicate(); t.cancel()
    return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")

def replay(out, c, pid, keys, f):
    rc, o, e = run_one(out, c, pid, keys, ["--replay", f], 60, f + ".again")
    if os.path.exists(f + ".again"): os.unlink(f + ".again")
    m = re.search(r"^VIOL (\S+) .*?: (.*)$", o, re.M)
    return (m[2] if m and m[1] == pid else None), e

def minimise(out, c, pid, keys, f, budget=40):
    """Shortest violating history: iterative deepening below the length found, then dropping actions one at a time."""
    t0 = time.time()
    def acts(): return [l for l in open(f) if l.startswith("act ")]
    n = len(acts())
    g = f + ".min"
    if n > 1:
        rc, o, e = run_one(out, c, pid, keys, ["--iddfs", "1", "--maxdepth", str(n - 1), "--time", str(budget / 2)], budget, g)
        if rc == 1 and os.path.exists(g) and replay(out, c, pid, keys, g)[0]: os.replace(g, f)
    a = acts(); head = [l for l in open(f) if not l.startswith("act ")]
    i = len(a) - 2
    while i >= 0 and time.time() - t0 < budget and len(a) < 400:
        b = a[:i] + a[i + 1:]
        open(g, "w").writelines(head + b)
        if replay(out, c, pid, keys, g)[0]: a = b; os.replace(g, f)
        i -= 1
    if os.path.exists(g): os.unlink(g)

def main():
    av = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); rfile = None; pid = None
    while av:
        x = av.pop(0)
        if x == "--tier": tier = av.pop(0)
        elif x == "--replay": rfile = av.pop(0)
        else: pid = x
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    cfgs = load_configs(); keys = known_keys(pid)
    sel = [c for c in cfgs if pid in c["quick"] or (tier == "thorough" and pid in c["thorough"])
           or (pid not in COMPONENT and pid in ALL and "only" not in c["opt"] and not c["spec"].startswith("mode="))]
    if not sel: print("check: unknown property", pid); return 2
    os.makedirs(EV, exist_ok=True)
    out = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        if rfile:
            spec = next(l for l in open(rfile) if l.startswith("config "))[7:].strip()
            c = next((c for c in cfgs if c["spec"] == spec), dict(bin="small", spec=spec))
            if not build(out, [c["bin"]]): return 2
            r = subprocess.run([os.path.join(out, "rmcmc_" + c["bin"]), "--spec", spec, "--prop", pid, "--known", ",".join(keys), "--replay", os.path.abspath(rfile), "-v"], cwd=out)
            return r.returncode
        if not build(out, sorted({c["bin"] for c in sel})): return 2
        return explore(out, sel, pid, tier, keys, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)

def explore(out, sel, pid, tier, keys, t0):
    lock = threading.Lock(); results = {}; stop = [False]
    def weight(c): return -float(c["opt"].get("w", 1))
    queue = sorted(sel, key=weight)
    def worker():
        while True:
            with lock:
                if stop[0] or not queue: return
                c = queue.pop(0)
            if tier == "quick":
                lim = 150; args = ["--time", "150"]
                if "d" in c["opt"]: args += ["--maxdepth", c["opt"]["d"]]
            else:
                lim = int(os.environ.get("VP_THOROUGH_S", c["opt"].get("T", "240"))); args = ["--auto", "30000000", "--time", str(lim)]
            r = run_one(out, c, pid, keys, args, lim + 60, os.path.join(out, c["name"] + ".replay"))
            with lock:
                results[c["name"]] = (c, r)
                if r[0] == 1 and not os.environ.get("VP_ALL"): stop[0] = True
    th = [threading.Thread(target=worker) for _ in range(min(os.cpu_count() or 4, 8))]
    for t in th: t.start()
    for t in th: t.join()

    known = {}; viols = []; bad = []; stats = []
    for name, (c, (rc, o, e)) in sorted(results.items()):
        for m in re.finditer(r"^KNOWN (\S+) (\S+) (.*)$", o, re.M):
            if m[1] == pid: known.setdefault(m[2], m[3])
        if rc == 1: viols.append((c, o, e))
        elif rc == 0:
            m = re.search(r"^STATS (\{.*\})$", o, re.M)
            s = json.loads(m[1]) if m else None
            if not s or s["transitions"] == 0: bad.append((name, "explored nothing"))
            else: s["name"] = name; stats.append(s)
        else: bad.append((name, "exit %d: %s" % (rc, (e or o)[-600:])))
    reported = 0; tmo = 1
    for c, o, e in viols:
        f = os.path.join(out, c["name"] + ".replay")
        msg, err = replay(out, c, pid, keys, f) if os.path.exists(f) else (None, "")
        if not msg: bad.append((c["name"], "reported a violation that its replay does not reproduce: " + o[:300])); continue
        if not reported: minimise(out, c, pid, keys, f)
        dst = os.path.join(EV, "%s-%s.replay" % (pid, c["name"])); shutil.copy(f, dst)
        msg, err = replay(out, c, pid, keys, f)
        print("%s fails in configuration %s [%s]: %s" % (pid, c["name"], c["spec"], msg))
        for l in open(dst):
            if l.startswith("act "): print("   ", l.split("#", 1)[-1].strip())
        san = re.search(r"ERROR: AddressSanitizer.*", err or "")
        if san: print("   ", san[0])
        print("VIOLATION property=%s replay=%s" % (pid, dst)); reported += 1
    for k in keys:
        if k in known: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
    cuts = {}
    for s in stats:
        for k, v in s["counts"].items():
            if k.startswith("cut:"): cuts[k[4:]] = cuts.get(k[4:], 0) + v
    cnt = {}
    for s in stats:
        for k, v in s["counts"].items():
            if not k.startswith("cut:"): cnt[k] = cnt.get(k, 0) + v
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": sum(s["states"] for s in stats), "transitions": sum(s["transitions"] for s in stats),
                       "traces_validated_against_impl": sum(s["paths"] for s in stats),
                       "transitions_executed_on_the_implementation_in_all_passes": sum(s["executed"] for s in stats),
                       "settled_and_shut_down_executions": sum(s["terminals"] for s in stats),
                       "samples": [{"configuration": s["name"], "execution": x} for s in stats for x in s["samples"][:1]][:12],
                       "exhaustive": bool(stats) and all(s["exhaustive"] for s in stats) and not viols,
                       "configurations": [{"name": s["name"], "spec": s["config"], "states": s["states"], "transitions": s["transitions"], "max_depth": s["maxdepth"],
                                           "bound": "whole reachable space" if s["exhaustive"] else ("all histories of at most %d actions" % s["depth_complete"] if s["depth_complete"] else "truncated by the time or state limit"),
                                           "seconds": s["wall"]} for s in stats],
                       "events": cnt, "branches_cut_because_another_property_failed": cuts},
          "assumptions": ["simulated kernel: sockets, poll registrations and clock behave as mc/kernel.hpp models them (Linux semantics)", "single thread per context, as the library documents",
                          "64-bit state fingerprints are collision free", "x86-64 gcc build with AddressSanitizer; 'small' configurations compile the library with a 96-byte packet and 40-byte payload limit, 'scale' configurations with 560 and 40, 'huge' ones with 8000 and 40, 'many' ones with 96 and 40"],
          "wall_s": round(time.time() - t0, 2), "violations": reported}
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for n, m in bad: print("check: no verdict from configuration %s: %s" % (n, m))
    ex = sum(s["exhaustive"] for s in stats)
    print("%s %s: %d configurations (%d exhaustive), %d states, %d transitions, %d executions, %.1f s%s" % (pid, tier, len(stats), ex, ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"], ev["wall_s"], "" if not cuts else ", cut " + json.dumps(cuts)))
    if reported: return 1
    return 2 if bad else 0

if __name__ == "__main__": sys.exit(main())
