#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property.

usage: run.py --property Cxx [--tier quick|thorough] [--secs N] [--build-only]
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
SIM = V + "/sim"
B = os.environ.get("VERIF_BUILD", V + "/build")
T0 = time.time()

sys.path.insert(0, V)
from targets import TARGETS, CHECKS, OBJ  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_digest(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Build:
    def __init__(self):
        self.src_d = tree_digest(SRC, (".h", ".hpp", ".c", ".cpp", ".inc", ".s", ".S", ".txt"))
        self.sim_d = tree_digest(SIM, (".h", ".hpp", ".c", ".cpp"))
        os.makedirs(B + "/obj", exist_ok=True)

    def obj(self, name):
        o = OBJ[name]
        cmd = o["cmd"]
        key = hashlib.sha256(("\0".join(cmd) + (self.src_d if o["sut"] else "") + self.sim_d + SRC).encode()).hexdigest()[:20]
        out = "%s/obj/%s-%s.o" % (B, name, key)
        if os.path.exists(out):
            return out, None
        tmp = out + ".%d.tmp" % os.getpid()
        c = [x.replace("@SRC@", SRC).replace("@SIM@", SIM).replace("@OUT@", tmp).replace("@B@", B) for x in cmd]
        if o.get("shell"):
            r = sh(["bash", "-ec", c[0]])
        else:
            r = sh(c)
        if r.returncode or not os.path.exists(tmp):
            return None, "%s: %s\n%s" % (name, " ".join(c), r.stdout[-4000:])
        os.rename(tmp, out)
        return out, None

    def targets(self, names):
        objs = sorted({o for n in names for o in TARGETS[n]["objs"]}, key=lambda o: -OBJ[o].get("weight", 1))
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            res = dict(zip(objs, ex.map(self.obj, objs)))
        errs = [e for _, e in res.values() if e]
        if errs:
            print("BUILD FAILED\n" + "\n".join(errs))
            sys.exit(3)

        def link(n):
            t = TARGETS[n]
            files = [res[o][0] for o in t["objs"]]
            key = hashlib.sha256(("\0".join(files) + "\0".join(t["link"])).encode()).hexdigest()[:20]
            out = "%s/%s-%s" % (B, n, key)
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                r = sh([t.get("ld", "clang++")] + t["pre"] + files + ["-o", tmp] + t["link"])
                if r.returncode:
                    print("LINK FAILED " + n + "\n" + r.stdout[-4000:])
                    sys.exit(3)
                os.rename(tmp, out)
            return out
        with ThreadPoolExecutor(4) as ex:
            return dict(zip(names, ex.map(link, names)))


def known_findings():
    """lines  'property=<id> class=<regex> match=<regex>  # text'  under [known]; 'fixed:' lines suppress nothing"""
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) +(.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", default="")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    os.makedirs(B, exist_ok=True)
    b = Build()
    if a.build_only:
        b.targets(sorted(TARGETS))
        return 0
    prop = a.property
    ck = CHECKS[prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    parts = ck["parts"]
    bins = b.targets(sorted({p["target"] for p in parts}))
    build_s = time.time() - T0
    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = B + "/replays"
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(B + "/cache", exist_ok=True)
    known = [k for k in known_findings() if k[0] == prop]
    total = a.secs or (ck.get("thorough_secs", 900) if tier == "thorough" else ck.get("quick_secs", 60))
    results, violation, kf = [], None, []
    for i, p in enumerate(parts):
        work = "%s/work-%s-%d-%d" % (B, prop, i, os.getpid())
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        out = work + "/out.json"
        secs = max(5.0, total * p["share"])
        cmd = [bins[p["target"]], "--prop", p.get("as", prop), "--seed", str((a.seed * 1000003 + i) & 0x7FFFFFFFFFFFFFFF), "--secs", "%g" % secs,
               "--jobs", os.environ.get("VERIF_JOBS", "8"), "--work", work, "--replay-dir", rdir, "--out", out,
               "--min-secs", "120" if tier == "thorough" else "60"] + p.get("args", [])
        if tier == "thorough":
            cmd.append("--thorough")
        for k in known:
            cmd += ["--ignore", k[1]]
        env = dict(os.environ, DSIM_CACHE=B + "/cache")
        env.pop("DSIM_REEXEC", None)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=work)
        sys.stdout.write(r.stdout)
        j = None
        if os.path.exists(out):
            j = json.load(open(out))
        if r.returncode not in (0, 1, 2) or j is None:
            print("the simulator did not finish (%d)" % r.returncode)
            return 4
        j["part"] = p
        results.append(j)
        shutil.rmtree(work, ignore_errors=True)
        if r.returncode == 1 and j.get("violation"):
            violation = j["violation"]
            break
        if r.returncode == 2 and j.get("viol", 0):
            print("note: %d failing runs did not repeat and are not reported" % j["viol"])
    ev = evidence(prop, tier, a.seed, results, violation, build_s)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if violation:
        rp = violation["replay"]
        print("%s: %s" % (violation["class"], violation["message"][:1500]))
        print("replay with: %s --replay %s" % (os.path.relpath(bins[results[-1]["part"]["target"]], V), rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    c = ev["coverage"]
    print("property %s held: %d simulated runs, %d distinct non-trivial, %.0f s" % (prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    return 0


FAULTS = ("recv_fragment short_write write_delay spurious_wakeup thread_stall thread_starved stall_at_sync machine_pause peer_eof peer_close peer_reset peer_reset_late "
          "peer_junk peer_bad_header peer_stops_reading stop_sent thread_create_fails alloc_failure marker_check_interrupted marker_removed value_late stall_at_breakpoint clock_jump corruption_noticed fast_path_ends_early recv_eintr slow_reader").split()


def evidence(prop, tier, seed, results, violation, build_s):
    ck = CHECKS[prop]
    n = sum(r["n"] for r in results)
    expl = sum(r["explore_s"] for r in results)
    cnt = {}
    for r in results:
        for k, v in r["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
    fk = [k for k in cnt if k in FAULTS or k.startswith("fault_")]
    cov = {
        "evaluations": n,
        "distinct_nontrivial": sum(r["distinct_nt"] for r in results),
        "rule": ck["rule"],
        "samples": [s for r in results for s in r["samples"]][:6],
        "distinct_schedules": sum(r["distinct"] for r in results),
        "distinct_measure": "distinct runs, by a hash over the sequence of synchronisation and I/O events with the thread that made each",
        "runs_per_hour": int(n * 3600 / expl) if expl else 0,
        "seeds": {"base": seed, "per_run": "derived from base, part and run number", "count": n},
        "simulated_seconds": round(sum(r["ns"] for r in results) * 1e-9, 3),
        "instrumented_steps": sum(r["steps"] for r in results),
        "context_switches": sum(r["sw"] for r in results),
        "threads_simulated": sum(r["thr"] for r in results),
        "faults_injected": {k: cnt[k] for k in sorted(fk)},
        "events": {k: cnt[k] for k in sorted(cnt) if k not in fk},
        "inconclusive_runs": {"count": sum(r["inc"] for r in results), "reasons": {k: v for r in results for k, v in r["inconclusive"].items()}},
        "determinism_rechecks": {"runs": sum(r["rechk"] for r in results), "mismatches": sum(r["mism"] for r in results)},
        "unrepeatable_failures_dropped": sum(r["viol"] for r in results) if not violation else 0,
        "ignored_known": {k: v for r in results for k, v in r["ignored"].items()},
        "parts": [{"binary": r["part"]["target"], "runs": r["n"], "seconds": round(r["explore_s"], 1)} for r in results],
        "real_code": ck["real"],
        "stubs": ck["stubs"],
        "build_seconds": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ck["assumptions"],
          "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    if violation:
        ev["coverage"]["violation"] = violation
    return ev


if __name__ == "__main__":
    sys.exit(main())
