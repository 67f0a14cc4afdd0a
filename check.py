#!/usr/bin/env python3
"""check.py ID quick|thorough            run the check of one property
   check.py ID quick|thorough --replay F  run the single case recorded in F

Builds the harness against /repo's working tree, runs it as several worker
processes, reads their verdicts, crashes and race reports, and rewrites
evidence/ID.json.  Exit 0: held on everything explored.  Exit 1: a VIOLATION
line was printed.  Exit 2: no verdict (the tree does not build, or a worker
failed for a reason that is not the library's)."""
import array, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = "github.com/chronos-tachyon/morehttp/"
OWN = LIB + "zzverif"
KNOWN = os.path.join(HERE, "known-findings.json")

# worker processes: (race detector?, number of shards)
PLAN = {
    "B10": [(False, 3), (True, 5)],
    "B12": [(False, 5), (True, 3)],
    "B02": [(False, 6), (True, 2)],
    "B03": [(False, 6), (True, 2)],
    "B04": [(False, 6), (True, 2)],
    "R02": [(False, 5), (True, 3)],
    "M01": [(False, 4), (True, 4)],
    "H01": [(False, 5), (True, 3)],
}
DEFAULT_PLAN = [(False, 8)]
# A data race reported in the library breaks these; elsewhere it is only noted.
RACE_BREAKS = {"B02", "B03", "B04", "B10", "B12", "R02", "M01", "H01"}


def env():
    e = dict(os.environ)
    p = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(p):
        e["PATH"] = p + os.pathsep + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly", GONOSUMDB="*", GONOSUMCHECK="1", GOTRACEBACK="all")
    return e


def lib_frame(line):
    line = line.strip()
    return line.startswith(LIB) and not line.startswith(OWN)


def races(path_prefix):
    """Race reports naming library code, one per distinct pair of functions."""
    out = {}
    d, base = os.path.split(path_prefix)
    for f in sorted(os.listdir(d)):
        if not f.startswith(base + "."):
            continue
        for rep in open(os.path.join(d, f), errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in rep:
                continue
            # the two accesses, without the creation stacks
            acc = rep.split("Goroutine ")[0]
            frames = [re.sub(r"\(.*", "", l.strip()) for l in acc.splitlines() if lib_frame(l)]
            if not frames:
                continue
            out.setdefault(" / ".join(frames[:6]), rep.strip())
    return out


def main():
    if len(sys.argv) < 3 or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    only = None
    if len(sys.argv) == 5 and sys.argv[3] == "--replay":
        only = json.load(open(sys.argv[4]))
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if only:
        seed, tier = only["seed"], only["tier"]
    seed = abs(seed)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        return run(prop, tier, seed, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def build(scratch, race, e):
    out = os.path.join(scratch, "harness-race" if race else "harness")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("check: the harness does not build against /repo:\n" + p.stdout[-4000:])
        return None
    return out


def run(prop, tier, seed, only, scratch, t0):
    e = env()
    plan = PLAN.get(prop, DEFAULT_PLAN)
    if only:
        plan = [(only["race_detector"], 5 if only["kind"] == "race" else 1)]
    bins = {}
    for race in sorted({r for r, _ in plan}):
        bins[race] = build(scratch, race, e)
        if not bins[race]:
            return 2
    build_s = time.time() - t0
    budget = 420 if tier == "quick" else 3000
    hard = budget + 330
    workers = []
    for race, n in plan:
        for i in range(n):
            d = os.path.join(scratch, "%s%d" % ("r" if race else "n", i))
            os.mkdir(d)
            os.mkdir(os.path.join(d, "tmp"))
            cmd = [bins[race], "-prop", prop, "-tier", tier, "-seed", str(seed), "-known", KNOWN, "-out", d,
                   "-shard", "%d/%d" % (i, n), "-budget", "%ds" % budget]
            if only and only["kind"] != "race":
                cmd += ["-only", "%s:%d" % (only["kind"], only["index"])]
            we = dict(e, GORACE="halt_on_error=0 exitcode=0 history_size=2 log_path=" + os.path.join(d, "race"), TMPDIR=os.path.join(d, "tmp"))
            err = open(os.path.join(d, "stderr"), "w")
            p = subprocess.Popen(cmd, cwd=d, env=we, stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
            workers.append((race, i, n, d, p))
    end = time.time() + hard
    viols, known, notes, results, dead = [], {}, [], [], []
    for race, i, n, d, p in workers:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        res = None
        try:
            res = json.load(open(os.path.join(d, "result.json")))
        except (OSError, ValueError):
            pass
        stderr = open(os.path.join(d, "stderr"), errors="replace").read()
        cur = "start:0"
        try:
            cur = open(os.path.join(d, "current")).read().strip() or cur
        except OSError:
            pass
        if res is not None:
            res["_distinct"] = os.path.join(d, "distinct")
            results.append(res)
            for v in res["violations"]:
                v["race_detector"] = race
                viols.append(v)
            for k, w in (res.get("known_findings_hit") or {}).items():
                known[k] = w
        if rc not in (0, 1) or res is None:
            k, _, ix = cur.rpartition(":")
            # Go prints the goroutine that died first
            m = re.search(r"^(panic:|fatal error:|unexpected fault|SIGSEGV|runtime:).*", stderr, re.M)
            first = stderr[m.start():] if m else ""
            g = re.search(r"\ngoroutine .*?(?:\n\n|\Z)", first, re.S)
            frames = [l for l in (g.group(0) if g else first).splitlines() if lib_frame(l)]
            if rc == 2 and m and frames:
                viols.append({"kind": k, "index": int(ix or 0), "race_detector": race,
                              "detail": "the process died inside the library: %s at %s" % (m.group(0), " < ".join(frames[:4]))})
            else:
                dead.append("worker %s%d ended with %s in case %s: %s" % ("race" if race else "", i, rc, cur, stderr[-600:]))
        if race:
            for key, rep in races(os.path.join(d, "race")).items():
                if prop in RACE_BREAKS:
                    k, _, ix = cur.rpartition(":")
                    viols.append({"kind": "race", "index": 0, "race_detector": True, "detail": "data race: " + key, "history": rep[:6000]})
                else:
                    notes.append("data race: " + key)
    # identical race reports of several workers count once
    seen, uniq = set(), []
    for v in viols:
        key = v["detail"] if v["kind"] == "race" else (v["kind"], v["index"], v["detail"])
        if key not in seen:
            seen.add(key)
            uniq.append(v)
    viols = uniq

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    union = set()
    observed, maxima, foreign, inconc, samples, assume = {}, {}, {}, [], [], []
    for r in results:
        a = array.array("Q")
        try:
            with open(r["_distinct"], "rb") as f:
                a.frombytes(f.read())
        except OSError:
            pass
        union.update(a)
        pre = "race_build." if r["race_detector"] and len(bins) > 1 else ""
        for k, v in (r.get("observed") or {}).items():
            observed[pre + k] = observed.get(pre + k, 0) + v
        for k, v in (r.get("maxima") or {}).items():
            maxima[k] = max(maxima.get(k, 0), v)
        for k, v in (r.get("deviations_of_other_properties") or {}).items():
            foreign[k] = foreign.get(k, 0) + v
        inconc += r.get("inconclusive") or []
        samples += (r.get("samples") or [])[:2]
        for x in r.get("assumptions") or []:
            if x not in assume:
                assume.append(x)
    wall = time.time() - t0
    rule = next((r["rule"] for r in results if r.get("rule")), "")
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in m["checks"] if c["property"] == prop), "exploration")
    out_viol = []
    if not only:
        for f in os.listdir(evdir):
            if f.startswith(prop + "-replay-"):
                os.unlink(os.path.join(evdir, f))
    for n, v in enumerate(viols[:10]):
        rp = os.path.join(evdir, "%s-replay-%d.json" % (prop, n))
        if not only:
            with open(rp, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1, default=str)
        out_viol.append({"detail": v["detail"][:2000], "replay": rp})
    if not only:
        cov = {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(union),
            "rule": rule or "no worker finished",
            "samples": samples[:6] if samples else [],
            "observed": observed,
            "maxima": maxima,
            "workers": [{"race_detector": r, "shards": n} for r, n in plan],
            "deviations_of_other_properties": foreign,
            "inconclusive": inconc[:10],
            "notes": notes[:10],
            "known_findings_hit": known,
            "build_s": round(build_s, 1),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": assume, "wall_s": round(wall, 2), "violations": len(viols), "violation_details": out_viol}
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    if inconc:
        print("check: %d inconclusive case(s), e.g. %s" % (len(inconc), inconc[0][:300]))
    for d in dead[:3]:
        print("check: " + d)
    if viols:
        for v, o in zip(viols[:10], out_viol):
            print("%s %s:%s %s" % (prop, v["kind"], v["index"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, o["replay"]))
        return 1
    evals = sum(r["evaluations"] for r in results)
    print("%s %s seed=%d: %d evaluations, %d distinct, %d workers, %.1f s (build %.1f s)" % (prop, tier, seed, evals, len(union), len(results), wall, build_s))
    if dead or not results or (not only and evals == 0):
        print("check: no verdict")
        return 2
    print("PASS" if not only else "no violation in the replayed case")
    return 0


if __name__ == "__main__":
    sys.exit(main())
