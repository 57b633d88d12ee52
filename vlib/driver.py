"""Builds the monitors for one property from /repo's working tree, runs them, and reports.

    python3 vlib/driver.py <property> [--replay FILE]

Exit 0: held on everything observed.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check
itself could not give an answer (nothing compiled, too little observed, harness error).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import umbrella  # noqa: E402
from specs import SPECS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SHIM = os.path.join(VERIF, "shim")
COMMON = ["-std=c++17", "-w", "-fmax-errors=20", "-fno-omit-frame-pointer", "-g1",
          "-D_GLIBCXX_ASSERTIONS", "-include", "verif_prelude.hpp"]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "ubplus": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "asan0": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "plain0": ["-O0"],
    "opt": ["-O2"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=0:"
                    "hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "LSAN_OPTIONS": "exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LC_ALL": "C",
})


class HarnessError(Exception):
    pass


def sh(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=ENV, cwd=cwd, errors="replace", text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        err = e.stderr or b""
        return 124, "", err.decode(errors="replace") if isinstance(err, bytes) else err


def compile_one(work, name, job):
    """compile with the cut umbrella; fall back to the whole one, then to clang."""
    src = os.path.join(VERIF, "harness", job["src"])
    exe = os.path.join(work, name)
    log = []
    profiles = [job.get("profile", "FULL")]
    if profiles[0] != "FULL":
        profiles.append("FULL")
    for compiler in ("g++", "clang++"):
        for prof in profiles:
            inc = []
            if prof != "FULL":
                gen = os.path.join(work, "gen-" + prof)
                if not os.path.isdir(gen):
                    tmp = tempfile.mkdtemp(dir=work)
                    umbrella.cut(prof, SRC, tmp)
                    try:
                        os.rename(tmp, gen)
                    except OSError:
                        pass
                inc = ["-I" + gen]
            flags = list(FLAVOURS[job.get("flavour", "asan")])
            common = [c for c in COMMON if not (compiler == "clang++" and c.startswith("-fmax-errors"))]
            cmd = [compiler] + common + flags + job.get("defs", []) + inc + [
                "-I" + HERE, "-I" + SHIM, "-I" + SRC, "-I/usr/include/eigen3",
                "-I" + os.path.join(VERIF, "harness"), src, "-o", exe] + job.get("libs", [])
            rc, out, err = sh(cmd, 600)
            if rc == 0:
                return exe, prof, compiler
            log.append("%s %s rc=%d\n%s" % (compiler, prof, rc, "\n".join(
                l[:300] for l in err.split("\n") if "error" in l)[:3000]))
    raise HarnessError("cannot compile %s:\n%s" % (job["src"], "\n".join(log)))


def crash_key(err):
    """a stable name for a sanitizer report: its kind and the first frame inside the project."""
    kind = "abort"
    m = re.search(r"ERROR: (?:AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m2:
        kind = "ub-" + re.sub(r"[^a-z]+", "-", m2.group(1).lower())[:40].strip("-")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
    if m3:
        kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    if "Assertion" in err and kind == "abort":
        kind = "assertion"
    if "hard rss limit exhausted" in err:
        kind = "memory-exhausted"
    m4 = re.search(r"/src/(resonanceReconstruction[\w./-]*):\d+", err)
    where = m4.group(1) if m4 else "?"
    return "crash:%s:%s" % (kind, where)


def run_one(work, prop, job, exe, seed, shard, tier, extra=()):
    tag = "%s-%d" % (os.path.basename(exe), shard)
    out = os.path.join(work, tag + ".json")
    state = os.path.join(work, tag + ".state")
    eff = seed * 1009 + shard * 101 + 7
    args = ["prop=" + prop, "out=" + out, "state=" + state, "seed=%d" % eff, "tier=" + tier,
            "scale=%g" % (job.get("scale", 1.0) * (job.get("deep", 8.0) if tier == "thorough" else 1.0))]
    args += job.get("args", []) + list(extra)
    cmd = job.get("wrap", []) + [exe] + args
    for attempt in (1, 2):
        for f in (out, state):
            if os.path.exists(f):
                os.unlink(f)
        rc, so, err = sh(cmd, job.get("timeout", 700 if tier == "quick" else 7200), cwd=work)
        hang = rc == 86
        if not hang and rc != 124:
            break
    res = {"job": job["src"], "flavour": job.get("flavour", "asan"), "seed": eff, "shard": shard, "rc": rc,
           "violations": []}
    current = ""
    if os.path.exists(state):
        with open(state, "rb") as f:
            current = f.read()[8:].split(b"\0")[0].decode(errors="replace")
    if os.path.exists(out):
        with open(out) as f:
            res.update(json.load(f))
    if rc == 124:
        raise HarnessError("%s: no verdict within the wall-clock watchdog (at %s)" % (tag, current))
    m = re.match(r"(\S+)#(\d+)", current)
    where = {"family": m.group(1), "case": int(m.group(2))} if m else {"family": "", "case": -1}
    if hang:
        res["violations"].append(dict(key="hang:" + where["family"], msg="did not terminate: " + current, **where))
    elif rc == 78 and os.path.exists(out):
        res["violations"].append({"key": crash_key(err), "msg": "leak: " + err[:1500], "family": "", "case": -1})
    elif rc != 0 and job.get("nocrash", True):
        if rc in (3, 4):
            raise HarnessError("%s: %s" % (tag, err[-1500:]))
        res["violations"].append(dict(key=crash_key(err), msg="crashed (rc=%d) at %s\n%s" % (rc, current, err[:2500]), **where))
    elif not os.path.exists(out):
        raise HarnessError("%s wrote no record: %s" % (tag, err[-800:]))
    res["stderr"] = err
    return res


def known(prop):
    entries = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                entries.append((m.group(2), m.group(3)))
    return entries


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[prop]
    t0 = time.time()
    extra = []
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rec = json.load(open(sys.argv[3]))
        seed, only = rec["verif_seed"], rec
        tier = rec.get("tier", tier)
        extra = ["family=" + rec["family"], "case=%d" % rec["case"]] if rec["family"] else []
    work = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
    status = 2
    try:
        status = check(prop, tier, seed, spec, work, t0, extra, only)
    except HarnessError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


def check(prop, tier, seed, spec, work, t0, extra, only):
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if only:
        jobs = [j for j in jobs if j["src"] == only["job"] and j.get("flavour", "asan") == only["flavour"]]
    builds = {}
    for j in jobs:
        key = (j["src"], j.get("flavour", "asan"), tuple(j.get("defs", [])), j.get("profile", "FULL"))
        builds.setdefault(key, j)
    exes, used = {}, []
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {k: ex.submit(compile_one, work, "m%d" % n, j) for n, (k, j) in enumerate(builds.items())}
        for k, f in fut.items():
            exe, prof, comp = f.result()
            exes[k] = exe
            used.append("%s[%s,%s,%s]" % (k[0], k[1], prof, comp))
    t1 = time.time()
    runs = []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for j in jobs:
            key = (j["src"], j.get("flavour", "asan"), tuple(j.get("defs", [])), j.get("profile", "FULL"))
            shards = j.get("shards", 4) if tier == "quick" else j.get("deepshards", 8)
            for s in range(shards):
                if only and s != only["shard"]:
                    continue
                futs.append(ex.submit(run_one, work, prop, j, exes[key], seed, s, tier, extra))
        for f in futs:
            runs.append(f.result())
    ev = sum(r.get("evaluations", 0) for r in runs)
    distinct = sum(r.get("distinct", 0) for r in runs)
    classes, samples = {}, []
    for r in runs:
        for k, v in r.get("classes", {}).items():
            classes[k] = classes.get(k, 0) + v
        samples += r.get("samples", [])[:4]
    listed = known(prop)
    new, old = [], {}
    for r in runs:
        for v in r["violations"]:
            hit = [w for k, w in listed if k == v["key"]]
            if hit:
                old[v["key"]] = hit[0]
            else:
                new.append((r, v))
    need = spec.get("classes", [])
    if not new and not only:
        missing = [c for c in need if not any(k.startswith(c) for k in classes)]
        if missing or distinct < spec.get("min_distinct", 50):
            raise HarnessError("inconclusive: too little observed (distinct=%d, missing classes %s)" % (distinct, missing))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if not only:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": distinct, "rule": spec["rule"],
                "samples": samples[:30] or ["(none)"], "event_classes": classes,
                "runs": [{"monitor": r["job"], "flavour": r["flavour"], "seed": r["seed"],
                          "events": r.get("evaluations", 0)} for r in runs],
                "builds": used, "known_findings_seen": sorted(old), "build_s": round(t1 - t0, 1)},
            "assumptions": spec.get("assumptions", []) + ["third-party njoy libraries (dimwits, elementary, ENDFtk, interpolation, Log) are stand-ins from /verif/shim"],
            "wall_s": round(time.time() - t0, 2), "violations": len(new)},
            open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, w in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s: %d events (%d distinct non-trivial), %d event classes, %.1f s (build %.1f s)" % (
        prop, ev, distinct, len(classes), time.time() - t0, t1 - t0))
    if not new:
        return 0
    seen = set()
    for n, (r, v) in enumerate(new):
        if v["key"] in seen and len(seen) > 0:
            continue
        seen.add(v["key"])
        if len(seen) > 6:
            break
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, len(seen)))
        json.dump({"property": prop, "verif_seed": seed, "tier": tier, "job": r["job"], "flavour": r["flavour"],
                   "shard": r["shard"], "family": v["family"], "case": v["case"], "key": v["key"],
                   "msg": v["msg"], "replay": "python3 vlib/driver.py %s --replay %s" % (prop, path)},
                  open(path, "w"), indent=1)
        print("  %s: %s" % (v["key"], v["msg"][:1200].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    main()
