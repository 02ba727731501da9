#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property on /repo's working tree
check.py --setup                     check that the build works
check.py --replay FILE               run one saved case

Builds the harness from /repo's current sources, runs it in parallel workers
with a deterministic number of generated cases, confirms every failure by
replaying it, writes /verif/evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not run."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
import fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from table import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(WORK, "replays")
WORKERS = 8

ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LC_ALL": "C.UTF-8",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader,tcp",
    # no daemon and no session directory shared by the workers
    "OMPI_MCA_ess_singleton_isolated": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "DEAL_II_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
})
ENV.pop("DEAL_II_DIR", None)


def log(*a):
    print(*a, flush=True)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cfg = ["cmake", "-S", HERE, "-B", BUILD, "-G", "Ninja",
               "-DREPO=" + REPO]
        for cmd in (cfg, ["ninja", "-C", BUILD, "-j8"] + targets):
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                log(r.stdout[-6000:])
                log("BUILD FAILED:", " ".join(cmd))
                return False
    return True


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                what = line.split(" ", 3)[3]
                out.append((f["id"], what))
    return out


def harness_args(cfg, scratch):
    return [os.path.join(BUILD, cfg["target"]), "--repo", REPO,
            "--scratch", scratch]


def env_for(cfg, tmp=None):
    e = dict(ENV)
    if tmp:
        e["TMPDIR"] = tmp
    e.update(cfg.get("env", {}))
    e["VERIF_BUILD"] = BUILD
    return e


def replay_once(cfg, path, scratch, known):
    os.makedirs(scratch, exist_ok=True)
    args = harness_args(cfg, scratch) + ["--replay", path, "--out",
                                         os.path.join(scratch, "r")]
    for k, _ in known:
        args += ["--known", k]
    tmp = tempfile.mkdtemp(prefix="vf")
    try:
        r = subprocess.run(args, env=env_for(cfg, tmp), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=400, cwd=scratch)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")[-3000:]


def config(pid, tier):
    cfg = dict(CHECKS[pid])
    if tier == "thorough" and "thorough_target" in cfg:
        cfg["target"] = cfg["thorough_target"]
    return cfg


def run(pid, tier):
    t0 = time.time()
    cfg = config(pid, tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    known = known_findings(pid)
    if not build([cfg["target"]] + cfg.get("extra_targets", [])):
        return 2
    t_build = time.time() - t0
    work = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(REPLAYS, exist_ok=True)
    cases = cfg["cases"][0 if tier == "quick" else 1]
    max_s = cfg.get("max_seconds", (420, 6000))[0 if tier == "quick" else 1]
    nw = cfg.get("workers", WORKERS)
    procs = []
    tmps = [tempfile.mkdtemp(prefix="vf") for _ in range(nw)]

    def start(w):
        d = os.path.join(work, "w%d" % w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        out = os.path.join(work, "out%d" % w)
        if os.path.exists(out + ".started"):
            os.remove(out + ".started")
        args = harness_args(cfg, d) + [
            "--prop", pid, "--seed", str(seed), "--cases", str(cases),
            "--worker", str(w), "--workers", str(nw),
            "--max-seconds", str(max_s),
            "--shrink-seconds", str(cfg.get("shrink_seconds", 30)),
            "--out", out]
        for k, _ in known:
            args += ["--known", k]
        return subprocess.Popen(args, env=env_for(cfg, tmps[w]), cwd=d,
                                stdout=subprocess.DEVNULL,
                                stderr=open(out + ".err", "wb"),
                                start_new_session=True), args

    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    for w in range(nw):
        procs.append(start(w))
    deadline = time.time() + max_s + 300
    failed = []
    pending = set(range(nw))
    restarts = 0
    grace = None
    while pending and time.time() < deadline:
        for w in list(pending):
            rc = procs[w][0].poll()
            if rc is not None:
                kill(procs[w][0])
                if (rc != 0 and restarts < 10 and not os.path.exists(
                        os.path.join(work, "out%d.started" % w))):
                    # MPI did not start
                    restarts += 1
                    time.sleep(0.2)
                    procs[w] = start(w)
                    continue
                pending.discard(w)
                if rc != 0:
                    failed.append((w, rc))
        if failed and grace is None:
            # other workers get a moment, one failure is enough
            grace = time.time() + 5
        if grace and time.time() > grace:
            break
        time.sleep(0.05)
    hung = [w for w in pending] if not failed else []
    for w in list(pending):
        kill(procs[w][0])
        procs[w][0].wait()

    status, violation = 0, None
    if hung:
        log("workers did not finish in time:", hung)
        status = 2
    for w, rc in sorted(failed):
        out = os.path.join(work, "out%d" % w)
        found = False
        for suffix in (".replay", ".first"):
            path = out + suffix
            if not os.path.exists(path):
                continue
            results = [replay_once(cfg, path, os.path.join(work, "rp"), known)
                       for _ in range(3)]
            bad = sum(1 for r in results if r[0] not in (0, 2, None))
            log("replayed %s: %d of 3 fail" % (os.path.basename(path), bad))
            if bad == 3 or (bad > 0 and suffix == ".first"):
                data = open(path, "rb").read()
                dest = os.path.join(REPLAYS, "%s-%s.replay" % (
                    pid, hashlib.sha1(data).hexdigest()[:12]))
                with open(dest, "wb") as f:
                    f.write(data)
                log(results[0][1])
                violation = dest
                found = True
                break
        if found:
            break
        if os.path.exists(out + ".first"):
            log(open(out + ".first", errors="replace").read()[-2500:])
        # not a function of the single case: does the whole worker fail again?
        log("worker %d ended with %s; running it again" % (w, rc))
        log(open(out + ".err", errors="replace").read()[-3000:])
        again = 0
        for _ in range(2):
            p, args = start(w)
            try:
                r2 = p.wait(timeout=max_s + 300)
            except subprocess.TimeoutExpired:
                r2 = None
            kill(p)
            if r2 not in (0, None) and r2 != -9:
                again += 1
        if again == 2 and rc != -9:
            dest = os.path.join(REPLAYS, "%s-worker%d.cmd" % (pid, w))
            with open(dest, "w") as f:
                f.write(" ".join(args) + "\n")
            violation = dest
            break
        status = 2

    for t in tmps:
        shutil.rmtree(t, ignore_errors=True)

    # merge
    stats = {"evaluations": 0, "nontrivial": 0, "distinct": 0, "discards": 0}
    labels, subs, kh, samples, truncated = {}, {}, {}, [], False
    for w in range(nw):
        p = os.path.join(work, "out%d.json" % w)
        try:
            s = json.load(open(p))
        except (OSError, ValueError):
            continue
        for k in stats:
            stats[k] += s[k]
        truncated = truncated or s["truncated"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["subs"].items():
            subs[k] = subs.get(k, 0) + v
        for k, v in s["known"].items():
            kh.setdefault(k, [0, v["what"]])[0] += v["count"]
        samples += s["samples"]
    samples = samples[::max(1, len(samples) // 8)][:8]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": stats["distinct"],
            "rule": cfg["rule"],
            "samples": samples if samples else ["(no case completed)"],
            "discarded": stats["discards"],
            "cases_requested": cases,
            "stopped_by_time_limit": truncated,
            "per_check": subs,
            "classes": dict(sorted(labels.items())),
            "known_finding_hits": {k: v[0] for k, v in kh.items()},
        },
        "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    log("%s %s: %d cases (%d distinct non-trivial, %d discarded), build %.0f s,"
        " total %.0f s%s" % (pid, tier, stats["evaluations"],
                             stats["distinct"], stats["discards"], t_build,
                             wall, ", stopped by the time limit"
                             if truncated else ""))
    for k, what in known:
        if k in kh or cfg.get("always_print_known", True):
            log("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violation:
        log("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    if status == 0 and stats["distinct"] == 0:
        log("no non-trivial case was generated")
        return 2
    return status


def replay(path):
    first = open(path).readline().split()
    pid = first[1]
    cfg = CHECKS[pid]
    if not build([cfg["target"]] + cfg.get("extra_targets", [])):
        return 2
    rc, out = replay_once(cfg, os.path.abspath(path),
                          os.path.join(WORK, "replay-%d" % os.getpid()),
                          known_findings(pid))
    log(out)
    return rc


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        # every check builds what it needs; here only: can it be configured
        return 0 if build(["engine"]) else 2
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if not a or a[0] not in CHECKS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
