#!/usr/bin/env python3
"""Driver: build the harness of one property from /repo's working tree, run its generators, report.

  check.py ID [quick|thorough]      run the check of a property
  check.py replay FILE              re-run a replay file (exit 1 when the failure reproduces)
  check.py setup                    configure and build every harness (cache only, nothing is decided here)
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
QE = os.path.join(BUILD, "qe")
NCPU = os.cpu_count() or 8
CXXFLAGS = "-Wno-error -w -O1 -DNDEBUG"


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build

def sync_mtimes():
    """Make mtimes follow content, so that an incremental build sees every change and nothing but changes."""
    db_path = os.path.join(BUILD, "src-state.json")
    try:
        db = json.load(open(db_path))
    except Exception:
        db = {}
    new, now = {}, time.time_ns()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "java", "docs")]
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            try:
                st = os.stat(p)
                h = hashlib.sha1(open(p, "rb").read()).hexdigest()
                rel = os.path.relpath(p, REPO)
                m = st.st_mtime_ns
                old = db.get(rel)
                if old:
                    want = old[1] if old[0] == h else max(m, now)
                    if want != m:
                        os.utime(p, ns=(st.st_atime_ns, want))
                        m = os.stat(p).st_mtime_ns
                elif db and m < now:
                    os.utime(p, ns=(st.st_atime_ns, now))
                    m = os.stat(p).st_mtime_ns
                new[rel] = [h, m]
            except OSError:
                pass
    os.makedirs(BUILD, exist_ok=True)
    tmp = db_path + ".tmp"
    json.dump(new, open(tmp, "w"))
    os.replace(tmp, db_path)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="4G",
               CCACHE_SLOPPINESS="pch_defines,time_macros,include_file_mtime,include_file_ctime",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CONDA_PREFIX", "CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        env.pop(k, None)
    sync_mtimes()
    t0 = time.time()
    if not os.path.exists(os.path.join(QE, "build.ninja")):
        shutil.rmtree(QE, ignore_errors=True)
        cmd = ["cmake", "-S", REPO, "-B", QE, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_CXX_FLAGS=" + CXXFLAGS, "-DCMAKE_C_FLAGS=-O1 -DNDEBUG -w",
               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_PREFIX_PATH=/usr/lib/llvm-16",
               "-DCMAKE_MODULE_PATH=" + VERIF + "/cmake", "-DCMAKE_PROJECT_INCLUDE=" + VERIF + "/cmake/verif.cmake",
               "-DENABLE_FOLLY=OFF", "-DENABLE_SQL=OFF", "-DENABLE_PYTHON=OFF", "-DENABLE_BENCHMARKS=OFF",
               "-DENABLE_TESTS=OFF", "-DENABLE_ARMADILLO=ON", "-DCMAKE_DISABLE_PRECOMPILE_HEADERS=ON",
               "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"]
        if shutil.which("ccache", path=env["PATH"]):
            cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-4000:])
            log("BUILD-FAILED: cmake")
            sys.exit(2)
    r = subprocess.run(["ninja", "-C", QE] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout[-6000:])
        log("BUILD-FAILED: " + " ".join(targets))
        sys.exit(2)
    lock.close()
    return time.time() - t0


# ---------------------------------------------------------------- running

class Runner:
    def __init__(self, pid, tier, seed, known):
        self.pid, self.tier, self.seed, self.known = pid, tier, seed, known
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(BUILD, "run"))
        self.lock = threading.Lock()
        self.n = 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def call(self, harness, args, timeout):
        with self.lock:
            self.n += 1
            cwd = os.path.join(self.dir, "w%d" % self.n)
        os.makedirs(cwd)
        env = dict(os.environ, PBT_KNOWN=",".join(self.known), TZ="UTC", LC_ALL="C.UTF-8", PBT_TIER=self.tier)

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            lim = 14 << 30
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        err = os.path.join(cwd, "stderr")
        out = os.path.join(cwd, "stdout")
        with open(err, "wb") as fe, open(out, "wb") as fo:
            p = subprocess.Popen([os.path.join(QE, "harness", harness)] + args, cwd=cwd, env=env, stdout=fo, stderr=fe,
                                 preexec_fn=pre, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 77
        e = open(err, "rb").read()[-3000:].decode("utf-8", "replace")
        o = open(out, "rb").read()[-8000:].decode("utf-8", "replace")
        return rc, o, e, cwd


def read_mirror(path):
    try:
        b = open(path, "rb").read()
        idx, n = struct.unpack_from("<QQ", b, 0)
        return idx, list(struct.unpack_from("<%dQ" % n, b, 16))
    except Exception:
        return None, None


def describe_rc(rc, err):
    tail = "\n".join([l for l in err.strip().splitlines() if l.strip()][-6:])
    if "PBT-CRASH" in err:
        tail = err[err.index("PBT-CRASH"):][:6000]
    if rc == 77:
        return "does not terminate (case time limit exceeded) " + tail
    if rc < 0:
        return "crashed with signal %d: %s" % (-rc, tail)
    return "process ended with status %d: %s" % (rc, tail)


def write_list(path, ch):
    with open(path, "w") as f:
        f.write("".join("%d\n" % v for v in ch))


def shrink(run, harness, facet, choices, limit, budget):
    """Shrink in fresh processes; returns the best choice list."""
    best = choices
    end = time.time() + budget
    base = os.path.join(run.dir, "shrink%d" % time.time_ns())
    for k in range(400):
        if time.time() > end:
            break
        fin, fout, fm = base + ".in", base + ".out", base + ".m"
        write_list(fin, best)
        if os.path.exists(fout):
            os.remove(fout)
        left = max(1.0, end - time.time())
        rc, o, e, _ = run.call(harness, ["shrink", "--facet", facet, "--choices", fin, "--out", fout, "--mirror", fm,
                                         "--budget", "%.1f" % left, "--limit", str(limit)], left + 2 * limit)
        got = None
        if os.path.exists(fout):
            got = [int(x) for x in open(fout).read().split()]
            if (len(got), got) < (len(best), best):
                best = got
        if rc == 0:
            break
        _, m = read_mirror(fm)  # the candidate that crashed the process is a failing case too
        if m is not None and (len(m), m) < (len(best), best):
            best = m
            continue
        # crashes at the start already: do coarse shrinking from outside
        best = outer_shrink(run, harness, facet, best, limit, end)
        break
    return best


def outer_shrink(run, harness, facet, best, limit, end):
    def fails(c):
        p = os.path.join(run.dir, "os%d" % time.time_ns())
        write_list(p, c)
        rc, *_ = run.call(harness, ["replay", "--facet", facet, "--choices", p, "--limit", str(limit)], limit + 30)
        return rc != 0
    changed = True
    while changed and time.time() < end:
        changed = False
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < end:
            cands = [best[:i] + best[i + k:] for i in range(0, max(1, len(best) - k + 1), k)]
            cands += [best[:i] + [0] * min(k, len(best) - i) + best[i + k:] for i in range(0, len(best), k)]
            cands = [c for c in cands if (len(c), c) < (len(best), best)]
            for lo in range(0, len(cands), NCPU):
                if time.time() > end:
                    break
                part = cands[lo:lo + NCPU]
                with ThreadPoolExecutor(NCPU) as ex:
                    res = list(ex.map(fails, part))
                hit = [c for c, r in zip(part, res) if r]
                if hit:
                    best = min(hit, key=lambda c: (len(c), c))
                    changed = True
                    break
            else:
                k //= 2
                continue
            if not changed:
                k //= 2
            if changed:
                break
    return best


def reproduces(run, harness, facet, choices, limit, reps, times):
    p = os.path.join(run.dir, "rep%d" % time.time_ns())
    write_list(p, choices)
    hits, last = 0, ("", "")
    for _ in range(times):
        rc, o, e, _c = run.call(harness, ["replay", "--facet", facet, "--choices", p, "--limit", str(limit), "--reps",
                                          str(reps)], (limit + 5) * max(1, min(reps, 5)) + 30)
        if rc != 0:
            hits += 1
            last = (o, e if rc == 1 else describe_rc(rc, e))
    return hits, last


def run_range(run, harness, facet, seed, b, e, limit, timeout):
    out = os.path.join(run.dir, "o%d-%d" % (b, time.time_ns()))
    rc, o, er, cwd = run.call(harness, ["run", "--facet", facet, "--seed", str(seed), "--begin", str(b), "--end",
                                        str(e), "--out", out, "--mirror", out + ".m", "--limit", str(limit), "--time",
                                        "%.1f" % timeout], timeout + 2 * limit + 30)
    res = {"rc": rc, "begin": b, "end": e}
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        res.update(d)
        hs = open(out + ".hashes", "rb").read()
        res["hashes"] = set(struct.unpack("<%dQ" % (len(hs) // 8), hs))
        if d["failure"]:
            res["fail"] = {"index": d["failure"]["index"], "msg": d["failure"]["msg"],
                           "choices": [int(x) for x in open(out + ".choices").read().split()]}
    else:
        idx, ch = read_mirror(out + ".m")
        res["fail"] = {"index": idx if idx is not None else b, "msg": describe_rc(rc, er), "choices": ch or []}
    for suf in ("", ".m", ".hashes", ".choices"):
        try:
            os.remove(out + suf)
        except OSError:
            pass
    shutil.rmtree(cwd, ignore_errors=True)
    return res


def confirm(run, prop, f, fail, begin, seed):
    """Returns a replay record or None when the failure cannot be reproduced."""
    h, name, limit = f["harness"], f["facet"], f.get("limit", 60)
    reps = f.get("reps", 1)
    rec = {"property": run.pid, "harness": h, "facet": name, "limit": limit, "reps": reps, "msg": fail["msg"]}
    hits, last = reproduces(run, h, name, fail["choices"], limit, reps, 3)
    if hits:
        best = shrink(run, h, name, fail["choices"], limit, 45 if run.tier == "quick" else 120)
        h2, l2 = reproduces(run, h, name, best, limit, reps, 3)
        if h2 >= hits or h2 == 3:
            fail["choices"], last = best, l2
        rec.update(kind="choices", choices=fail["choices"], text="\n".join(last)[-4000:], reproduced="%d/3" % max(hits, h2))
        return rec
    # depends on what ran before it in the same process: replay the range
    lo, hi = begin, fail["index"] + 1
    ok = 0
    for _ in range(3):
        r = run_range(run, h, name, seed, lo, hi, limit, 300)
        ok += 1 if r.get("fail") else 0
    if ok:
        rec.update(kind="range", seed=seed, begin=lo, end=hi, text=fail["msg"], reproduced="%d/3" % ok)
        return rec
    if reps > 1 or f.get("concurrent"):
        # schedule-dependent: the oracle's verdict on the observed history stands
        rec.update(kind="choices", choices=fail["choices"], text=fail["msg"], reproduced="0/3 (schedule-dependent)")
        return rec
    return None


def check(pid, tier):
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    known_all = load_known()
    known = [k["id"] for k in known_all if k["property"] == pid and k["status"] == "known"]
    bt = build(sorted({f["harness"] for f in prop["facets"]}))
    log("%s: built in %.0f s" % (pid, bt))
    run = Runner(pid, tier, seed, known)
    t1 = time.time()
    cap = prop.get("cap", {}).get(tier, 200 if tier == "quick" else 3000)
    if tier == "quick":
        cap = min(cap, max(60, 800 - (t1 - t0)))
    jobs = []
    for f in prop["facets"]:
        n = f[tier]
        ch = f.get("chunk") or max(1, min(20000, (n + NCPU * 3 - 1) // (NCPU * 3)))
        parts = [(f, b, min(n, b + ch)) for b in range(0, n, ch)]
        jobs.append(parts)
    # interleave facets so that a time cap thins all of them
    order = []
    for parts in jobs:
        for i, p in enumerate(parts):
            order.append((i / len(parts), p))
    order = [p for _, p in sorted(order, key=lambda x: x[0])]
    fails, stats, hashes = [], {}, {}
    lk = threading.Lock()
    skipped = [0]

    def work(p):
        f, b, e = p
        with lk:
            if fails:
                return p
        left = cap - (time.time() - t1)
        if left <= 1:
            with lk:
                skipped[0] += e - b
            return
        r = run_range(run, f["harness"], f["facet"], seed, b, e, f.get("limit", 60), left)
        with lk:
            s = stats.setdefault(f["facet"], {"evaluations": 0, "nontrivial": 0, "discards": 0, "draws": 0,
                                              "labels": {}, "samples": [], "known": {}})
            for k in ("evaluations", "nontrivial", "discards", "draws"):
                s[k] += r.get(k, 0)
            for k in ("labels", "known"):
                for l, n in r.get(k, {}).items():
                    s[k][l] = s[k].get(l, 0) + n
            if len(s["samples"]) < 3:
                s["samples"] += r.get("samples", [])[:3 - len(s["samples"])]
            if sum(len(x) for x in hashes.values()) < 12000000:  # memory bound: beyond it the count is a lower bound
                hashes.setdefault(f["facet"], set()).update(r.get("hashes", ()))
            if r.get("fail"):
                fails.append({"f": f, "fail": r["fail"], "begin": b, "end": e})

    def record(rec, tag=None):
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        hsh = tag or hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rd, "%s-%s-%s.json" % (pid, rec["facet"], hsh))
        json.dump(rec, open(path, "w"), indent=1)
        violations.append((path, rec))

    violations, notes, loose = [], [], []
    todo = order
    while todo:
        with ThreadPoolExecutor(prop.get("workers", NCPU)) as ex:
            left_over = [p for p in ex.map(work, todo) if p]
        if not fails:
            break
        for x in sorted(fails, key=lambda x: len(x["fail"]["choices"])):
            rec = confirm(run, prop, x["f"], x["fail"], x["begin"], seed)
            if rec is not None:
                record(rec)
                break
            notes.append("unreproduced: facet %s case %s: %s" % (x["f"]["facet"], x["fail"]["index"], x["fail"]["msg"][:6000]))
            loose.append(x)
        if violations:
            break
        if len(loose) >= 3:
            x = loose[0]
            record({"property": pid, "harness": x["f"]["harness"], "facet": x["f"]["facet"], "limit": x["f"].get("limit", 60),
                    "reps": 1, "msg": x["fail"]["msg"], "kind": "choices", "choices": x["fail"]["choices"],
                    "text": "failed several times, not on replay: " + x["fail"]["msg"], "reproduced": "0/3"}, "unstable")
            break
        # a failure that does not come back is noted; the search goes on behind it
        todo = left_over + [(x["f"], x["fail"]["index"] + 1, x["end"]) for x in fails if x["fail"]["index"] + 1 < x["end"]]
        fails.clear()
    run.cleanup()

    ev = sum(s["evaluations"] for s in stats.values())
    dn = sum(len(h) for h in hashes.values())
    samples = []
    for name, s in stats.items():
        samples += ["[%s] %s" % (name, t) for t in s["samples"]]
    for k in known_all:
        if k["property"] == pid and k["status"] == "known":
            hit = sum(s["known"].get(k["id"], 0) for s in stats.values())
            log("KNOWN-FINDING: property=%s %s (hit by %d generated cases)" % (pid, k["what"], hit))
    evid = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": prop["rule"],
                         "samples": samples[:12] or ["(none)"],
                         "facets": {n: {"evaluations": s["evaluations"], "distinct_nontrivial": len(hashes.get(n, ())),
                                        "discarded": s["discards"], "choices_drawn": s["draws"],
                                        "classes": dict(sorted(s["labels"].items(), key=lambda x: -x[1])[:60]),
                                        "known_finding_hits": s["known"]}
                                    for n, s in stats.items()},
                         "cases_not_run_time_cap": skipped[0]},
            "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
            "violations": len(violations)}
    if notes:
        evid["notes"] = notes
        for n in notes:
            log(n)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d cases (%d distinct non-trivial), %d facets, %.0f s exploring, %d skipped" %
        (pid, tier, ev, dn, len(stats), time.time() - t1, skipped[0]))
    if violations:
        for p, r in violations:
            log(r["text"])
            log("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


def load_known():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def replay(path):
    rec = json.load(open(path))
    build([rec["harness"]])
    known = [k["id"] for k in load_known() if k["property"] == rec["property"] and k["status"] == "known"]
    run = Runner(rec["property"], "quick", 1, known)
    try:
        if rec["kind"] == "range":
            r = run_range(run, rec["harness"], rec["facet"], rec["seed"], rec["begin"], rec["end"], rec["limit"], 600)
            bad = bool(r.get("fail"))
            log(r["fail"]["msg"] if bad else "ok")
        else:
            hits, last = reproduces(run, rec["harness"], rec["facet"], rec["choices"], rec["limit"], rec["reps"], 1)
            bad = hits > 0
            log("\n".join(last) if bad else "ok")
    finally:
        run.cleanup()
    if bad:
        log("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1 if bad else 0


def dev(h, facets, n, seed):
    """Development aid: runs facets of one harness on one core each and prints the first shrunk failure."""
    log("built in %.0f s" % build([h]))
    run = Runner("dev", "quick", seed, [k["id"] for k in load_known() if k["status"] == "known"])

    def one(f):
        t = time.time()
        r = run_range(run, h, f, seed, 0, n, 60, 600)
        msg = "%-16s %6.1fs ev=%s nontriv=%s disc=%s %s" % (f, time.time() - t, r.get("evaluations"), r.get("nontrivial"), r.get("discards"), r.get("labels", ""))
        if r.get("samples"):
            msg += "\n    sample: " + r["samples"][-1][:300]
        if r.get("fail"):
            msg += "\n  FAIL at %s: %s" % (r["fail"]["index"], r["fail"]["msg"][:1500])
            best = shrink(run, h, f, r["fail"]["choices"], 60, 30)
            hits, last = reproduces(run, h, f, best, 60, 1, 1)
            write_list("/tmp/dev.%s.choices" % f, best)
            msg += "\n  SHRUNK (%d choices, reproduces %d/1): %s" % (len(best), hits, "\n".join(last)[-3000:])
        log(msg)
    ths = [threading.Thread(target=one, args=(f,)) for f in facets]
    [t.start() for t in ths]
    [t.join() for t in ths]
    run.cleanup()


def main():
    a = sys.argv[1:]
    if a and a[0] == "dev":
        return dev(a[1], a[2].split(","), int(a[3]), int(a[4]) if len(a) > 4 else 1)
    if a and a[0] == "setup":
        t = build(sorted({f["harness"] for p in PROPS.values() for f in p["facets"]}))
        log("setup: built in %.0f s" % t)
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if not a or a[0] not in PROPS:
        log(__doc__)
        return 2
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
