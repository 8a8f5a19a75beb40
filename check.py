#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py <property> [--tier quick|thorough] [--seed N] [--runs-scale X]
  check.py --replay FILE        re-executes a recorded (minimised) run, verbosely
  check.py --selftest           builds the simulator only (setup_cmd)

Exit 0: the property held in every simulated run. Exit 1: violation (VIOLATION line). 2: the check is broken.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UTKI_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
JOBS = max(2, min(8, os.cpu_count() or 8))
CXX = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
WRAP = ["malloc", "calloc", "realloc", "free", "strdup", "__cxa_demangle", "vsnprintf", "snprintf", "abort", "exit", "_exit", "_Exit", "quick_exit", "__cxa_atexit"]
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, timeout=900):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def repo_sources():
    src = os.path.join(REPO, "src", "utki")
    r = []
    for d, _, fs in os.walk(src):
        r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)


def tree_digest():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "src_deps"), os.path.join(VERIF, "sim")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("out", "build"))
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".inl", ".ipp", ".cxx", ".hxx", ".tpp", ".def")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    for f in ("common.hpp",):
        h.update(open(os.path.join(VERIF, "scenarios", f), "rb").read())
    return h


def flags_for(variant, compiler):
    fl, std, dbg = variant.split("-")
    base = ["-std=c++" + std[3:], "-g1", "-pthread", "-w", "-I", os.path.join(REPO, "src"),
            "-isystem", os.path.join(REPO, "src_deps"), "-ftemplate-backtrace-limit=0"]
    if dbg == "dbg":
        base.append("-DDEBUG")
    gcc = "g++" in compiler and "clang" not in compiler
    if fl == "race":
        base += ["-O1", "-fsanitize=thread", "-include", os.path.join(VERIF, "sim", "prefix.hpp")]
    else:
        # unaligned loads and the like are checked; vptr checks need no RTTI tricks here
        base += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function" if not gcc else "-fno-sanitize=vptr",
                 "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
    if not gcc:
        base.append("-fsanitize-coverage=trace-pc-guard")
    return base


class Builder:
    def __init__(self):
        self.digest = tree_digest().hexdigest()
        os.makedirs(OUT, exist_ok=True)
        self.compiler = CXX

    def obj(self, src, flags, tag):
        h = hashlib.sha256((self.digest + "\0" + self.compiler + "\0" + "\0".join(flags)).encode())
        h.update(open(src, "rb").read())
        o = os.path.join(OUT, "%s-%s-%s.o" % (os.path.basename(src).replace(".", "_"), tag, h.hexdigest()[:24]))
        if not os.path.exists(o):
            tmp = o + ".tmp%d.o" % os.getpid()
            r = sh([self.compiler] + flags + ["-c", src, "-o", tmp])
            if r.returncode != 0:
                raise Broken("cannot compile %s (%s):\n%s" % (src, tag, "\n".join([l for l in r.stderr.splitlines() if "error" in l][:12])))
            os.replace(tmp, o)
        return o

    def sim_flags(self, variant):
        fl = variant.split("-")[0]
        return ["-std=c++17", "-O2", "-g1", "-pthread", "-w", "-fno-builtin-malloc", "-DSIM_TSAN" if fl == "race" else "-DSIM_ASAN"]

    def build(self, prop, variants):
        last = None
        for compiler in (CXX, "/usr/bin/g++"):
            self.compiler = compiler
            try:
                return self._build(prop, variants)
            except Broken as e:
                last = last or e
                sys.stderr.write(str(e)[:3000] + "\n")
        raise last

    def _build(self, prop, variants):
        scen = PROPS[prop].get("sources", [prop.lower() + ".cpp"])
        jobs = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for v in variants:
                fl = flags_for(v, self.compiler)
                # scenarios first: they are the slowest to compile
                jobs[v] = [ex.submit(self.obj, os.path.join(VERIF, "scenarios", s), fl, v) for s in scen]
            for v in variants:
                fl = flags_for(v, self.compiler)
                jobs[v] += [ex.submit(self.obj, s, fl, v) for s in repo_sources()]
                jobs[v].append(ex.submit(self.obj, os.path.join(VERIF, "sim", "sim.cpp"), self.sim_flags(v), v.split("-")[0]))
            objs = {v: [j.result() for j in js] for v, js in jobs.items()}

            def link(v):
                h = hashlib.sha256("\0".join(objs[v]).encode()).hexdigest()[:24]
                exe = os.path.join(OUT, "%s-%s-%s" % (prop, v, h))
                if not os.path.exists(exe):
                    tmp = exe + ".tmp%d" % os.getpid()
                    cmd = [self.compiler, "-pthread"] + objs[v] + ["-o", tmp, "-ldl"]
                    cmd += ["-Wl,--wrap=" + w for w in WRAP]
                    if v.startswith("race"):
                        cmd += ["-Wl,--wrap=" + w for w in ("memcmp", "bcmp", "memchr", "strlen")]
                    if v.startswith("mem"):
                        cmd += ["-fsanitize=address,undefined"]
                    r = sh(cmd)
                    if r.returncode != 0:
                        raise Broken("cannot link %s:\n%s" % (exe, r.stderr[-4000:]))
                    os.replace(tmp, exe)
                return exe
            return dict(zip(variants, ex.map(link, variants)))


def run_json(cmd, timeout=600):
    r = sh(cmd, timeout=timeout)
    try:
        j = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        raise Broken("no answer from %s: rc=%d\n%s\n%s" % (" ".join(cmd), r.returncode, r.stdout[-500:], r.stderr[-1500:]))
    return j


def gate(prop, exe, variant, seed, v, tier, chunk):
    """Confirms a violation deterministically, minimises it, and writes the replay file. None if it does not reproduce."""
    th = ["--thorough"] if tier == "thorough" else []
    run = v["run"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    base = os.path.join(VERIF, "replays", "%s-%s-seed%d-run%d" % (prop, variant, seed, run))
    rec = base + ".full"
    a = run_json([exe, "run", "--seed", str(seed), "--run", str(run), "--record", rec] + th)
    b = run_json([exe, "run", "--seed", str(seed), "--run", str(run)] + th)
    path = base + ".replay"
    head = "# property %s\n# variant %s\n# tier %s\n# seed %d run %d\n# replay with: ./check.py --replay %s\n" % (
        prop, variant, tier, seed, run, os.path.relpath(path, VERIF))
    if a["rc"] == 1 and b["rc"] == 1 and a["cls"] == b["cls"] and a["hash"] == b["hash"]:
        m = run_json([exe, "minimise", rec, path, "--limit", "30"] + th, timeout=400)
        c = d = m
        if m["rc"] == 1:
            c = run_json([exe, "replay", path] + th)
            d = run_json([exe, "replay", path] + th)
        if m["rc"] == 1 and c["rc"] == 1 and d["rc"] == 1 and c["hash"] == d["hash"] and c["cls"] == a["cls"]:
            body = open(path).read()
            with open(path, "w") as f:
                f.write(head + body)
            return path, c
    if os.path.exists(rec):
        os.unlink(rec)
    # the violation may need the runs before it in the same process
    lo = run - run % chunk if chunk > 1 else run
    for back in (1, 2, 4, 8, chunk):
        begin = max(lo, run - back)
        a = run_json([exe, "run", "--seed", str(seed), "--begin", str(begin), "--run", str(run)] + th)
        if a["rc"] == 1:
            b = run_json([exe, "run", "--seed", str(seed), "--begin", str(begin), "--run", str(run)] + th)
            if b["rc"] == 1 and a["cls"] == b["cls"] and a["hash"] == b["hash"]:
                with open(path, "w") as f:
                    f.write(head + "# runs %d %d\n# class %s\n# detail %s\n" % (begin, run, a["cls"], a["detail"]))
                return path, a
    # The code under test depends on something which is not the simulator's (uninitialised memory, addresses): the
    # histories differ, but the run fails every time.
    rs = [run_json([exe, "run", "--seed", str(seed), "--run", str(run)] + th) for _ in range(6)]
    if all(r["rc"] == 1 for r in rs):
        with open(path, "w") as f:
            f.write(head + "# runs %d %d\n# class %s\n# detail %s\n# the failure reproduces, its history differs between executions\n" % (
                run, run, rs[0]["cls"], rs[0]["detail"]))
        return path, rs[0]
    return None


def symbolise(exe, text):
    """Source positions for the pcs named in a report (for the reader only; plays no part in the verdict)."""
    tool = next((t for t in ("/usr/bin/llvm-symbolizer-18", "/usr/bin/addr2line") if os.path.exists(t)), None)
    if not tool:
        return text

    def sub(m):
        r = sh([tool, "-e", exe, "-f", "-C", "-i", m.group(1)], timeout=60).stdout.strip().split("\n")
        frames = list(zip(r[0::2], r[1::2]))
        best = next((f for f in frames if REPO in f[1]), frames[0])
        return "pc %s at %s (%s)" % (m.group(1), best[1].split(" ")[0], best[0][:100])
    try:
        return re.sub(r"pc (0x[0-9a-f]+)", sub, text)
    except Exception:
        return text


def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return r


def check(prop, tier, seed, scale):
    t0 = time.time()
    cfg = PROPS[prop]
    plan = cfg[tier]
    limit = plan.get("limit", 120 if tier == "quick" else 3000)
    variants = list(plan["runs"].keys())
    b = Builder()
    exes = b.build(prop, variants)
    t_build = time.time() - t0
    th = ["--thorough"] if tier == "thorough" else []
    chunk = plan.get("chunk", cfg.get("chunk", 25))
    tasks = []
    tmpd = os.path.join(OUT, "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    for v in variants:
        n = max(8, int(plan["runs"][v] * scale))
        per = -(-n // JOBS)
        per = -(-per // chunk) * chunk
        off = variants.index(v) * 100000000  # different runs in every variant
        for k in range(JOBS):
            a, e = k * per, min((k + 1) * per, n)
            if a < e:
                tasks.append((v, off + a, off + e))
    # interleave the variants so that the wall clock cap (a safety net) cuts all alike
    tasks.sort(key=lambda x: (x[1] % 100000000, x[0]))
    te = time.time()

    def one(i_task):
        i, (v, a, e) = i_task
        out = os.path.join(tmpd, "%d.json" % i)
        left = limit - (time.time() - te)
        if left < 2:
            return v, None, None
        cmd = [exes[v], "explore", "--seed", str(seed), "--begin", str(a), "--end", str(e), "--chunk", str(chunk),
               "--limit", "%.1f" % left, "--max-violations", "3", "--out", out] + th
        r = sh(cmd, timeout=limit + 300)
        try:
            return v, json.load(open(out)), out + ".hashes"
        except Exception as x:
            raise Broken("explore failed: %s rc=%d %s" % (" ".join(cmd), r.returncode, r.stderr[-2000:]))

    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, enumerate(tasks)))
    t_explore = time.time() - te
    tot = {k: 0 for k in ("runs", "steps", "edges", "switches", "faults", "sim_ns", "nontrivial", "allocs", "broken")}
    kinds, probes, per_variant = {}, {}, {}
    hashes, ils, nt_hashes = set(), set(), set()
    edges_hit = 0
    viols = []
    skipped = 0
    for v, r, hp in results:
        if r is None:
            skipped += 1
            continue
        for k in tot:
            tot[k] += r[k]
        per_variant[v] = per_variant.get(v, 0) + r["runs"]
        for k, n in r["fault_kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
        edges_hit = max(edges_hit, r["edges_hit"])
        data = open(hp, "rb").read()
        for h, il, nt in struct.iter_unpack("<QQQ", data):
            hashes.add(h)
            ils.add(il)
            if nt:
                nt_hashes.add(h)
        viols += [(v, x) for x in r["violations"]]
    shutil.rmtree(tmpd, ignore_errors=True)
    viols.sort(key=lambda x: (variants.index(x[0]), x[1]["run"]))
    known = known_findings(prop)
    reported, seen_known, failed_gate = None, set(), []
    for v, x in viols:
        k = next((i for i, (c, rx, _) in enumerate(known) if c == x["cls"] and rx.search(x["detail"])), None)
        if k is not None:
            seen_known.add(k)
            continue
        if len(failed_gate) >= 6:
            break
        g = gate(prop, exes[v], v, seed, x, tier, chunk)
        if g:
            reported = (v, x, g)
            break
        failed_gate.append((v, x))
    # determinism sample: same seed twice in fresh processes, and a written-out sample
    samples, det = [], 0
    if not reported:
        for v in variants[:2]:
            for run in (0, 1, 2, 3, 5, 8):
                run += variants.index(v) * 100000000
                a = run_json([exes[v], "run", "--seed", str(seed), "--run", str(run)] + th)
                c = run_json([exes[v], "run", "--seed", str(seed), "--run", str(run)] + th)
                if a["hash"] != c["hash"]:
                    raise Broken("run %d of variant %s is not deterministic" % (run, v))
                det += 1
        r = sh([exes[variants[0]], "run", "--seed", str(seed), "--run", "1", "--verbose"] + th)
        samples.append({"variant": variants[0], "seed": seed, "run": 1, "events": r.stderr.splitlines()[:40]})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nt_hashes),
            "rule": cfg["rule"] + " A run is non-trivial if at least one fault fired in it or threads were switched more than twice; "
                    "runs are distinct if the hashes of their complete histories (choices, events, context switches) differ.",
            "samples": samples or [{"violation": reported[1] if reported else None}],
            "runs_per_variant": per_variant,
            "runs_per_hour": int(tot["runs"] / max(t_explore, 1e-3) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(t_explore, 1e-3) * 3600),
            "simulated_time_s": tot["sim_ns"] / 1e9,
            "simulated_steps": tot["steps"],
            "executed_branches": tot["edges"],
            "context_switches": tot["switches"],
            "allocations_seen": tot["allocs"],
            "faults_injected": tot["faults"],
            "fault_kinds": kinds,
            "probes": probes,
            "distinct_histories": len(hashes),
            "distinct_interleavings": len(ils),
            "distinct_interleavings_measure": "hash of the sequence (from thread, to thread, scheduling points since the last switch) of a run",
            "code_branches_reached": edges_hit,
            "determinism_pairs_checked": det,
            "tasks_cut_by_wall_limit": skipped,
            "components_real": cfg.get("real", []) + ["C++ standard library templates"],
            "components_stubbed": cfg.get("stub", []),
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if reported else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial histories, %d interleavings), %d faults, build %.1f s, explore %.1f s" % (
        prop, tier, tot["runs"], len(nt_hashes), len(ils), tot["faults"], t_build, t_explore))
    for i, (_, _, text) in enumerate(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if reported:
        v, x, (path, c) = reported
        print("violation class %s in variant %s: %s" % (c["cls"], v, symbolise(exes[v], c["detail"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if failed_gate:
        print("ERROR: violations that do not reproduce: %s" % failed_gate[:3])
        return 2
    if tot["broken"] or tot["runs"] == 0:
        print("ERROR: %d broken runs of %d" % (tot["broken"], tot["runs"]))
        return 2
    return 0


def replay(path):
    head = open(path).read()
    prop = re.search(r"^# property (\S+)", head, re.M).group(1)
    variant = re.search(r"^# variant (\S+)", head, re.M).group(1)
    tier = re.search(r"^# tier (\S+)", head, re.M).group(1)
    seed, run = re.search(r"^# seed (\d+) run (\d+)", head, re.M).groups()
    th = ["--thorough"] if tier == "thorough" else []
    exe = Builder().build(prop, [variant])[variant]
    m = re.search(r"^# runs (\d+) (\d+)", head, re.M)
    if m:
        cmd = [exe, "run", "--seed", seed, "--begin", m.group(1), "--run", m.group(2), "--verbose"] + th
    else:
        cmd = [exe, "replay", path, "--verbose"] + th
    r = sh(cmd)
    sys.stdout.write(r.stderr[-20000:])
    sys.stdout.write(r.stdout)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return r.returncode


def main():
    a = sys.argv[1:]

    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    try:
        if "--replay" in a:
            return replay(opt("--replay", None))
        if "--selftest" in a:
            b = Builder()
            for v in ("race-c++17-dbg", "mem-c++20-rel"):
                b.obj(os.path.join(VERIF, "sim", "sim.cpp"), b.sim_flags(v), v.split("-")[0])
            print("simulator builds")
            return 0
        tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
        return check(a[0], tier, seed, float(opt("--runs-scale", "1")))
    except Broken as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
