#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree, runs
its generated-input search in parallel shards, confirms and reports failures,
writes evidence/<id>.json.

  run.py setup
  run.py check <id> [--tier quick|thorough] [--prop NAME] [--scale X] [--seed N]
  run.py replay <replay-file>
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo)."""
import sys, os, re, json, time, hashlib, subprocess, shutil, argparse
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
CXX = "g++"
BASE = ["-std=c++17", "-w", "-I" + REPO + "/include", "-I" + ROOT + "/pbt", "-I" + ROOT + "/common",
        "-DWITH_BOOST", "-DWITH_BOOST_GRAPH"]
HDF5 = ["-DWITH_HDF5", "-I/usr/include/hdf5/serial", "-DH5_USE_110_API"]
HDF5_L = ["/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so"]
VARIANTS = {
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DOPENGM_DEBUG", "-fsanitize=address", "-fsanitize=bounds",
            "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "rel": ["-O2", "-DNDEBUG", "-DOPENGM_DEBUG"],
}

def log(*a):
    print(*a, flush=True)

def tree_hash(paths, extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in paths:
        if os.path.isfile(p):
            fl = [p]
        else:
            fl = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                fl += [os.path.join(d, f) for f in sorted(fs)]
        for f in fl:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]

def sources(pid):
    d = os.path.join(ROOT, "harness", pid)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cxx"))

def directives(src, key):
    out = []
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*%s:\s*(.*)" % key, line)
            if m:
                out += m.group(1).split()
    return [x.replace("$REPO", REPO).replace("$ROOT", ROOT) for x in out]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def build_tools(names, variant, bdir):
    """Build programs of /repo/src from the working tree. names: dict name -> source."""
    srcs = {
        "opengm_min_sum": "src/interfaces/commandline/double/opengm_min_sum.cxx",
        "opengm_max_prod": "src/interfaces/commandline/double/opengm_max_prod.cxx",
        "opengm_min_sum_small": "src/interfaces/commandline/double/opengm_min_sum_small.cxx",
        "uai2opengm": "src/converter/uai2opengm.cxx", "opengm2uai": "src/converter/opengm2uai.cxx",
        "opengm2wudag": "src/converter/opengm2wudag.cxx", "partition2potts": "src/converter/partition2potts.cxx",
        "matching2opengm": "src/converter/matching2opengm.cxx", "matching2opengm-N2N": "src/converter/matching2opengm-N2N.cxx",
        "opengm-brain-converter": "src/converter/brain.cxx",
    }
    def one(n):
        out = os.path.join(bdir, n)
        if os.path.exists(out):
            return None
        opt = ["-O1", "-DNDEBUG"]
        if n.startswith("opengm_m"):
            opt = ["-O0"]
        if variant == "san" and not n.startswith("opengm_m"):
            opt += ["-fsanitize=address", "-g1"]
        cmd = [CXX, "-w"] + opt + ["-I" + REPO + "/include", "-I" + REPO + "/src/interfaces/common", "-DWITH_BOOST"] + HDF5 + \
              [os.path.join(REPO, srcs[n]), "-o", out + ".tmp"] + HDF5_L
        r = sh(cmd)
        if r.returncode:
            return "build of %s failed:\n%s" % (n, r.stdout.decode(errors="replace")[-3000:])
        os.rename(out + ".tmp", out)
    with ThreadPoolExecutor(NPROC) as ex:
        for e in ex.map(one, names):
            if e:
                log(e); return False
    return True

def prune(keep):
    if not os.path.isdir(BUILD):
        return
    ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD))
    for _, d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

def build(pid, variant):
    srcs = sources(pid)
    tools = []
    link = []
    flags = {}
    for s in srcs:
        flags[s] = directives(s, "FLAGS")
        if "HDF5" in flags[s]:
            flags[s] = [x for x in flags[s] if x != "HDF5"] + HDF5
            link += HDF5_L
        tools += directives(s, "TOOLS")
        link += directives(s, "LINK")
    link = list(dict.fromkeys(link)); tools = list(dict.fromkeys(tools))
    key = tree_hash([REPO + "/include", ROOT + "/pbt", ROOT + "/common"] + [os.path.join(ROOT, "harness", pid)] + srcs + ([REPO + "/src"] if tools else []),
                    [pid, variant, CXX, BASE, VARIANTS[variant], flags, link, tools])
    bdir = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, key))
    exe = os.path.join(bdir, "harness")
    if os.path.exists(exe) and all(os.path.exists(os.path.join(bdir, t)) for t in tools):
        os.utime(bdir)
        return exe, bdir, 0.0
    prune(int(os.environ.get("VERIF_KEEP_BUILDS", "90")))
    os.makedirs(bdir, exist_ok=True)
    t0 = time.time()
    allsrc = srcs + [os.path.join(ROOT, "pbt", "pbt_main.cxx")]
    def cc(s):
        o = os.path.join(bdir, os.path.basename(s) + ".o")
        opts = VARIANTS[variant]
        r = sh([CXX] + BASE + opts + flags.get(s, []) + ["-c", s, "-o", o])
        return (s, o, r.returncode, r.stdout.decode(errors="replace"))
    with ThreadPoolExecutor(NPROC) as ex:
        # big files first
        fut = list(ex.map(cc, sorted(allsrc, key=lambda f: -os.path.getsize(f))))
    for s, o, rc, txt in fut:
        if rc:
            log("compile of %s failed:\n%s" % (s, txt[-6000:]))
            return None, None, 0
    lf = [x for x in VARIANTS[variant] if x.startswith("-fsanitize")]
    r = sh([CXX] + lf + [o for _, o, _, _ in fut] + ["-o", exe + ".tmp"] + link)
    if r.returncode:
        log("link failed:\n" + r.stdout.decode(errors="replace")[-3000:]); return None, None, 0
    for _, o, _, _ in fut:
        os.unlink(o)
    if tools and not build_tools(tools, variant, bdir):
        return None, None, 0
    os.rename(exe + ".tmp", exe)
    return exe, bdir, time.time() - t0

def known_tags(pid):
    tags = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s*property=(\S+)\s+tag=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                tags[m.group(2)] = m.group(3).strip()
    return tags

def runjob(job):
    cmd, out, to, env = job
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=to, env=env)
        err = r.stderr.decode(errors="replace")[-1500:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        return dict(error="shard timed out: " + " ".join(cmd))
    try:
        d = json.load(open(out)); os.unlink(out)
        return d
    except Exception as e:
        return dict(error="no result from shard (rc=%s): %s %s" % (rc, " ".join(cmd), err))

def check(pid, tier, seed, only=None, scale=1.0, variants=None):
    t0 = time.time()
    tags = known_tags(pid)
    variants = variants or (["san"] if tier == "quick" else ["san", "rel"])
    total_budget = 420.0 if tier == "quick" else 3000.0
    results, exes, perprop = [], {}, {}
    for v in variants:
        exe, bdir, bt = build(pid, v)
        if not exe:
            log("ERROR: could not build the harness for %s" % pid); return 2
        exes[v] = exe
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ); env["PBT_TOOLS"] = os.path.dirname(exes[variants[0]]); env["PBT_SCRATCH"] = scratch
    env["PBT_REPO"] = REPO; env["OMP_NUM_THREADS"] = "1"
    jobs = []
    props = []
    for v in variants:
        ls = subprocess.run([exes[v], "--list"], stdout=subprocess.PIPE, env=env).stdout.decode().split("\n")
        for line in ls:
            if not line.strip():
                continue
            n, q, t = line.split()
            if only and n not in only:
                continue
            props.append(n)
            N = int(int(q if tier == "quick" else t) * scale)
            if N <= 0:
                continue
            nsh = min(NPROC, max(1, N // 4)) if N >= 8 else 1
            for s in range(nsh):
                out = os.path.join(scratch, "r-%s-%s-%d.json" % (v, n, s))
                e2 = dict(env); e2["PBT_TOOLS"] = os.path.dirname(exes[v])
                cmd = [exes[v], "--prop", n, "--seed", str(seed + (1000003 if v == "rel" else 0)), "--shard", str(s), "--nshards", str(nsh),
                       "--cases", str(N), "--out", out, "--known", ",".join(tags), "--deadline", str(total_budget * 0.5)]
                if tier == "thorough":
                    cmd.append("--thorough")
                jobs.append((cmd, out, total_budget * 2 + 600, e2))
    jobs.sort(key=lambda j: int(j[0][j[0].index("--shard") + 1]))
    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(runjob, jobs))
    rc = 0
    hashes, ev, nt, disc = set(), 0, 0, 0
    samples, labels, known, fails, errors = {}, {}, {}, {}, []
    dl = False
    for job, r in zip(jobs, results):
        if "error" in r:
            errors.append(r["error"]); continue
        n = r["prop"]
        pp = perprop.setdefault(n, dict(evaluations=0, nontrivial=0, discarded=0, labels={}))
        ev += r["evaluations"]; nt += r["nontrivial"]; disc += r["discarded"]; dl |= r["deadline_hit"]
        pp["evaluations"] += r["evaluations"]; pp["nontrivial"] += r["nontrivial"]; pp["discarded"] += r["discarded"]
        pp["wall"] = round(pp.get("wall", 0) + r["wall"], 2)
        for h in r["hashes"]:
            hashes.add((n, h))
        for k, c in r["labels"].items():
            pp["labels"][k] = pp["labels"].get(k, 0) + c
        for k, (c, m) in r["known"].items():
            a = known.setdefault(k, [0, m]); a[0] += c
        if r["samples"]:
            samples.setdefault(n, r["samples"][0])
        if "failure" in r:
            f = r["failure"]; f["exe"] = job[0][0]; f["shard_cmd"] = job[0]
            f["variant"] = "rel" if "-rel-" in job[0][0] else "san"
            g = fails.get(n)
            if g is None or (g["kind"] == "unreproduced" and f["kind"] != "unreproduced") or \
               (f["kind"] != "unreproduced" and len(f["choices"]) < len(g["choices"])):
                fails[n] = f
    shutil.rmtree(scratch, ignore_errors=True)
    nviol = 0
    for n, f in sorted(fails.items()):
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(REPLAYS, "%s-%s-%s.replay" % (pid, n, hashlib.sha1((f["message"] + str(f["choices"])).encode()).hexdigest()[:8]))
        with open(rp, "w") as fh:
            fh.write("property: %s\nprop: %s\nseed: %d\nvariant: %s\nkind: %s\ncase: %d\nreproduced: %d/3\nhow: python3 run.py replay %s\n" %
                     (pid, n, seed, f["variant"], f["kind"], f["case"], f["reproduced"], rp))
            fh.write("choices: %s\n---- message\n%s\n---- original message\n%s\n---- case\n%s\n" %
                     (" ".join(map(str, f["choices"])), f["message"], f["orig_message"], f["notes"]))
        if f["kind"] == "unreproduced":
            # failure depends on the worker's history: re-run that shard once more
            os.makedirs(scratch, exist_ok=True)
            again = runjob((f["shard_cmd"], f["shard_cmd"][f["shard_cmd"].index("--out") + 1], total_budget + 600, env))
            shutil.rmtree(scratch, ignore_errors=True)
            if "failure" in again and again["failure"]["case"] == f["case"]:
                f["kind"] = "history"
                with open(rp, "a") as fh:
                    fh.write("history: %s\n" % " ".join(f["shard_cmd"]))
            else:
                errors.append("failure of %s case %d (%s) did not reproduce; see %s" % (n, f["case"], f["orig_message"][:300], rp))
                continue
        nviol += 1
        log("  %s: %s after %d shrink attempts (%d -> %d choices)\n    %s" %
            (n, f["kind"], f["attempts"], f["orig_size"], len(f["choices"]), f["message"].replace("\n", "\n    ")[:1500]))
        if f["notes"]:
            log("    minimal case:\n      " + f["notes"].replace("\n", "\n      ")[:2500])
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    for k, (cnt, m) in sorted(known.items()):
        log("KNOWN-FINDING: property=%s %s (%d generated cases; %s)" % (pid, tags.get(k, k), cnt, k))
    for e in errors:
        log("ERROR: " + e)
    if errors and rc == 0:
        rc = 2
    rulef = os.path.join(ROOT, "harness", pid, "RULE")
    rule = open(rulef).read().strip() if os.path.exists(rulef) else "cases are drawn from the property's generator; a case is non-trivial when the property marks it so"
    evd = dict(property=pid, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), nontrivial=nt, discarded=disc, rule=rule,
                             samples=[samples[k] for k in sorted(samples)][:12], sub_properties=perprop, deadline_hit=dl,
                             variants=variants, known_findings={k: c for k, (c, _) in known.items()}),
               assumptions=["The reference model in the harness states the property correctly",
                            "g++ and AddressSanitizer translate the code faithfully",
                            "search is random, not exhaustive"],
               wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
            json.dump(evd, fh, indent=1)
    for n in sorted(perprop):
        p = perprop[n]
        log("  %-28s cases=%-8d nontrivial=%-8d discarded=%-5d cpu=%.1fs %s" % (n, p["evaluations"], p["nontrivial"], p["discarded"], p.get("wall", 0),
             " ".join("%s=%d" % kv for kv in sorted(p["labels"].items())) if only or os.environ.get("PBT_LABELS") else ""))
    log("%s %s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % ({0: "PASS", 1: "FAIL", 2: "ERROR"}[rc], pid, tier, seed, ev, len(hashes), time.time() - t0))
    return rc

def replay(path):
    pid = n = variant = None
    for line in open(path):
        if line.startswith("property: "): pid = line.split()[1]
        if line.startswith("prop: "): n = line.split()[1]
        if line.startswith("variant: "): variant = line.split()[1]
    exe, bdir, _ = build(pid, variant or "san")
    env = dict(os.environ); env["PBT_TOOLS"] = bdir; env["PBT_SCRATCH"] = bdir; env["PBT_REPO"] = REPO
    return subprocess.run([exe, "--prop", n, "--replay", path, "--known", ",".join(known_tags(pid))], env=env).returncode

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--prop", action="append"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--variant", action="append")
    a = ap.parse_args()
    if a.cmd == "setup":
        for t in (CXX, "python3"):
            if not shutil.which(t):
                log("missing " + t); return 1
        if not os.path.isdir(REPO + "/include/opengm"):
            log("missing repository"); return 1
        os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        log("setup ok"); return 0
    if a.cmd == "check":
        return check(a.id, a.tier, a.seed, a.prop, a.scale, a.variant)
    if a.cmd == "replay":
        return replay(a.id)
    log("unknown command"); return 2

if __name__ == "__main__":
    sys.exit(main())
