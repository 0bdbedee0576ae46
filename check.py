#!/usr/bin/env python3
"""Build and run one property check against /repo's current working tree.

  check.py Cxx                 run the check (tier from $VERIF_TIER, default quick)
  check.py --replay FILE       re-run the case(s) of a violation reported earlier
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CMMCORE_REPO", "/repo")
CFG = json.load(open(os.path.join(HERE, "harness", "checks.json")))

BASE = ["clang++-18", "-std=c++17", "-stdlib=libc++", "-include", os.path.join(HERE, "support", "scalar_prefix.h"),
        "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-w", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_FAST"]
SAN = {"asan": ["-O1", "-g1", "-fsanitize=address", "-fno-sanitize-recover=all"],
       "none": ["-O2", "-g1"]}


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:quarantine_size_mb=16:detect_stack_use_after_return=0:symbolize=0:malloc_context_size=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def build(prop, part):
    out = tempfile.mkdtemp(prefix="vb-" + prop + "-")
    src = os.path.join(HERE, "harness", part["src"])
    exe = os.path.join(out, "check")
    base = list(BASE)
    if part.get("native"):  # the platform's own code path instead of the portable one
        base = [a.replace("scalar_prefix.h", "native_prefix.h") for a in base]
    if part.get("cc") == "g++":  # and the other compiler, with its library
        base = ["g++"] + [a for a in base[1:] if not a.startswith("-stdlib") and "LIBCPP" not in a] + ["-D_GLIBCXX_ASSERTIONS"]
    cmd = base + SAN[part.get("san", "asan")] + part.get("flags", []) + [src, "-o", exe, "-lpthread"]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print("ERROR: the harness %s does not compile against %s" % (part["src"], REPO))
        shutil.rmtree(out, ignore_errors=True)
        sys.exit(2)
    return out, exe


def known(prop):
    res = []
    fn = os.path.join(HERE, "known_findings.txt")
    for line in open(fn) if os.path.exists(fn) else []:
        line = line.rstrip("\n")
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def run_part(prop, part, tier):
    bdir, exe = build(prop, part)
    out = os.path.join(bdir, "res.json")
    work = os.path.join(bdir, "work")
    os.mkdir(work)
    jobs = str(part.get("jobs", min(8, max(2, os.cpu_count() or 2))))
    cmd = [exe, "--out", out, "--dir", work, "--jobs", jobs, "--hang", str(part.get("hang", 40))]
    if tier == "thorough":
        cmd.append("--thorough")
    r = subprocess.run(cmd, env=env(), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-4000:])
        print("ERROR: the exploration of %s ended with status %s" % (part["src"], r.returncode))
        shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(2)
    res = json.load(open(out))
    shutil.rmtree(bdir, ignore_errors=True)
    return res


def main():
    if sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        bdir, exe = build(rep["property"], rep["part"])
        cmd = [exe] + (["--thorough"] if rep["tier"] == "thorough" else [])
        if rep["mode"] == "prefix":
            cmd += ["--shard", str(rep["shard"]), str(rep["jobs"]), "--upto", str(rep["case"] + 1)]
        else:
            cmd += ["--only", str(rep["case"])]
        e = env(); e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("symbolize=0:malloc_context_size=1", "symbolize=1")
        rc = subprocess.run(cmd, env=e, cwd=bdir).returncode
        shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(0 if rc == 0 else 1)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = CFG[prop]
    t0 = time.time()
    tot = dict(cases=0, states=0, transitions=0, traces=0)
    samples, tags, fails, incomplete = [], {}, [], []
    for part in cfg["parts"]:
        res = run_part(prop, part, tier)
        for k in tot:
            tot[k] += res[k]
        samples += res["samples"][:8]
        for k, v in res["tags"].items():
            tags[k] = tags.get(k, 0) + v
        incomplete += res["incomplete"]
        for f in res["failures"]:
            f["part"] = part
            fails.append(f)
        if res["cases"] != res["cases_total"] and not res["failures"]:
            print("ERROR: only %d of %d cases ran" % (res["cases"], res["cases_total"]))
            sys.exit(2)
    kn = dict(known(prop))
    seen, viol, unconf = {}, [], []
    for f in fails:
        if f["key"].replace(" ", "_") in kn:
            seen[f["key"].replace(" ", "_")] = f
        elif f["mode"] == "unconfirmed":
            unconf.append(f)
        else:
            viol.append(f)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    rdir = os.path.join(HERE, "replays")
    first = None
    for i, f in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump(dict(property=prop, tier=tier, part=f["part"], case=f["case"], mode=f["mode"], shard=f["shard"],
                       jobs=f["jobs"], key=f["key"], desc=f["desc"], msg=f["msg"],
                       how="python3 check.py --replay " + p), open(p, "w"), indent=1)
        if i < 12:
            print("  [%s] x%d case %d {%s}: %s" % (f["key"], f["count"], f["case"], f["desc"], f["msg"]))
        first = first or p
    for f in unconf[:5]:
        print("  (not reproduced, not reported) [%s] %s" % (f["key"], f["msg"]))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=cfg["level"],
              coverage=dict(samples=samples, exhaustive=not incomplete and not viol,
                            explanation=cfg["explanation"], cases=tot["cases"], tags=tags,
                            violation_keys=[f["key"] for f in viol], known_findings=sorted(seen),
                            not_reproduced=[f["key"] for f in unconf], incomplete=incomplete),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    c = ev["coverage"]
    if cfg["level"] in ("exploration", "fault_enumeration"):
        c.update(evaluations=tot["transitions"], distinct_nontrivial=tot["states"], rule=cfg["rule"])
    else:
        c.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %.1fs, %d violation(s)" %
          (prop, tier, tot["cases"], tot["states"], tot["transitions"], time.time() - t0, len(viol)))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, first))
        sys.exit(1)
    if tot["cases"] == 0 or tot["transitions"] == 0:
        print("ERROR: nothing was explored")
        sys.exit(2)
    sys.exit(0)


main()
