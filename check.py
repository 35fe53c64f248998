#!/usr/bin/env python3
"""Driver of the static checks.

  check.py <property-id> [--tier quick|thorough] [--repo /repo]

Compiles /repo's current sources to LLVM IR (nothing of them is executed), runs
the analyser (engine/build/vtool) with the rules of the property, compares the
result with known_findings.txt, writes evidence/<id>.json and ends with
  0  property held on everything analysed
  1  'VIOLATION property=<id> replay=<path>' printed
  2  analysis broken (cannot compile, anchors vanished, budget exhausted, ...)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(HERE, "engine")
LLVM = "/usr/lib/llvm-18"
sys.path.insert(0, HERE)
from registry import RULES  # noqa: E402


def die(msg):
    print("ANALYSIS-BROKEN: " + msg)
    sys.exit(2)


def clang():
    for c in (LLVM + "/bin/clang", "/usr/bin/clang-18", "/usr/bin/clang"):
        if os.path.exists(c):
            return c
    die("clang not found")


def build_tool():
    r = subprocess.run(["make", "-s", "-j8", "-C", ENGINE], capture_output=True, text=True)
    tool = os.path.join(ENGINE, "build", "vtool")
    if r.returncode or not os.path.exists(tool):
        die("cannot build the analyser: " + (r.stderr or r.stdout)[-2000:])
    return tool


BASE = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-DNDEBUG", "-w", "-fno-discard-value-names", "-c", "-emit-llvm",
        "-DMDBX_BUILD_SHARED_LIBRARY=0"]


def compile_unit(repo, unit, work, config):
    """unit: 'lib' | 'cxx' | tool name"""
    cfg = os.path.join(ENGINE, config)
    cc = clang()
    common = BASE + ['-DMDBX_CONFIG_H="%s"' % cfg]
    out = os.path.join(work, unit.replace("/", "_") + "-" + config + ".bc")
    if unit == "lib":
        cmd = [cc] + common + ["-std=gnu2x", "-o", out, os.path.join(repo, "mdbx.c")]
    elif unit == "cxx":
        cmd = [cc, "--driver-mode=g++"] + common + ["-std=gnu++20", "-I" + repo, "-o", out, os.path.join(repo, "mdbx.c++")]
    elif unit == "cxxhdr":  # every inline function of the C++ API
        src = os.path.join(work, "cxxhdr.c++")
        open(src, "w").write(open(os.path.join(ENGINE, "cxx_instances.h++")).read())
        cmd = [cc, "--driver-mode=g++"] + common + ["-std=gnu++20", "-femit-all-decls", "-I" + repo, "-o", out, src]
    else:
        cmd = [cc] + common + ["-std=gnu2x", "-o", out, os.path.join(repo, unit + ".c")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        die("cannot compile %s: %s" % (unit, r.stderr[-3000:]))
    return out


def load_known(pid):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid = a.property
    if pid not in RULES:
        die("no rule for " + pid)
    t0 = time.time()
    spec = RULES[pid]
    tool = build_tool()
    work = tempfile.mkdtemp(prefix="vchk-")
    try:
        findings, stats, samples, errors, seconds = [], {}, [], [], 0.0
        configs = ["config-default.h"] + (["config-checking.h"] if a.tier == "thorough" else [])
        jobs = []
        for config in configs:
            for unit, rules in spec["units"]:
                jobs.append((config, unit, rules))
        for config, unit, rules in jobs:
            bc = compile_unit(a.repo, unit, work, config)
            out = bc + ".json"
            kind = "lib" if unit == "lib" else "cxx" if unit == "cxx" else "hdr" if unit == "cxxhdr" else "tool"
            cmd = [tool, "--bc", bc, "--baseline", os.path.join(ENGINE, "baseline_%s.txt" % kind),
                   "--keep", os.path.join(ENGINE, "keep_%s.txt" % kind.replace("hdr", "cxx")), "--rule", ",".join(rules), "--out", out]
            if kind == "tool":
                cmd += ["--arg", unit]
            if kind == "hdr":
                cmd += ["--arg", "hdr"]
            if a.tier == "thorough":
                cmd += ["--thorough", "--disj", "64"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                die("analyser failed on %s (%s): rc=%s %s" % (unit, config, r.returncode, r.stderr[-2000:]))
            d = json.load(open(out))
            pre = "" if config == "config-default.h" else "checking:"
            stats[pre + unit + ".functions"] = d["functions_in_module"]
            for rule in rules:
                x = d[rule]
                for f in x["findings"]:
                    f["unit"] = unit
                    f["config"] = config
                    findings.append(f)
                for k, v in x["stats"].items():
                    stats[pre + (unit + "." if len(spec["units"]) > 1 else "") + k] = v
                samples += ["%s: %s" % (unit, s) for s in x["samples"]][:12]
                errors += ["%s/%s: %s" % (unit, rule, e) for e in x["errors"]]
                seconds += x["seconds"]
        for fn in spec.get("extra", []):
            fn(a.repo, work, findings, stats, samples, errors)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # totals over all units
    for k, mn in spec.get("totals", {}).items():
        tot = sum(v for n, v in stats.items() if n == k or (n.endswith("." + k) and not n.startswith("checking:")))
        stats["total." + k] = tot
        if tot < mn:
            errors.append("analysis broken: total %s = %d, expected at least %d" % (k, tot, mn))
    known = load_known(pid)
    seen = {}
    for f in findings:
        key = "%s|%s|%s" % (f["rule"], f["func"], f["inst"])
        f["key"] = key.replace(" ", "_")
        seen.setdefault(f["key"], f)
    new = [f for k, f in seen.items() if k not in known]
    old = [f for k, f in seen.items() if k in known]
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "rules": sorted({r for _, rs in spec["units"] for r in rs}),
            "measured": stats,
            "samples": samples[:40],
            "known_findings_seen": [f["key"] for f in old],
            "reports": ["%s:%d %s in %s(): %s" % (f["file"], f["line"], f["rule"], f["func"], f["msg"]) for f in new],
            "analyser_errors": errors,
        },
        "assumptions": spec["assume"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for f in old:
        print("KNOWN-FINDING: property=%s %s (%s:%d)" % (pid, known[f["key"]], f["file"], f["line"]))
    if new:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as o:
            for f in new:
                o.write("%s:%d: [%s] in %s(): %s\n  instance: %s\n" % (f["file"], f["line"], f["rule"], f["func"], f["msg"], f["key"]))
                for l in f["path"]:
                    o.write("    %s\n" % l)
        for f in new[:20]:
            print("%s:%d: [%s] in %s(): %s" % (f["file"], f["line"], f["rule"], f["func"], f["msg"]))
            if a.verbose:
                for l in f["path"]:
                    print("     " + l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if errors:
        for e in errors:
            print(e)
        die("; ".join(errors[:5]))
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % kv for kv in sorted(stats.items()))))
    sys.exit(0)


if __name__ == "__main__":
    main()
