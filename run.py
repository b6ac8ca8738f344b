#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree, runs one check, writes its evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MIZUGAKI_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)

LIBS = {
    "parser": ["src/mizugaki/ast", "src/mizugaki/parser"],
    "analyzer": ["src/mizugaki/analyzer", "src/mizugaki/*.cpp"],
}

from checks.registry import CHECKS  # noqa: E402


def sources(lib):
    out = []
    for d in LIBS[lib]:
        if "*" in d:
            out += sorted(glob.glob(os.path.join(REPO, d)))
            continue
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc"))]
    return out


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def ninja(variant, binaries):
    """Writes build.ninja of one variant (opt or san) for the given check binaries."""
    d = os.path.join(BUILD, variant)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "mizugaki/parser"), exist_ok=True)
    os.makedirs(d, exist_ok=True)
    flags = "-std=c++17 -O1 -g0 -w -DMODEL_FILE='\"%s/model/sql_model.txt\"' -I%s/shim -I%s/mc -I%s/include -I%s/src -I%s" % (V, V, V, REPO, REPO, gen)
    ld = ""
    cxx = "g++"
    if variant == "san":
        flags += " -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
        ld = "-fsanitize=address,undefined"
    P = os.path.join(REPO, "src/mizugaki/parser")
    hpp = gen + "/mizugaki/parser/sql_parser_generated.hpp"
    pcc = gen + "/mizugaki/parser/sql_parser_generated.cpp"
    scc = gen + "/mizugaki/parser/sql_scanner_generated.cpp"
    n = []
    n.append("ninja_required_version = 1.3\ncxx = %s\nflags = %s\nld = %s\n" % (cxx, flags, ld))
    n.append("rule bison\n command = cd %s/mizugaki/parser && bison -Wno-error --output=sql_parser_generated.cpp --header=sql_parser_generated.hpp $in\n" % gen)
    n.append("rule flex\n command = flex -Cfe -o $out $in\n")
    n.append("rule cxx\n command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n")
    n.append("rule ar\n command = rm -f $out && ar crsT $out $in\n")
    n.append("rule link\n command = $cxx $ld $in -o $out $libs\n")
    n.append("build %s %s: bison %s/sql_parser.yy" % (pcc, hpp, P))
    n.append("build %s: flex %s/sql_scanner.ll" % (scc, P))
    libs = {}
    for lib in LIBS:
        objs = []
        for s in sources(lib) + ([pcc, scc] if lib == "parser" else []):
            rel = os.path.relpath(s, REPO if s.startswith(REPO + "/") else BUILD).replace("/", "_")
            o = "%s/%s/%s.o" % (d, lib, rel)
            n.append("build %s: cxx %s || %s" % (o, s, hpp))
            objs.append(o)
        libs[lib] = "%s/lib%s.a" % (d, lib)
        n.append("build %s: ar %s" % (libs[lib], " ".join(objs)))
    outs = []
    for name, spec in sorted(binaries.items()):
        o = "%s/checks/%s.o" % (d, name)
        n.append("build %s: cxx %s/checks/%s || %s\n extra = %s" % (o, V, spec["source"], hpp, spec.get("flags", "")))
        x = "%s/bin/%s" % (d, name)
        n.append("build %s: link %s %s" % (x, o, " ".join(libs[l] for l in spec.get("libs", ["parser"]))))
        outs.append(x)
    write_if_changed(os.path.join(d, "build.ninja"), "\n".join(n) + "\n")
    return d, outs


def build(wanted):
    """wanted: list of (variant, binary names)"""
    for variant in sorted({v for v, _ in wanted}):
        names = {b for v, b in wanted if v == variant}
        allb = {}
        for c in CHECKS.values():
            for leg in c["runs"]:
                if leg.get("variant", "opt") == variant:
                    allb[leg["bin"]] = leg
        d, _ = ninja(variant, allb)
        targets = ["%s/bin/%s" % (d, b) for b in sorted(names)]
        r = subprocess.run(["ninja", "-f", os.path.join(d, "build.ninja"), "-j", "8"] + targets,
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            keep = [l for l in r.stdout.splitlines() if not re.match(r"\[\d+/\d+\]|g\+\+ ", l)]
            sys.stdout.write("\n".join(keep)[:2500] + "\n")
            print("BUILD-FAILED variant=%s" % variant)
            sys.exit(2)


def known(pid):
    """Findings recorded for the property: (leg, case text, key) triples to announce, not to alarm on."""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                o = json.loads(line[len("known: "):])
                if o["property"] == pid:
                    out.append(o)
    return out


def main():
    if sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        build([(r.get("variant", "opt"), r["bin"]) for c in CHECKS.values() for r in c["runs"]])
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    if tier == "replay":  # run.py ID replay FILE
        o = json.load(open(sys.argv[3]))
        build([(o["variant"], o["bin"])])
        r = subprocess.run([os.path.join(BUILD, o["variant"], "bin", o["bin"]), "--tier", o["tier"], "--replay", o["leg"], o["case"]])
        return r.returncode
    build([(r.get("variant", "opt"), r["bin"]) for r in c["runs"]])
    t_build = time.time() - t0
    failures, counters, expl, samples, distinct, capped = [], {}, {}, [], 0, False
    for run in c["runs"]:
        exe = os.path.join(BUILD, run.get("variant", "opt"), "bin", run["bin"])
        out = os.path.join(BUILD, "result-%s-%s.json" % (pid, run["bin"]))
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:allocator_may_return_null=1:symbolize=0" % run.get("leaks", 0)
        env["VERIF_REPO"] = REPO
        env["VERIF_GEN"] = os.path.join(BUILD, "gen")
        r = subprocess.run([exe, "--workers", "8", "--tier", tier, "--out", out], env=env)
        if r.returncode != 0 or not os.path.exists(out):
            print("CHECK-ERROR %s exit %d" % (run["bin"], r.returncode))
            return 2
        o = json.load(open(out))
        os.remove(out)
        for f in o["failures"]:
            f["bin"], f["variant"] = run["bin"], run.get("variant", "opt")
            failures.append(f)
        for k, v in o["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in o["exploration"].items():
            expl[k] = expl.get(k, 0) + v
        samples += o["samples"]
        distinct += o["distinct"]
        capped = capped or o["capped"]
    kf = known(pid)
    failures.sort(key=lambda f: (len(f["case"]), f["case"]))
    fresh, seen_known, seen = [], set(), {}
    for f in failures:
        k = next((i for i, x in enumerate(kf) if x["key"] == f["key"] and re.search(x["match"], f["what"], re.S)), None)
        if k is not None:
            seen_known.add(k)
            continue
        if seen.setdefault(f["key"], 0) < 3:
            seen[f["key"]] += 1
            fresh.append(f)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]["text"]))
    confirmed = []
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in fresh[:8]:
        # a reported failure must come back when its case is run alone
        exe = os.path.join(BUILD, f["variant"], "bin", f["bin"])
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:symbolize=0"
        env["VERIF_REPO"] = REPO
        env["VERIF_GEN"] = os.path.join(BUILD, "gen")
        try:
            r = subprocess.run([exe, "--tier", tier, "--replay", f["leg"], f["case"]], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            f["replayed"] = r.returncode != 0
            f["replay_output"] = r.stdout.decode("utf-8", "replace")[-3000:]
        except subprocess.TimeoutExpired:
            f["replayed"] = True
            f["replay_output"] = "no answer"
        path = os.path.join(rdir, "%s-%d.json" % (pid, len(confirmed)))
        f["tier"] = tier
        f["property"] = pid
        f["how"] = "python3 run.py %s replay %s" % (pid, path)
        json.dump(f, open(path, "w"), indent=1)
        confirmed.append((f, path))
    for f, path in confirmed:
        print("%s: leg %s case %s%s\n  %s" % (f["key"], f["leg"], f["case"], "" if f["replayed"] else " (NOT reproduced alone)", f["what"][:1500]))
    level = c.get("level", "model_checking")
    execs = expl.get("executions", 0)
    cov = {
        "states": expl.get("nodes", 0),
        "transitions": expl.get("choices", 0),
        "traces_validated_against_impl": counters.get("traces", execs),
        "distinct_cases": distinct,
        "samples": samples[:40],
        "exhaustive": not capped,
        "bounds": c.get("bounds", {}).get(tier, c.get("bounds", {}).get("quick", "")),
        "counters": {k: v for k, v in sorted(counters.items())},
        "build_s": round(t_build, 1),
    }
    if level == "exploration":
        cov["evaluations"] = execs
        cov["distinct_nontrivial"] = distinct
        cov["rule"] = c.get("rule", "")
    ev = {
        "property": pid, "tier": "thorough" if tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    vacuous = [k for k in c.get("must_cover", []) if not counters.get(k)]
    if vacuous and not fresh:
        print("CHECK-ERROR nothing exercised: %s" % ", ".join(vacuous))
        return 2
    if fresh:
        # prefer a failure that was reproduced on its own
        best = next((p for f, p in confirmed if f["replayed"]), confirmed[0][1])
        print("VIOLATION property=%s replay=%s" % (pid, best))
        return 1
    print("OK property=%s %d executions, %d model states, %d transitions, %d distinct cases, %.1f s (build %.1f s)" % (
        pid, execs, cov["states"], cov["transitions"], distinct, time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
