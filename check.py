#!/usr/bin/env python3
"""check.py ID            run the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --build [ID..]   only build (all harnesses by default)
check.py --replay FILE    run a replay file again

Builds the harness of the property from /repo's current working tree (in /verif/build, which git
ignores), runs its generators on all cores, writes evidence/<ID>.json, and prints one line
VIOLATION property=<ID> replay=<path> and exits 1 if a case breaks the property."""

import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
TREE = os.path.join(BUILD, "tree")
REPLAYS = os.path.join(BUILD, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
CORES = os.cpu_count() or 4

sys.path.insert(0, HARNESS)
from registry import CHECKS, TARGETS  # noqa: E402

CXX = "clang++-18"
SAN = ("-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,function "
       "-fwrapv -fno-omit-frame-pointer")
HEADERS = ("algorithm functional iomanip map memory optional set sstream string tuple "
           "unordered_map unordered_set vector")


def base_flags(san):
    return " ".join(
        ["-std=c++20 -g1 -O1 -w", san, "-DASIO_STANDALONE", "-DFMT_CONSTEVAL=", "-DPERF_COUNT"]
        + ["-include " + h for h in HEADERS.split()]
        + ["-I" + TREE + "/src", "-I" + TREE + "/include", "-I" + TREE + "/gen",
           "-I/usr/share/verilator/include/vltstd", "-I" + HARNESS]
    )


def put(path, data):
    """Writes a file only when its content changes (so that ninja rebuilds only what changed)."""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def cut_sqlite(source, text):
    """The repository's SQLite symbol table needs sqlite_orm, which is not installed here: leave
    that part out, the way the sandbox's own build does (/opt/vp/cmake/overlay.py), except where a
    stand-in for it is used."""
    marks = {
        "include/schema.hh": ("auto inline init_debug_db(", "<}  // namespace hgdb"),
        "src/db.hh": ("class DBSymbolTableProvider ", "=};"),
        "src/db.cc": ("DBSymbolTableProvider::DBSymbolTableProvider(const ",
                      ">namespace db::json {"),
        "src/symbol.cc": ("            case FileType::SQLite: {", "=            }"),
    }
    if source not in marks:
        return text
    start, end = marks[source]
    lines = text.split("\n")
    first = [i for i, line in enumerate(lines) if line.startswith(start)]
    if len(first) != 1:
        raise SystemExit("%s: marker %r found %d times" % (source, start, len(first)))
    first = first[0]
    ends = [i for i, line in enumerate(lines) if line == end[1:] and i > first]
    last = {"=": ends[0] + 1, ">": ends[0], "<": ends[-1]}[end[0]]
    lines = ["" if 'sqlite_orm/sqlite_orm.h"' in x else x for x in lines]
    head = ["#ifdef PBT_SQLITE", '#include "sqlite_orm/sqlite_orm.h"', "#endif"]
    return "\n".join(head + lines[:first] + ["#ifdef PBT_SQLITE"] + lines[first:last] + ["#endif"]
                     + lines[last:])


def sync_tree():
    want = set()
    for top in ("src", "include", "tools", "bindings"):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            for name in files:
                if not name.endswith((".cc", ".hh", ".h", ".hpp", ".json", ".in", ".py")):
                    continue
                full = os.path.join(d, name)
                rel = os.path.relpath(full, REPO)
                with open(full, "rb") as f:
                    data = f.read()
                if rel in ("include/schema.hh", "src/db.hh", "src/db.cc", "src/symbol.cc"):
                    data = cut_sqlite(rel, data.decode()).encode()
                put(os.path.join(TREE, rel), data)
                want.add(rel)
    with open(os.path.join(REPO, "src/jschema.hh.in")) as f:
        template = f.read()
    with open(os.path.join(REPO, "include/schema.json")) as f:
        schema = f.read()
    put(os.path.join(TREE, "gen/jschema.hh"),
        template.replace("${JSON_SCHEMA}", schema).encode())
    for d, _, files in os.walk(TREE):
        for name in files:
            rel = os.path.relpath(os.path.join(d, name), TREE)
            if not rel.startswith("gen/") and rel not in want:
                os.unlink(os.path.join(d, name))


def write_ninja():
    out = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    variants = {"san": SAN, "tsan": "-fsanitize=thread -fwrapv -fsanitize-ignorelist=" + HARNESS + "/tsan.ignore", "plain": "-fwrapv",
                "fuzz": SAN + " -fsanitize=fuzzer-no-link"}
    for v, san in variants.items():
        out += ["rule cc_" + v,
                "  command = %s %s $extra -MMD -MF $out.d -c $in -o $out" % (CXX, base_flags(san)),
                "  depfile = $out.d", "  deps = gcc"]
        link = san + (" -fsanitize=fuzzer" if v == "fuzz" else "")
        out += ["rule ld_" + v, "  command = %s %s $in -o $out $libs" % (CXX, link)]
    out += ["rule ar", "  command = rm -f $out && ar rcs $out $in"]
    done = set()

    def obj(v, src, extra=""):
        path = src if src.startswith("/") else os.path.join(TREE, src)
        tag = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(path, VERIF) if "/harness/" in path
                     else src)
        if extra:
            tag += "_" + hashlib.sha1(extra.encode()).hexdigest()[:6]
        o = os.path.join(BUILD, "obj_" + v, tag + ".o")
        if o not in done:
            done.add(o)
            out.append("build %s: cc_%s %s" % (o, v, path))
            if extra:
                out.append("  extra = " + extra)
        return o

    # all of src, as an archive: a harness links what it needs of it, wherever it is defined
    for v in sorted({t.get("variant", "san") for t in TARGETS.values()}):
        objs = [obj(v, "src/" + n) for n in sorted(os.listdir(os.path.join(TREE, "src")))
                if n.endswith(".cc")]
        out.append("build %s/librepo_%s.a: ar %s" % (BUILD, v, " ".join(objs)))
    for name, t in TARGETS.items():
        v = t.get("variant", "san")
        extra = t.get("extra", "").replace("HARNESS", HARNESS).replace("TREE", TREE)
        objs = [obj(v, os.path.join(HARNESS, s), extra) for s in t["harness"]]
        objs += [obj(v, s, t.get("repo_extra", "").replace("HARNESS", HARNESS).replace("TREE", TREE)) for s in t.get("repo", [])]
        objs.append("%s/librepo_%s.a" % (BUILD, v))
        out.append("build %s: ld_%s %s" % (os.path.join(BUILD, "bin", name), v, " ".join(objs)))
        out.append("  libs = -lfmt -lpthread " + t.get("libs", ""))
    put(os.path.join(BUILD, "build.ninja"), ("\n".join(out) + "\n").encode())


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sync_tree()
        write_ninja()
        cmd = ["ninja", "-C", BUILD, "-j", str(CORES + 2)]
        r = subprocess.run(cmd + [os.path.join(BUILD, "bin", t) for t in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("the harness does not build against this tree")
            sys.exit(2)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1",
}


def run_job(job):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.pop("VERIF_REPO", None)
    for k in list(env):
        if k.startswith("DEBUG_"):
            del env[k]
    env.update(job.get("env", {}))
    r = subprocess.run(job["cmd"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       cwd=job["cwd"], text=True, errors="replace")
    res = None
    if r.returncode in (0, 1):
        try:
            with open(job["out"], errors="replace") as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
    return job, r.returncode, r.stdout, res


def load_findings():
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
                if m:
                    known.append(m.groups())
    return known


def run_check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    check = CHECKS[pid]
    start = time.time()
    build(sorted({p["target"] for p in check["props"]}))
    built = time.time()
    work = os.path.join(BUILD, "work", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    jobs = []
    for p in check["props"]:
        n, cases, seconds = p["quick" if tier == "quick" else "thorough"]
        for w in range(n):
            s = (seed * 1000003 + w * 7919 + 17) % (1 << 48)
            out = os.path.join(work, "%s.%d.json" % (p["prop"], w))
            cwd = os.path.join(work, "%s.%d" % (p["prop"], w))
            os.makedirs(cwd)
            jobs.append({
                "cmd": [os.path.join(BUILD, "bin", p["target"]), "--prop", p["prop"], "--seed",
                        str(s), "--cases", str(cases), "--seconds", str(seconds), "--out", out,
                        "--replay-dir", REPLAYS, "--scratch", cwd],
                "out": out, "cwd": cwd, "prop": p, "env": p.get("env", {})})
    results, failures, errors = [], [], []
    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        for job, rc, text, res in pool.map(run_job, jobs):
            if res is None:
                errors.append("%s: exit %d\n%s" % (" ".join(job["cmd"]), rc, text[-3000:]))
                continue
            results.append((job, res))
            if res["failure"]:
                failures.append((job, res))
    hashes = set()
    labels, samples, per_prop = {}, [], {}
    unreproduced = 0
    for job, res in results:
        name = res["prop"]
        hashes.update("%s:%d" % (name, h) for h in res["hashes"])
        d = per_prop.setdefault(name, {"cases": 0, "nontrivial": 0, "discarded": 0,
                                       "oracle_checks": 0, "labels": {}})
        d["cases"] += res["evaluations"]
        d["nontrivial"] += res["nontrivial"]
        d["discarded"] += res["discards"]
        d["oracle_checks"] += res["checks"]
        for k, v in res["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        unreproduced += res["unreproduced"]
        have = [s["prop"] for s in samples]
        for s in res["samples"]:
            if have.count(name) < 2:
                samples.append({"prop": name, "case": s[:1200]})
                have.append(name)
    total = sum(d["cases"] for d in per_prop.values())
    known = [k for k in load_findings() if k[0] == pid]
    real, known_hit = [], []
    for job, res in failures:
        hit = [k for k in known if k[1].split(":")[0] == res["prop"]
               and all(x in res["failure"] for x in k[1].split(":")[1:])]
        (known_hit if hit else real).append((job, res))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(hashes),
            "rule": check["rule"],
            "samples": samples or [{"prop": p["prop"], "case": "none"} for p in check["props"][:1]],
            "per_generator": per_prop,
            "unreproduced_failures": unreproduced,
            "build_s": round(built - start, 1),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(real),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if real:
        seen = set()
        for job, res in real:
            if res["prop"] in seen:
                continue
            seen.add(res["prop"])
            print("FAILED %s: %s" % (res["prop"], res["failure"][:1500]))
            print(res["failure_case"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, res["replay"]))
        sys.exit(1)
    if errors:
        print("\n".join(errors))
        sys.exit(2)
    print("%s held: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)%s" % (
        pid, total, len(hashes), time.time() - start, built - start,
        ", %d failures did not reproduce" % unreproduced if unreproduced else ""))
    for name, d in per_prop.items():
        print("  %s: %d cases, %d non-trivial, %d checks, labels %s" % (
            name, d["cases"], d["nontrivial"], d["oracle_checks"],
            json.dumps(d["labels"], sort_keys=True)[:900]))


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        sys.exit(2)
    if args[0] == "--build":
        ids = args[1:] or list(CHECKS)
        build(sorted({p["target"] for i in ids for p in CHECKS[i]["props"]}))
        return
    if args[0] == "--replay":
        with open(args[1]) as f:
            prop = re.search(r"^prop: (\S+)$", f.read(), re.M).group(1)
        for c in CHECKS.values():
            for p in c["props"]:
                if p["prop"] == prop:
                    build([p["target"]])
                    env = dict(os.environ)
                    env.update(SAN_ENV)
                    sys.exit(subprocess.run([os.path.join(BUILD, "bin", p["target"]), "--replay",
                                             os.path.abspath(args[1])], env=env).returncode)
        sys.exit("unknown property " + prop)
    run_check(args[0])


main()
