#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

  check.py C01 [--tier quick|thorough]     run the property's harnesses
  check.py --replay FILE                   rerun one recorded counterexample
  check.py --setup                         build everything once

Exit status: 0 held on everything explored, 1 violated (VIOLATION line),
2 the check itself could not answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, os.path.join(HERE, "bin"))
import registry  # noqa: E402

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock", ".c")) or f in ("rust-toolchain", "config"):
                    files.append(os.path.join(d, f))
        for f in sorted(files):
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fh:
                b = fh.read()
            h.update(str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()[:20]


def build_engine():
    src = os.path.join(HERE, "symex")
    tgt = os.path.join(BUILD, "symex-" + tree_hash([src]))
    exe = os.path.join(tgt, "release", "symex")
    if not os.path.exists(exe):
        rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt], cwd=src)
        if rc != 0:
            raise Broken("engine build failed:\n" + out[-3000:])
    return exe


def cli_target():
    """-> (path of the source of the at-asm program, manifest of its package)"""
    man = os.path.join(REPO, "at-asm", "Cargo.toml")
    p = subprocess.run(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path", man],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    if p.returncode == 0:
        for k in json.loads(p.stdout)["packages"]:
            if k["name"] == "at-asm":
                bins = [t for t in k["targets"] if "bin" in t["kind"]]
                bins.sort(key=lambda t: t["name"] != "at-asm")
                if bins:
                    return bins[0]["src_path"], k
    raise Broken("no program target in " + man)


def build_cli_crate(crate):
    """A crate beside the harness holding the tool's source: as the program it is, and as a
    library whose `main` the symbolic executor can call."""
    src, pkg = cli_target()
    d = os.path.join(crate, "cli")
    base = os.path.dirname(src)
    shutil.copytree(base, os.path.join(d, "src"))
    text = open(src).read()
    lib = os.path.join(d, "src", "verif_lib_root.rs")
    with open(lib, "w") as fh:
        fh.write(text + """
pub fn verif_cli_main() -> i32 {
    if std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS { 0 } else { 1 }
}
""")
    deps = ""
    for x in pkg["dependencies"]:
        if x["kind"] is None:
            where = 'path = "%s"' % x["path"] if x.get("path") else 'version = "%s"' % x["req"]
            deps += '%s = { package = "%s", %s, default-features = %s, features = %s }\n' % (
                x.get("rename") or x["name"], x["name"], where, "true" if x["uses_default_features"] else "false", json.dumps(x["features"]))
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write("""[package]
name = "at-asm-cli"
version = "%s"
edition = "%s"
autobins = false

[lib]
path = "src/verif_lib_root.rs"

[[bin]]
name = "at-asm-program"
path = "src/%s"

[dependencies]
at-asm = { path = "%s" }
%s""" % (pkg["version"], pkg["edition"], os.path.basename(src), os.path.join(REPO, "at-asm"), deps))


def build_harness():
    """-> (dir with harness.ll, replay-dev, replay-release), rebuilt whenever any source changed"""
    src = os.path.join(HERE, "harness")
    key = tree_hash([REPO, src])
    out = os.path.join(BUILD, "t-" + key)
    done = os.path.join(out, "done")
    if os.path.exists(done):
        os.utime(out)
        return out
    shutil.rmtree(out, ignore_errors=True)
    # a private copy of the harness crate: path dependencies on REPO, its lock file
    crate = os.path.join(out, "crate")
    shutil.copytree(src, crate, ignore=shutil.ignore_patterns("target", "Cargo.lock", ".gitignore"))
    man = os.path.join(crate, "Cargo.toml")
    t = open(man).read().replace('"/repo/', '"%s/' % REPO)
    open(man, "w").write(t)
    build_cli_crate(crate)
    if os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    jobs = {
        "ir": ["cargo", "rustc", "--offline", "--profile", "sym", "--features", "cli", "--lib", "--crate-type", "cdylib", "--target-dir", os.path.join(out, "sym"),
               "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        "dev": ["cargo", "build", "--offline", "-p", "harness", "-p", "at-asm-cli", "--features", "harness/cli", "--bins", "--target-dir", os.path.join(out, "dev")],
        "release": ["cargo", "build", "--offline", "--release", "-p", "harness", "-p", "at-asm-cli", "--features", "harness/cli", "--bins", "--target-dir", os.path.join(out, "release")],
    }
    ENV["VERIF_REPO"] = REPO
    with cf.ThreadPoolExecutor(3) as ex:
        res = {k: ex.submit(sh, v, crate) for k, v in jobs.items()}
        for k, f in res.items():
            rc, o = f.result()
            if rc != 0:
                i = o.find("\nerror")
                raise Broken("harness build (%s) failed:\n%s" % (k, o[i:i + 4000] if i >= 0 else o[-4000:]))
    rc, o = sh(["cc", "-O1", "-shared", "-fPIC", "-o", os.path.join(out, "dev", "debug", "faults.so"), os.path.join(src, "faults.c"), "-ldl"])
    if rc != 0:
        raise Broken("fault library build failed:\n" + o[-2000:])
    lls = [os.path.join(out, "sym", "sym", "deps", f) for f in os.listdir(os.path.join(out, "sym", "sym", "deps")) if f.startswith("harness") and f.endswith(".ll")]
    if len(lls) != 1:
        raise Broken("expected one IR file, found %r" % lls)
    shutil.copy(lls[0], os.path.join(out, "harness.ll"))
    shutil.copy(os.path.join(out, "dev", "debug", "replay"), os.path.join(out, "replay-dev"))
    shutil.copy(os.path.join(out, "release", "release", "replay"), os.path.join(out, "replay-release"))
    shutil.copy(os.path.join(out, "dev", "debug", "at-asm-program"), os.path.join(out, "at-asm-dev"))
    shutil.copy(os.path.join(out, "release", "release", "at-asm-program"), os.path.join(out, "at-asm-release"))
    shutil.copy(os.path.join(out, "dev", "debug", "faults.so"), os.path.join(out, "faults.so"))
    for d in ("sym", "dev", "release"):
        shutil.rmtree(os.path.join(out, d), ignore_errors=True)
    if tree_hash([REPO, src]) != key:
        raise Broken("the sources changed during the build")
    open(done, "w").write("ok\n")
    # forget old trees
    olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")), key=os.path.getmtime)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    return out


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_engine()
        out = build_harness()
    return exe, out


def run_symex(exe, bdir, h, tier, seed, shard, tmo, extra):
    o = os.path.join(bdir, "out-%d-%s-%s.json" % (os.getpid(), h, shard.replace("/", "of")))
    cmd = [exe, "--ir", os.path.join(bdir, "harness.ll"), "--entry", h, "--repo", REPO, "--timeout", str(tmo), "--seed", str(seed),
           "--tier", "1" if tier == "thorough" else "0", "--shard", shard, "--out", o] + extra
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo + 60, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return {"entry": h, "shard": shard, "error": "engine exceeded its time limit"}
    if p.returncode != 0 or not os.path.exists(o):
        return {"entry": h, "shard": shard, "error": "engine failed (%s): %s" % (p.returncode, p.stdout[-500:])}
    r = json.load(open(o))
    os.unlink(o)
    r["shard"] = shard
    return r


def replay(bdir, profile, h, vals, tier):
    """-> dict(end, obs, policy)"""
    f = os.path.join(bdir, "vals-%d-%x" % (os.getpid(), abs(hash((profile, h, tuple(vals))))))
    with open(f, "w") as fh:
        fh.write("".join("%d\n" % v for v in vals))
    try:
        p = subprocess.run([os.path.join(bdir, "replay-" + profile), h, f, "1" if tier == "thorough" else "0"], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=20, cwd=bdir)
        rc, out, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out, err = "timeout", "", ""
    finally:
        os.unlink(f)
    r = {"obs": [], "exit_policy": 0, "panic_policy": 0, "stderr": err[-400:], "rc": rc}
    res = None
    for ln in out.splitlines():
        w = ln.split(" ", 1)
        if w[0] == "OBS":
            r["obs"].append(int(w[1]))
        elif w[0] == "POLICY":
            k, v = w[1].split()
            r[k + "_policy"] = int(v)
        elif w[0] == "RESULT":
            res = w[1]
    if res is None:
        r["end"] = "exit %s" % rc
        if isinstance(rc, int) and rc < 0:
            r["end"] = "signal %d" % -rc
    else:
        r["end"] = res
    return r


def native_violates(r):
    """does this native run violate the property? -> description or None"""
    e = r["end"]
    if e.startswith("prop "):
        return e[5:]
    if e.startswith("panic"):
        return None if r["panic_policy"] else e
    if e.startswith("signal") or e.startswith("exit timeout"):
        return "killed: " + e
    if e.startswith("exit"):
        if r["exit_policy"] == 0:
            return "input rejected (%s) where it must be accepted: %s" % (e, r["stderr"].strip())
        if e == "exit 0":
            return "process exits with status 0 without producing output"
        if not r["stderr"].strip():
            return "process exits without any diagnostic"
    return None


def needs_fmt(r, bdir, h, tier):
    """did the run with formatting skipped go wrong in a way the real build does not?"""
    if "error" in r:
        return True
    for v in r["violations"][:3]:
        if not any(native_violates(replay(bdir, p, h, v["inputs"], tier)) for p in ("dev", "release")):
            return True
    for w in r["witnesses"]:
        n = replay(bdir, "dev", h, w["inputs"], tier)
        if n["end"].split(" ")[0] != w["end"].split(" ")[0] or n["obs"] != w["obs"]:
            return True
    return any(k.startswith("unsupported") for k in r["incomplete"])


def known_findings(prop):
    """lines: `known: property=C24 harness=asm_x :: <substring of the description> :: <text>`"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                head, pat, text = [x.strip() for x in ln.split("::", 2)]
                hn = head.split("harness=")[1].split()[0]
                out.append((hn, pat, text))
    return out


def cross_check(dumps, lim):
    """the same queries to two other solvers"""
    agree, other = 0, 0
    bad = []
    # a query the first solver already simplified away while it was asserted prints as an empty
    # problem: there is nothing left to ask anybody else
    todo = [d for d in dumps if "(assert" in d["smt2"]][:lim]

    def one(d):
        q = d["smt2"]
        if "(check-sat)" not in q:
            q += "\n(check-sat)\n"
        rs = []
        for cmd in (["cvc5", "--lang=smt2", "--tlimit=20000"], ["z3-new", "-in", "-T:20"]):
            try:
                p = subprocess.run(cmd, input=q, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40)
                rs.append(p.stdout.split("\n")[0].strip())
            except (subprocess.TimeoutExpired, FileNotFoundError):
                rs.append("unknown")
        return d["result"].lower(), rs

    with cf.ThreadPoolExecutor(8) as ex:
        for want, rs in ex.map(one, todo):
            for x in rs:
                if x == want:
                    agree += 1
                elif x in ("sat", "unsat") and want in ("sat", "unsat"):
                    bad.append((want, x))
                else:
                    other += 1
    return agree, other, bad


def check(prop, tier, seed):
    spec = registry.PROPS[prop]
    exe, bdir = prepare()
    tb = time.time() - T0
    ncpu = min(8, os.cpu_count() or 4)
    budget = spec.get("budget", {}).get(tier, 400 if tier == "quick" else 720)
    tasks = []
    lazy = {h["name"] for h in spec["harnesses"] if h.get("lazy_fmt")}
    for h in spec["harnesses"]:
        if h.get("tier") == "thorough" and tier != "thorough":
            continue
        n = h.get("shards", {}).get(tier, 1) if isinstance(h.get("shards"), dict) else h.get("shards", 1)
        for i in range(n):
            tasks.append((h["name"], "%d/%d" % (i, n)))
    extra = ["--witnesses", str(spec.get("witnesses", 24)), "--dump-props", "40" if tier == "thorough" else "4"]
    if os.environ.get("SYMEX_EXTRA"):
        extra += os.environ["SYMEX_EXTRA"].split()
    start = time.time()
    res = []
    deadline = start + budget

    def task(h, shard):
        # what is left of the property's budget when the task starts
        x = extra + ([] if h in lazy else ["--fmt"])
        r = run_symex(exe, bdir, h, tier, seed, shard, max(10.0, deadline - time.time()), x)
        if h in lazy and needs_fmt(r, bdir, h, tier):
            # formatted text was skipped, yet something depended on it: once more, interpreting it
            deadline2 = max(deadline, start + budget + 200)
            r = run_symex(exe, bdir, h, tier, seed, shard, max(10.0, deadline2 - time.time()), extra + ["--fmt"])
        return r

    with cf.ThreadPoolExecutor(ncpu) as ex:
        futs = [ex.submit(task, h, s) for h, s in tasks]
        for f in futs:
            res.append(f.result())
    errs = [r for r in res if "error" in r]
    res = [r for r in res if "error" not in r]

    # --- counterexamples: replay natively before believing any
    confirmed, unconfirmed, known_hits = [], [], []
    kf = known_findings(prop)
    cands = [(r, v) for r in res for v in r["violations"]]
    # a few per message and harness
    seen = {}
    todo = []
    for r, v in cands:
        k = (r["entry"], v["msg"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= (24 if kf else 4):
            todo.append((r, v))
    for r, v in todo:
        nat = {}
        desc = None
        for prof in ("dev", "release"):
            nat[prof] = replay(bdir, prof, r["entry"], v["inputs"], tier)
            d = native_violates(nat[prof])
            if d and not desc:
                desc = "%s [%s build]" % (d, prof)
        rec = {"property": prop, "harness": r["entry"], "tier": tier, "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"],
               "native": nat, "description": desc, "repo": REPO}
        if desc is None:
            unconfirmed.append(rec)
        else:
            hit = [t for hn, pat, t in kf if hn in (r["entry"], "*") and pat in desc]
            (known_hits if hit else confirmed).append((rec, hit))
    # --- witnesses: the encoding must agree with the real build
    nval, bad_w = 0, []
    jobs = []
    for r in res:
        for w in r["witnesses"]:
            jobs.append((r["entry"], w))
    lim = 160 if tier == "quick" else 600
    if len(jobs) > lim:
        step = len(jobs) / lim
        jobs = [jobs[int(i * step)] for i in range(lim)]

    def val(j):
        h, w = j
        n = replay(bdir, "dev", h, w["inputs"], tier)
        e1, e2 = w["end"], n["end"]
        ok = (e1.split(" ")[0] == e2.split(" ")[0]) and (not e1.startswith("exit") or e1 == e2) and w["obs"] == n["obs"]
        return ok, h, w, n

    with cf.ThreadPoolExecutor(ncpu) as ex:
        for ok, h, w, n in ex.map(val, jobs):
            if ok:
                nval += 1
            else:
                bad_w.append((h, w["inputs"], w["end"], n["end"], w["obs"][:8], n["obs"][:8]))

    dumps = [d for r in res for d in r["dumps"]]
    xc = cross_check(dumps, 60 if tier == "thorough" else 0)

    # --- vacuity
    missing = []
    if not confirmed:
        for h in spec["harnesses"]:
            if h.get("tier") == "thorough" and tier != "thorough":
                continue
            got = set()
            for r in res:
                if r["entry"] == h["name"]:
                    got |= {int(k) for k in r["reach"]}
            need = set(h.get("reach", [1]))
            if need - got:
                missing.append("%s: %s" % (h["name"], sorted(need - got)))
            elif not any(v for r in res if r["entry"] == h["name"] for k, v in r["ends"].items() if k not in ("assume-false", "other-shard", "unsupported")):
                missing.append("%s: the end of any path" % h["name"])
    incomplete = {}
    for r in res:
        for k, v in r["incomplete"].items():
            if k.startswith("further counterexamples") or k.startswith("stopped at violation"):
                continue
            incomplete[r["entry"] + ": " + k] = incomplete.get(r["entry"] + ": " + k, 0) + v

    S = lambda k: sum(r[k] for r in res)
    fns = {}
    for r in res:
        for k, v in r["repo_functions"].items():
            fns.setdefault(k, set()).update(v)
    samples = []
    for r in res:
        for w in r["witnesses"][:2]:
            if len(samples) < 24:
                samples.append({"harness": r["entry"], "inputs": w["inputs"][:40], "end": w["end"], "observed": w["obs"][:24]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"),
            "transitions": S("instructions"),
            "traces_validated_against_impl": nval,
            "samples": samples,
            "exhaustive": not incomplete and not errs,
            "bounds": [{"harness": h["name"], "bound": h["bound"]} for h in spec["harnesses"] if not (h.get("tier") == "thorough" and tier != "thorough")],
            "states_meaning": "symbolic paths: each stands for every input satisfying its path condition",
            "transitions_meaning": "LLVM-IR instructions executed symbolically",
            "paths_by_end": {},
            "forks": S("forks"),
            "symbolic_branches": S("branches_symbolic"),
            "branches_decided_by_exact_byte_domain": S("decided_by_byte_domain"),
            "branches_decided_by_path_model": S("decided_by_model"),
            "solver_queries": S("solver_queries"), "solver_cache_hits": S("query_cache_hits"),
            "solver_seconds": round(S("solver_seconds"), 3), "solver_unknown": S("solver_unknown"),
            "assertions_evaluated": S("props"), "assertions_valid_by_simplification": S("props_folded"),
            "assertions_unsat": S("props_unsat"), "assertions_sat": S("props_sat"), "assertions_unknown": S("props_unknown"),
            "functions_encoded": {k: len(v) for k, v in sorted(fns.items())},
            "functions_encoded_meaning": "functions of /repo with the number of distinct source lines executed symbolically",
            "incomplete": incomplete,
            "engine_errors": [e["entry"] + ": " + e["error"] for e in errs],
            "witness_mismatches": len(bad_w),
            "cross_checked_queries": {"agreeing_answers": xc[0], "other_solver_unknown": xc[1], "disagreeing": len(xc[2])},
            "solver": (res[0]["z3"] if res else ""),
            "build_seconds": round(tb, 2), "explore_seconds": round(time.time() - start, 2),
            "cpu_seconds_symbolic": round(S("wall_seconds"), 2),
        },
        "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(confirmed),
    }
    for r in res:
        for k, v in r["ends"].items():
            ev["coverage"]["paths_by_end"][k] = ev["coverage"]["paths_by_end"].get(k, 0) + v
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")

    log("%s %s: %d paths, %d IR instructions, %d assertions (%d simplified, %d unsat, %d sat), %d solver queries %.1fs, %d traces replayed, build %.1fs, total %.1fs" % (
        prop, tier, S("paths"), S("instructions"), S("props"), S("props_folded"), S("props_unsat"), S("props_sat"), S("solver_queries"), S("solver_seconds"),
        nval, tb, time.time() - T0))
    for k, v in sorted(incomplete.items()):
        log("INCOMPLETE property=%s %s (%d)" % (prop, k, v))
    for rec, hit in known_hits:
        pass
    for t in sorted({t for _, hit in known_hits for t in hit}):
        log("KNOWN-FINDING: property=%s %s" % (prop, t))
    if confirmed:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        shown = set()
        n = 0
        for rec, _ in confirmed:
            key = (rec["harness"], rec["description"].split(" [")[0][:60])
            if key in shown:
                continue
            shown.add(key)
            n += 1
            if n > 8:
                break
            p = os.path.join(d, "%s-%s-%d.json" % (prop, rec["harness"], n))
            with open(p, "w") as fh:
                json.dump(rec, fh, indent=1)
            log("  %s: %s  inputs=%s" % (rec["harness"], rec["description"], rec["inputs"][:40]))
            log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if unconfirmed:
        for rec in unconfirmed[:5]:
            log("ERROR counterexample does not reproduce natively: %s %s inputs=%s dev=%s release=%s" % (
                rec["harness"], rec["msg"], rec["inputs"][:40], rec["native"]["dev"]["end"], rec["native"]["release"]["end"]))
        return 2
    if bad_w:
        for b in bad_w[:5]:
            log("ERROR encoding and real build disagree: %r" % (b,))
        return 2
    if xc[2]:
        log("ERROR solvers disagree: %r" % xc[2][:5])
        return 2
    if errs:
        for e in errs:
            log("ERROR %s: %s" % (e["entry"], e["error"]))
        return 2
    if missing:
        for m in missing:
            log("ERROR vacuous: never reached in " + m)
        return 2
    log("HELD property=%s on everything explored%s" % (prop, "" if not incomplete else " (exploration incomplete, see above)"))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            exe, out = prepare()
            log("engine %s\nharness %s" % (exe, out))
            return 0
        if a and a[0] == "--replay":
            rec = json.load(open(a[1]))
            _, bdir = prepare()
            rc = 0
            for prof in ("dev", "release"):
                r = replay(bdir, prof, rec["harness"], rec["inputs"], rec["tier"])
                d = native_violates(r)
                log("%s: end=%s violates=%s stderr=%s" % (prof, r["end"], d, r["stderr"].strip()))
                rc = rc or (1 if d else 0)
            return rc
        prop = a[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(prop, tier, seed)
    except Broken as e:
        log("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
