#!/usr/bin/env python3
"""check.py CNN quick|thorough -- decides one property by symbolic execution of the real code.

Regenerates the LLVM IR of the harness plus /repo's crates, has symx (our path-forking symbolic
executor, Z3 as the solver) decide every entry point, replays what it finds against the native build.
Exit 0 held, 1 violation (confirmed natively), 2 no verdict.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import lines, props  # noqa: E402

REPO = "/repo"
WORK = os.path.join(VERIF, "work")
CORES = 8
TRIPLE = "x86_64-unknown-linux-gnu"


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD")) or k in ("RUSTC_WRAPPER",):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    e.update(extra)
    return e


def run(cmd, cwd, timeout, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise NoVerdict("timeout: " + " ".join(cmd))


def cargo_errors(out):
    lines = out.splitlines()
    keep = [i for i, l in enumerate(lines) if l.startswith("error")]
    return "\n".join("\n".join(lines[i:i + 12]) for i in keep[:4])[:4000] or out[-2000:]


def build_symx():
    target = os.path.join(WORK, "symx")
    r = run(["cargo", "build", "--release", "--locked"], os.path.join(VERIF, "symx"), 600, env=env(CARGO_TARGET_DIR=target))
    if r.returncode:
        raise NoVerdict("symx does not build:\n" + cargo_errors(r.stderr))
    return os.path.join(target, "release", "symx")


class BuildFailed(Exception):
    pass


def features(p):
    return ",".join([p["feature"]] + p.get("optional", []))


def emit_ir(p, opt):
    """LLVM IR of harness + all dependencies (fat LTO input) at the given optimisation level."""
    crate = props.crate_dir(p)
    target = os.path.join(WORK, p["id"], f"ir{opt}")
    e = env(
        CARGO_TARGET_DIR=target, CARGO_PROFILE_RELEASE_OPT_LEVEL=str(opt), CARGO_PROFILE_RELEASE_DEBUG="line-tables-only",
        RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp -Crelocation-model=static --cap-lints=warn",
    )
    deps = os.path.join(target, TRIPLE, "release", "deps")
    name = p["crate"].replace("-", "_")
    r = run(["cargo", "rustc", "--release", "--locked", "--lib", "--crate-type", "staticlib", "--target", TRIPLE, "--features", "symx," + features(p), "--", "--emit=llvm-ir"], crate, 600, env=e)
    if r.returncode:
        raise BuildFailed(cargo_errors(r.stderr))
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(name) and f.endswith(".ll")]
    if not lls:
        raise NoVerdict("no IR emitted")
    return max(lls, key=os.path.getmtime)


def build_native(p):
    target = os.path.join(WORK, p["id"], "native")
    r = run(["cargo", "build", "--locked", "--bin", "replay", "--features", features(p)], props.crate_dir(p), 600, env=env(CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints=warn"))
    if r.returncode:
        raise BuildFailed(cargo_errors(r.stderr))
    return os.path.join(target, "debug", "replay")


def repo_builds():
    r = run(["cargo", "build", "--workspace", "--all-features", "--locked", "--offline"], REPO, 600, env=env(CARGO_TARGET_DIR=os.path.join(WORK, "repo")))
    return r.returncode == 0


def replay(binary, entry, path, timeout=30):
    """'held', 'violated', 'hang', 'na' (the assignment does not apply) or 'error'."""
    try:
        r = subprocess.run([binary, entry, path], timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "", ""
    tail = [l for l in r.stderr.splitlines() if l.strip() and "RUST_BACKTRACE" not in l][:3]
    kind = {0: "held", 3: "na", 4: "error"}.get(r.returncode, "violated" if r.returncode in (101, -6, 134, -11, 139, -4) else "error")
    return kind, " ".join(tail), r.stdout


def symx(binary, ll, entry, limit, threads):
    for _ in range(2):  # once more when the engine was killed before it could answer
        t = time.time()
        r = run([binary, ll, "--entry", entry, "--threads", str(threads), "--limit", str(limit)], VERIF, limit + 60)
        try:
            return json.loads(r.stdout)
        except ValueError:
            limit -= int(time.time() - t)
            if limit < 10:
                break
    return {"entry": entry, "status": "incomplete", "incomplete": ["engine failed: " + (r.stderr or r.stdout)[-400:]], "found": [], "samples": [], "reached": {}, "functions": [], "externals": [], "seconds": 0}


def known_findings(pid):
    """Findings recorded for the property: {(entry, what)}. 'fixed:' entries suppress nothing."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) entry=(\S+) input=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    p = props.get(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wdir = os.path.join(WORK, pid)
    os.makedirs(wdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results, violations, notes, unsure, apart = [], [], [], [], False
    validated = mismatches = 0
    budget = p.get("budget", 420) if tier == "quick" else p.get("thorough_budget", 840)
    try:
        props.prepare(p, WORK)
        with cf.ThreadPoolExecutor(4) as ex:
            fs, fi, fn = ex.submit(build_symx), ex.submit(emit_ir, p, p["opt"]), ex.submit(build_native, p)
            engine = fs.result()
            try:
                try:
                    ll, native = fi.result(), fn.result()
                except BuildFailed as e:
                    if not p.get("optional"):
                        raise
                    notes.append(f"without the optional modules {p['optional']}, which do not build: " + str(e)[:300])
                    p = dict(p, optional=[])
                    fi, fn = ex.submit(emit_ir, p, p["opt"]), ex.submit(build_native, p)
                    ll, native = fi.result(), fn.result()
            except BuildFailed as e:
                if p.get("corpus") and repo_builds():
                    v = props.bisect(p, WORK, str(e))
                    if v:
                        raise_violation(p, tier, seed, t0, v)
                raise NoVerdict("harness does not build against /repo:\n" + str(e))
        built = time.time() - t0
        names = run([engine, ll, "--entries"], VERIF, 120).stdout.split()
        want = sorted(n for n in names if n.startswith("q_") or (tier == "thorough" and n.startswith("t_")))
        if p.get("expect_entries") and len([n for n in want if n.startswith("q_")]) < p["expect_entries"]:
            raise NoVerdict("entry points are missing from the IR: " + str(want))
        if not want:
            raise NoVerdict("no entry points")
        log(f"{pid}: IR and native build ready after {built:.0f}s, {len(want)} entries")
        alt = {}

        def other():
            if "ll" not in alt:
                alt["opt"] = 1 if p["opt"] == 2 else 2
                alt["ll"] = irs[alt["opt"]] = emit_ir(p, alt["opt"])
            return alt["ll"]

        irs = {p["opt"]: ll}
        for i, entry in enumerate(want):
            inner = False
            left = max(10, budget - (time.time() - t0))
            first = max(10, min(left * 0.6, p.get("limit", 150) if tier == "quick" else 700))
            r = symx(engine, ll, entry, int(first), CORES)
            r["opt"] = p["opt"]
            if r["status"] == "incomplete" and not all("time limit" in x for x in r["incomplete"]):
                left = max(10, budget - (time.time() - t0))
                log(f"  {entry}: incomplete at opt {p['opt']} ({'; '.join(r['incomplete'][:2])}), retrying at the other level")
                r2 = symx(engine, other(), entry, int(max(10, left * 0.6)), CORES)
                r2["opt"] = alt["opt"]
                if r2["status"] != "incomplete" or len(r2["incomplete"]) == 1 and "time" in r2["incomplete"][0]:
                    r = r2
            results.append(r)
            log(f"  {entry}: {r['status']} paths={r.get('paths')} queries={r.get('queries')} solver={r.get('solver_seconds')}s {r['seconds']}s")
            samples = r["samples"]
            stride = max(1, len(samples) // 24)
            for k, s in enumerate(samples[(seed % stride if stride else 0)::stride][:24]):
                path = os.path.join(wdir, f"sample-{entry}-{k}.txt")
                with open(path, "w") as f:
                    f.write(" ".join(map(str, s)) + "\n")
                kind, msg, shown = replay(native, entry, path)
                if kind == "held":
                    validated += 1
                elif kind in ("violated", "hang"):
                    r["found"].append({"kind": "property", "what": "native run of a path model: " + msg, "stack": [], "input": s})
                else:
                    mismatches += 1
                    notes.append(f"{entry}: native replay of a path model answered {kind}: {msg}")
                os.unlink(path)
            for n, f in enumerate(r["found"]):
                path = os.path.join(wdir, f"replay-{entry}{'-%d' % n if n else ''}.txt")
                with open(path, "w") as o:
                    o.write(f"# property {pid}, entry {entry}: {f['kind']}: {f['what']}\n# at {' < '.join(f['stack'][:6])}\n")
                    o.write(f"# replay: cd {props.crate_dir(p)} && cargo run --features {features(p)} --bin replay -- {entry} <this file>\n")
                    o.write(" ".join(map(str, f["input"])) + "\n")
                kind, msg, shown = replay(native, entry, path)
                confirmed = kind == "violated" or (kind == "hang" and f["kind"] in ("hang", "property"))
                if not confirmed:
                    mismatches += 1
                    notes.append(f"{entry}: counterexample ({f['kind']}: {f['what']}) not reproduced natively ({kind})")
                    continue
                macro = props.confirm(p, WORK, shown) if p.get("confirm") and "string " in shown else True
                if macro is False:
                    notes.append(f"{entry}: the parser by itself does otherwise ({f['what']}), the compiled macro does as the property says; left to the entries that take the macro as a whole")
                    inner = apart = True
                    continue
                inp = ",".join(map(str, f["input"]))
                listed = [k for k in known_findings(pid) if k[0] == entry and k[1] == inp]
                if listed:
                    log(f"KNOWN-FINDING: property={pid} {listed[0][2]}")
                    continue
                v = {"entry": entry, "what": f["what"], "native": msg, "input": f["input"], "replay": path}
                if macro is None:
                    unsure.append(v)
                    inner = True
                else:
                    violations.append(v)
            if violations:
                break
            if inner and not r["reached"].get("1"):
                r["reached"]["1"] = 1
        if unsure and not violations:
            # What could not be tried on the compiled macro counts unless the macro was seen to make up for the parser.
            if apart:
                notes.append("the same may hold of: " + "; ".join(f"{v['entry']} {v['input']}" for v in unsure))
            else:
                violations = unsure
        extra = {}
        if tier == "thorough" and not violations and p.get("kani"):
            extra = kani(p, wdir, notes)
    except NoVerdict as e:
        log(f"NO VERDICT property={pid}: {e}")
        write_evidence(p, tier, seed, t0, results, validated, violations, [str(e)], {}, False)
        return 2
    bad = [r for r in results if r["status"] == "incomplete" and not r["found"]]
    timeouts = [r for r in bad if all("time limit" in x for x in r["incomplete"])]
    unsupported = [r for r in bad if r not in timeouts]
    empty = [r for r in results if r["status"] == "held" and not r["reached"].get("1")]
    write_evidence(p, tier, seed, t0, results, validated, violations, notes, extra, not bad and not empty and not mismatches, irs)
    for n in notes:
        log("note:", n)
    if violations:
        for v in violations:
            log(f"{v['entry']}: {v['what']} | native: {v['native']}")
            log(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    if mismatches or unsupported or empty:
        log(f"NO VERDICT property={pid}: " + "; ".join(notes + [f"{r['entry']}: {r['incomplete'][:2]}" for r in unsupported] + [f"{r['entry']}: no path reaches the end" for r in empty]))
        return 2
    for r in timeouts:
        log(f"note: {r['entry']}: time limit before every path was explored; held on the {r.get('paths')} explored")
    log(f"{pid}: held on everything explored ({time.time() - t0:.0f}s)")
    return 0


def raise_violation(p, tier, seed, t0, v):
    path = os.path.join(WORK, p["id"], "replay-build.txt")
    with open(path, "w") as f:
        f.write(v["text"])
    write_evidence(p, tier, seed, t0, [], 0, [{"entry": "build", "what": v["what"], "native": "", "input": [], "replay": path}], [], {}, False)
    log(v["what"])
    log(f"VIOLATION property={p['id']} replay={path}")
    sys.exit(1)


def kani(p, wdir, notes):
    """Second decider for the thorough tier: the same harnesses through Kani/CBMC."""
    out = os.path.join(wdir, "kani.json")
    if os.path.exists(out):
        os.unlink(out)
    e = env(CARGO_TARGET_DIR=os.path.join(wdir, "kani"))
    e.pop("RUSTUP_TOOLCHAIN")
    t = time.time()
    cmd = ["cargo", "kani", "--lib", "--features", features(p), "-j", str(CORES), "--output-format", "terse",
           "--no-assertion-reach-checks", "-Z", "unstable-options", "--no-memory-safety-checks", "--export-json", out]
    for h in p["kani"]:
        cmd += ["--harness", h]
    try:
        run(cmd, props.crate_dir(p), 1200, env=e)
        d = json.load(open(out))
        res = [{"harness": r["harness_id"], "status": r["status"], "ms": r["duration_ms"], "checks": len(r["checks"])} for r in d["verification_results"]["results"]]
        for r in res:
            if r["status"].lower() != "success":
                notes.append(f"kani disagrees on {r['harness']}: {r['status']} (symx decides; see DESIGN.md)")
        return {"kani_second_decider": {"harnesses": res, "seconds": round(time.time() - t, 1)}}
    except (NoVerdict, OSError, ValueError, KeyError) as x:
        return {"kani_second_decider": {"failed": str(x)[:300]}}


def encoded(p, irs, results):
    """Functions and lines of /repo that the instructions executed symbolically come from."""
    roots = [(REPO + "/", "")]
    if p["crate"] == "pm":
        roots.append((os.path.join(props.crate_dir(p), "src") + "/", "macros/src/"))
    found = {}
    for opt, ll in irs.items():
        if not os.path.exists(ll):
            continue
        ids = {n for r in results if r.get("opt") == opt for n in r.get("dbg", [])}
        for place, ls in (lines.sources(ll, ids, roots) if ids else {}).items():
            to = found.setdefault(place, {})
            for n, done in ls.items():
                to[n] = to.get(n, False) or done
    out = []
    for (file, name), ls in sorted(found.items()):
        if any(ls.values()) and "/verif.rs" not in file:
            out.append({"function": name, "file": file, "lines": sorted(n for n in ls if ls[n]), "lines_not_reached": sorted(n for n in ls if not ls[n])})
    return out


def write_evidence(p, tier, seed, t0, results, validated, violations, notes, extra, exhaustive, irs={}):
    fs = sorted({f for r in results for f in r["functions"]})
    try:
        ours = encoded(p, irs, results)
    except (OSError, ValueError, KeyError) as x:
        ours = []
        notes = notes + [f"line tables could not be read: {x}"]
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"entry": r["entry"], "path_model_bytes": s})
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": samples[:12] or ["none: the check ended before any path was completed"],
        "exhaustive": bool(exhaustive),
        "states_means": "completed feasible execution paths of the real code's LLVM IR, each standing for all inputs that satisfy its path condition",
        "transitions_means": "symbolic branches at which both sides were feasible and were explored",
        "bounds": p["bounds"],
        "outside_bounds": p["outside"],
        "entries": [{k: r.get(k) for k in ("entry", "status", "opt", "seconds", "paths", "assumed_away", "symbolic_bytes", "instructions", "forks", "queries", "sat", "unsat", "unknown", "solver_seconds", "branch_verdicts", "branch_verdicts_confirmed", "multi_byte_queries", "incomplete")} for r in results],
        "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "solver_seconds": round(tot("solver_seconds"), 3),
        "symbolic_instructions": tot("instructions"),
        "functions_encoded_total": len(fs),
        "functions_encoded_of_the_repository": ours,
        "functions_note": "functions_encoded_total counts the LLVM functions entered during symbolic execution; the repository's functions and lines are those its line tables give for the basic blocks that were executed, inlined ones included",
        "externals_modelled": sorted({x for r in results for x in r["externals"]}),
        "notes": notes,
    }
    cov.update(extra)
    ev = {
        "property": p["id"], "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": p["assumptions"] + props.TRUSTED, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violations_found"] = violations
    with open(os.path.join(VERIF, "evidence", p["id"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
