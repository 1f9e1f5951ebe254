#!/usr/bin/env python3
"""c22.py quick|thorough -- decides C22: every feature combination builds and behaves alike.

Every crate is compiled under every combination of its features, without the standard library where
`std` is not selected (against a sysroot that has only core and alloc). Then, for each of the 48
combinations of the facade crate, the harnesses that it supports are compiled to LLVM IR against the
crates with just those features and decided by symx, as the other properties are with all features.
Exit 0 held, 1 violation, 2 no verdict.
"""
import concurrent.futures as cf, itertools, json, os, queue, re, shutil, subprocess, sys, time

import check
import props

PID = "C22"
WORK = os.path.join(check.WORK, PID)
REPO = check.REPO
ADAPTORS = ("ansi", "html", "plain")
# The entries run in every combination that has them: the quick ones of each property.
ENTRIES = {
    "c01": ".*", "c02": "q_(single|wrapped|pair|triple|nested|slice|many)", "c03": "q_one|q_mixed_three|q_ops_two", "c04": "q_one", "c05": "q_long", "c06": "q_three",
    "c07": "q_split|q_plain|q_mixed", "c08": "q_text|q_stream|q_long", "c09": "q_two|q_three", "c10": "q_(?!ways).*", "c13": "q_again|q_pairs|q_rows", "c15": "q_direct|q_ref",
    "c16": "q_.*", "c17": "q_ansi|q_plain|q_string|q_ansi_formatted|q_html_formatted|q_plain_formatted", "c22": ".*",
}
TOML = """[package]
name = "rt"
version = "0.0.0"
edition = "2021"
publish = false
[workspace]
[lib]
name = "rt_{name}"
path = "{verif}/harness/ft/src/lib.rs"
[[bin]]
name = "replay_{name}"
path = "main.rs"
[features]
symx = []
roomy = []
no-box = []
has-ansi = []
has-html = []
has-plain = []
has-macros = []
has-alloc = []
has-std = []
default = [{has}"no-box"]
[dependencies]
stylish = {{ path = "{repo}", default-features = false, features = [{features}] }}
[lints.rust]
unexpected_cfgs = "allow"
[profile.dev]
debug = false
[profile.release]
panic = "abort"
opt-level = 2
lto = "fat"
codegen-units = 1
debug = false
overflow-checks = true
"""


def combos():
    for level, macros, n in itertools.product(("", "alloc", "std"), (False, True), range(8)):
        some = [a for k, a in enumerate(ADAPTORS) if n >> k & 1]
        yield [f for f in [level, "macros" if macros else "", *some] if f]


def crates():
    """(package, features): every combination for every crate."""
    for fs in combos():
        yield "stylish", fs
    for name in ("stylish-core", "stylish-ansi", "stylish-html", "stylish-plain"):
        for level, macros in itertools.product(("", "alloc", "std"), (False, True)):
            yield name, [f for f in (level, "macros" if macros else "") if f]
    for level in ("", "alloc", "std"):
        yield "stylish-style", [f for f in (level,) if f]
    yield "stylish-macros", ["std"]


def sysroot():
    """A sysroot for the target that has no std."""
    r = check.run(["rustc", "--print", "target-libdir", "--target", check.TRIPLE], check.VERIF, 60, env=check.env())
    src = r.stdout.strip()
    dst = os.path.join(WORK, "sysroot", "lib", "rustlib", check.TRIPLE, "lib")
    shutil.rmtree(os.path.join(WORK, "sysroot"), ignore_errors=True)
    os.makedirs(dst)
    for f in os.listdir(src):
        if re.match(r"lib(core|alloc|compiler_builtins)-", f):
            os.symlink(os.path.join(src, f), os.path.join(dst, f))
    return os.path.join(WORK, "sysroot")


def compile_crate(package, fs, slot, root):
    flags = "--cap-lints=warn" + ("" if "std" in fs else f" --sysroot={root}")
    cmd = ["cargo", "check", "--offline", "--locked", "--lib", "-p", package, "--target", check.TRIPLE]
    if package != "stylish-macros":
        cmd += ["--no-default-features", "--features", ",".join(fs)]
    r = check.run(cmd, REPO, 600, env=check.env(CARGO_TARGET_DIR=os.path.join(WORK, f"slot{slot}", "build"), RUSTFLAGS=flags))
    return None if r.returncode == 0 else check.cargo_errors(r.stderr)


class Combo:
    def __init__(self, fs):
        self.fs = fs
        self.name = "_".join(fs) or "none"
        self.full = False
        self.dir = os.path.join(WORK, "crates", self.name)
        has = [f for f in fs] + (["alloc"] if "std" in fs else [])
        props.put(os.path.join(self.dir, "Cargo.toml"), TOML.format(
            name=self.name, verif=check.VERIF, repo=REPO,
            has="".join(f'"has-{f}", ' for f in has), features=", ".join(f'"{f}"' for f in fs)))
        main = open(os.path.join(check.VERIF, "harness", "rt", "src", "main.rs")).read()
        props.put(os.path.join(self.dir, "main.rs"), main.replace("rt::", f"rt_{self.name}::"))
        lock = os.path.join(self.dir, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(check.VERIF, "harness", "rt", "Cargo.lock"), lock)

    def ir(self, slot):
        target = os.path.join(WORK, f"slot{slot}", "ir")
        extra = {"CARGO_PROFILE_RELEASE_DEBUG": "line-tables-only"} if self.full else {}
        e = check.env(CARGO_TARGET_DIR=target, **extra, RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp -Crelocation-model=static --cap-lints=warn")
        deps = os.path.join(target, check.TRIPLE, "release", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith(f"rt_{self.name}-") or f.startswith(f"librt_{self.name}-"):
                    os.unlink(os.path.join(deps, f))
        r = check.run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib", "--target", check.TRIPLE, "--features", "symx", "--", "--emit=llvm-ir"], self.dir, 600, env=e)
        if r.returncode:
            raise check.BuildFailed(check.cargo_errors(r.stderr))
        lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(f"rt_{self.name}-") and f.endswith(".ll")]
        if not lls:
            raise check.NoVerdict("no IR emitted")
        out = os.path.join(WORK, f"{self.name}.ll")
        os.replace(lls[0], out)
        return out

    def native(self, slot):
        target = os.path.join(WORK, f"slot{slot}", "native")
        r = check.run(["cargo", "build", "--offline", "--bin", f"replay_{self.name}"], self.dir, 600, env=check.env(CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints=warn"))
        if r.returncode:
            raise check.BuildFailed(check.cargo_errors(r.stderr))
        return os.path.join(target, "debug", f"replay_{self.name}")


def decide(combo, engine, slots, deadline, limit, validate):
    """All entries of one combination: (results, native program or None, build error or None)."""
    slot = slots.get()
    try:
        ll = combo.ir(slot)
        native = combo.native(slot) if validate else None
        names = check.run([engine, ll, "--entries"], check.VERIF, 120).stdout.split()
        want = []
        for n in sorted(names):
            module, entry = n.split("::")[-2:]
            if re.fullmatch(ENTRIES[module], entry):
                want.append(n)
        out = []
        for n in want:
            left = deadline - time.time()
            if left < 5:
                out.append({"entry": n, "status": "incomplete", "incomplete": ["time limit of the check"], "found": [], "samples": [], "reached": {}, "functions": [], "externals": [], "seconds": 0})
                continue
            r = check.symx(engine, ll, n, int(min(limit, left)), 1)
            if r["found"] and native is None:
                native = combo.native(slot)
            out.append(r)
        if not combo.full:
            os.unlink(ll)
        return combo, out, native, None
    except check.BuildFailed as e:
        return combo, [], None, str(e)
    finally:
        slots.put(slot)


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)
    p = props.get(PID)
    budget = 600 if tier == "quick" else 840
    results, violations, notes, built, validated, mismatches = [], [], [], [], 0, 0
    all_combos = [Combo(fs) for fs in combos()]
    all_combos[-1].full = True

    def report(what, detail, name):
        path = os.path.join(WORK, f"replay-{name}.txt")
        with open(path, "w") as f:
            f.write(detail)
        violations.append({"entry": name, "what": what, "native": "", "input": [], "replay": path})

    try:
        slots = queue.Queue()
        for k in range(8):
            slots.put(k)
        with cf.ThreadPoolExecutor(8) as ex:
            fengine = ex.submit(check.build_symx)
            root = sysroot()

            def one(job):
                package, fs = job
                slot = slots.get()
                try:
                    return package, fs, compile_crate(package, fs, slot, root)
                finally:
                    slots.put(slot)

            failed = []
            for package, fs, err in ex.map(one, list(crates())):
                built.append(f"{package}[{','.join(fs)}]")
                if err:
                    failed.append((package, fs, err))
            if failed and not check.repo_builds():
                raise check.NoVerdict("/repo does not build:\n" + failed[0][2])
            for package, fs, err in failed[:3]:
                report(f"{package} with features [{','.join(fs)}] does not compile{'' if 'std' in fs else ' without the standard library'}",
                       f"# cargo check -p {package} --no-default-features --features '{','.join(fs)}'"
                       f"{'' if 'std' in fs else ' (target sysroot without std)'}\n{err}\n", f"build-{package}-{'_'.join(fs) or 'none'}")
            engine = fengine.result()
            check.log(f"C22: {len(built)} crate and feature combinations compiled after {time.time() - t0:.0f}s, {len(failed)} failed")
            if not violations:
                jobs = [ex.submit(decide, c, engine, slots, t0 + budget, 60 if tier == "quick" else 200, tier != "quick" or k % 6 == seed % 6) for k, c in reversed(list(enumerate(all_combos)))]
                broken = []
                for j in cf.as_completed(jobs):
                    c, out, native, err = j.result()
                    if err:
                        broken.append((c, err))
                    for r in out:
                        r["opt"] = 2 if c.full else None
                        r["entry"] = f"{c.name}:{r['entry'].split('::', 1)[1]}"
                        results.append(r)
                        entry = r["entry"].split(":", 1)[1]
                        if native:
                            for k, s in enumerate(r["samples"][:3]):
                                path = os.path.join(WORK, f"sample-{c.name}.txt")
                                with open(path, "w") as f:
                                    f.write(" ".join(map(str, s)) + "\n")
                                kind, msg, _ = check.replay(native, entry, path)
                                os.unlink(path)
                                if kind == "held":
                                    validated += 1
                                elif kind in ("violated", "hang"):
                                    r["found"].append({"kind": "property", "what": "native run of a path model: " + msg, "stack": [], "input": s})
                                else:
                                    mismatches += 1
                                    notes.append(f"{r['entry']}: native replay of a path model answered {kind}: {msg}")
                        for f in r["found"][:1]:
                            path = os.path.join(WORK, f"replay-{c.name}-{entry.replace('::', '-')}.txt")
                            with open(path, "w") as o:
                                o.write(f"# property {PID}, features {c.fs}, entry {entry}: {f['kind']}: {f['what']}\n# at {' < '.join(f['stack'][:6])}\n")
                                o.write(f"# replay: cd {c.dir} && cargo run --offline --bin replay_{c.name} -- {entry} <this file>\n" + " ".join(map(str, f["input"])) + "\n")
                            kind, msg, _ = check.replay(native, entry, path)
                            if kind == "violated" or (kind == "hang" and f["kind"] in ("hang", "property")):
                                violations.append({"entry": r["entry"], "what": f["what"], "native": msg, "input": f["input"], "replay": path})
                            else:
                                mismatches += 1
                                notes.append(f"{r['entry']}: counterexample ({f['kind']}: {f['what']}) not reproduced natively ({kind})")
                full = all_combos[-1].name
                if broken and any(c.name == full for c, _ in broken):
                    raise check.NoVerdict("harness does not build against /repo:\n" + broken[0][1])
                for c, err in broken[:3]:
                    report(f"with features [{','.join(c.fs)}] items that need no other feature are missing or unusable", f"# cd {c.dir} && cargo check\n{err}\n", f"items-{c.name}")
        # What also fails with every feature on is not about features: the property it belongs to reports it.
        everywhere = {v["entry"].split(":", 1)[1] for v in violations if v["entry"].split(":")[0] == all_combos[-1].name}
        if everywhere:
            notes.append("violated with all features on as well, so not counted here: " + ", ".join(sorted(everywhere)))
            violations = [v for v in violations if v["entry"].split(":", 1)[-1] not in everywhere]
    except check.NoVerdict as e:
        check.log(f"NO VERDICT property={PID}: {e}")
        check.write_evidence(p, tier, seed, t0, results, validated, violations, [str(e)], {"configurations_compiled": len(built)}, False)
        return 2
    bad = [r for r in results if r["status"] == "incomplete" and not r["found"]]
    late = [r for r in bad if all("time limit" in x for x in r["incomplete"])]
    unsupported = [r for r in bad if r not in late]
    empty = [r for r in results if r["status"] == "held" and not r["reached"].get("1")]
    for r in late:
        notes.append(f"{r['entry']}: time limit before every path was explored; held on the {r.get('paths')} explored")
    check.write_evidence(p, tier, seed, t0, results, validated, violations, notes, {
        "configurations_compiled": len(built), "configurations_compiled_list": built,
        "configurations_executed": len({r["entry"].split(":")[0] for r in results}),
        "functions_encoded_are_those_of": "the combination of all features",
    }, not bad and not empty and not mismatches, {2: os.path.join(WORK, f"{all_combos[-1].name}.ll")})
    for n in notes[:20]:
        check.log("note:", n)
    if violations:
        for v in violations[:3]:
            check.log(f"{v['entry']}: {v['what']} | native: {v['native']}")
            check.log(f"VIOLATION property={PID} replay={v['replay']}")
        return 1
    if mismatches or unsupported or empty:
        check.log(f"NO VERDICT property={PID}: " + "; ".join(notes[:5] + [f"{r['entry']}: {r['incomplete'][:2]}" for r in unsupported[:5]] + [f"{r['entry']}: no path reaches the end" for r in empty[:5]]))
        return 2
    check.log(f"C22: held on everything explored: {len(built)} builds, {len(results)} entries in {len({r['entry'].split(':')[0] for r in results})} combinations ({time.time() - t0:.0f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
