"""What each check runs: harness crate, feature, preferred optimisation level, bounds, assumptions."""
import json
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "rustc's lowering of the real code to LLVM IR (the IR at the stated opt level is what is executed; every counterexample and a sample of path models is replayed against a natively compiled debug build)",
    "symx, our executor of LLVM IR (memory model: disjoint objects, byte-addressed; panics, unreachable, out-of-bounds access and stack overflow are violations; unsupported constructs make the check give no verdict)",
    "Z3 4.8 decides branch feasibility; branch conditions over one byte are evaluated for all 256 values and every infeasible side is confirmed by Z3 once per distinct condition",
    "the reference models in /verif/harness (terminal emulator, HTML reader, grammar, ...), written independently of /repo",
    "heap allocation never fails",
]


REPO = "/repo"
WORK = os.path.join(VERIF, "work")


def crate_dir(p):
    if p["crate"] == "pm":
        return os.path.join(WORK, p["id"], "crate")
    return os.path.join(VERIF, "harness", p["crate"])


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def prepare(p, work):
    """Writes the crate `pm`: /repo/macros/src as it is now, as a plain library, plus the harness modules."""
    if p["crate"] != "pm":
        return
    src, dst = os.path.join(VERIF, "harness", "pm"), crate_dir(p)
    keep = {os.path.join(dst, f) for f in ("Cargo.toml", "Cargo.lock", "src/verif.rs", "src/bin/replay.rs")}
    sub = lambda t: t.replace("@REPO@", REPO).replace("@VERIF@", VERIF)
    put(os.path.join(dst, "Cargo.toml"), sub(open(os.path.join(src, "Cargo.toml.in")).read()))
    put(os.path.join(dst, "Cargo.lock"), open(os.path.join(src, "Cargo.lock")).read())
    put(os.path.join(dst, "src/verif.rs"), sub(open(os.path.join(src, "src/verif.rs")).read()))
    put(os.path.join(dst, "src/bin/replay.rs"), open(os.path.join(src, "src/replay.rs")).read())
    real = os.path.join(REPO, "macros", "src")
    for base, _, files in os.walk(real):
        for f in files:
            path = os.path.join(base, f)
            to = os.path.join(dst, "src", os.path.relpath(path, real))
            text = open(path).read()
            text = re.sub(r"(?m)^(\s*)#\[proc_macro\]", r"\1", text)
            text = re.sub(r"\bproc_macro::", "proc_macro2::", text)
            text = re.sub(r"\b(?:syn::)?parse_macro_input!\(\s*(\w+)\s+as\s+([\w:<>]+)\s*\)", r"::syn::parse2::<\2>(\1).unwrap()", text)
            if path == os.path.join(real, "lib.rs"):
                text += "\npub mod verif;\n"
            put(to, text)
            keep.add(to)
    for base, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            if os.path.join(base, f) not in keep:
                os.unlink(os.path.join(base, f))


def bisect(p, work, err):
    """A corpus that does not compile although /repo does: are single rows of it rejected?

    Rows the compiler complains about are taken out; when the rest then builds, those rows are valid
    invocations that no longer compile, which is a violation (the rows are the replay).
    """
    src = os.path.join(VERIF, "harness", "rt", "src")
    scratch = os.path.join(work, p["id"], "bisect")
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness", "rt"), scratch, ignore=shutil.ignore_patterns("target"))
    feature = p["feature"]
    name = feature + "_programs.rs"
    prog = os.path.join(scratch, "src", name)
    total = sum(1 for l in open(prog) if l.startswith("    "))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, p["id"], "native"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="--cap-lints=warn")
    removed = {}
    for _ in range(6):
        r = subprocess.run(["cargo", "build", "--locked", "--bin", "replay", "--features", feature, "--message-format=json"], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if r.returncode == 0:
            break
        lines, other = {}, []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or not m["message"]["spans"]:
                continue
            at = set()
            todo = list(m["message"]["spans"])
            while todo:
                s = todo.pop()
                if s["file_name"].endswith(name):
                    at.add(s["line_start"])
                if s.get("expansion"):
                    todo.append(s["expansion"]["span"])
            for k in at:
                lines[k] = m["message"]["rendered"]
            if not at:
                other.append(m["message"]["rendered"])
        text = open(prog).read().splitlines(True)
        hit = [k for k in lines if text[k - 1].startswith("    ")]
        if not hit:
            return None
        for k in hit:
            removed[text[k - 1]] = lines[k]
            text[k - 1] = "\n"
        open(prog, "w").write("".join(text))
    else:
        return None
    shutil.rmtree(scratch, ignore_errors=True)
    if not removed or len(removed) > total * 0.9:
        return None
    first = next(iter(removed))
    return {
        "what": f"{len(removed)} of {total} valid format strings no longer compile (the others do), e.g. {first.strip()}",
        "text": "".join(f"{row}{why}\n" for row, why in removed.items()),
    }


CONFIRM = """
use stylish::{Color, Intensity, Style, Write as _};
struct P(u32);
fn tell(p: &P, t: &str, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    let s = format!("<{}{}{:?}{}{}{}{}{:?}{:?}", p.0, t, f.align().map(|a| match a { core::fmt::Alignment::Left => 1, core::fmt::Alignment::Center => 2, _ => 3 }), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad(), f.width(), f.precision());
    f.write_str(&s)?;
    core::fmt::Debug::fmt(&171u8, f)?;
    f.write_str(">")
}
macro_rules! all { ($($t:ident)*) => { $(impl core::fmt::$t for P { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { tell(self, stringify!($t), f) } })* } }
all! { Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp }
impl stylish::Display for P { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { f.write_fmt(stylish::format_args!("<{}stylish>", self.0)) } }
#[derive(Default)]
struct Rec(Vec<(char, Style)>);
impl stylish::Write for Rec { fn write_str(&mut self, s: &str, style: Style) -> stylish::Result { self.0.extend(s.chars().map(|c| (c, style))); Ok(()) } }
fn put(r: &mut Rec, s: &str, style: Style) { r.0.extend(s.chars().map(|c| (c, style))) }
fn main() {
    let mut got = Rec::default();
    let mut want = Rec::default();
    let _ = (Color::Red, Intensity::Bold);
@BODY@
    if got.0 != want.0 { std::process::exit(1); }
}
"""
COLORS = "Black Red Green Yellow Blue Magenta Cyan White BrightBlack BrightRed BrightGreen BrightYellow BrightBlue BrightMagenta BrightCyan BrightWhite Default".split()
KEYWORDS = set("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while abstract become box do final gen macro override priv try typeof unsized virtual yield got want main put tell all P Rec Color Intensity Style".split())


def confirm(p, work, shown):
    """Whether the compiled macro, too, treats the string otherwise than the grammar says: True, False, or
    None when that cannot be found out this way (huge counts or argument numbers, keywords as names)."""
    text, want, got = None, [], []
    for l in shown.splitlines():
        if l.startswith("string "):
            text = bytes.fromhex(l[7:]).decode("utf8")
        elif l.startswith("want "):
            want.append(l[5:])
        elif l.startswith("got "):
            got.append(l[4:])
    if text is None:
        return None
    names, positional, used, nxt = {}, 0, set(), 0
    for items in ([w.rsplit("| ", 1)[-1] for w in want if w.startswith("arg")], got):
        nxt = 0
        for r in items:
            if r == "next":
                used.add(nxt) if items is not got or want == ["rejected"] else None
                nxt += 1
            elif r.startswith("at "):
                n = int(r[3:])
                if n > 40:
                    return None
                used.add(n) if items is not got or want == ["rejected"] else None
                positional = max(positional, n + 1)
            elif r.startswith("name "):
                if r[5:] in KEYWORDS:
                    return None
                names.setdefault(r[5:], 100 + len(names))
        positional = max(positional, nxt)
    style = lambda f, b, i: "{ " + "".join(x for x in ("let mut s = Style::default(); ", f"s.foreground = Color::{COLORS[f]}; " if f >= 0 else "", f"s.background = Color::{COLORS[b]}; " if b >= 0 else "", f"s.intensity = Intensity::{['Normal', 'Bold', 'Faint'][i]}; " if i >= 0 else "")) + "s }"
    body, nxt, run = [], 0, bytearray()
    quote = lambda t: '"' + "".join(c if c.isalnum() and ord(c) < 128 else "\\u{%x}" % ord(c) for c in t) + '"'

    def flush():
        if run:
            body.append(f"    put(&mut want, {quote(run.decode('utf8'))}, Style::default());")
            run.clear()

    for w in want:
        if w.startswith("text "):
            run.append(int(w[5:]))
        elif w.startswith("arg "):
            flush()
            _, spec, f, b, i, r = w.split("|", 5)
            if any(int(x) > 65535 for x in re.findall(r"\d+", spec)):
                return None
            r = r.strip()
            if r == "next":
                who, nxt = nxt, nxt + 1
            else:
                who = int(r[3:]) if r.startswith("at ") else names[r[5:]]
            value = f'format!("<{{}}stylish>", {who})' if spec.endswith("s") else f'format!("{{:{spec}}}", P({who}))'
            body.append(f"    put(&mut want, &{value}, {style(int(f), int(b), int(i))});")
    flush()
    rest = [n for n in range(positional) if n not in used]
    for n in rest:
        body.append(f"    put(&mut want, &format!(\"{{}}\", P({n})), Style::default());")
    lets = "".join(f"    let {n} = P({k});\n" for n, k in names.items())
    macro = f"    stylish::write!(&mut got, {quote(text + ''.join('{%d}' % n for n in rest))}{''.join(f', P({n})' for n in range(positional))}).unwrap();"
    scratch = os.path.join(work, p["id"], "confirm")
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness", "rt"), scratch, ignore=shutil.ignore_patterns("target"))
    put(os.path.join(scratch, "src", "main.rs"), CONFIRM.replace("@BODY@", lets + macro + "\n" + "\n".join(body)))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, p["id"], "confirm-build"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="--cap-lints=warn")
    build = lambda: subprocess.run(["cargo", "build", "--locked", "--bin", "replay"], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    try:
        r = build()
        if r.returncode:
            lines = open(os.path.join(scratch, "src", "main.rs")).read().splitlines()
            at = {int(n) for n in re.findall(r"--> src/main.rs:(\d+):", r.stderr)}
            if not at or any("stylish::write!(&mut got" not in lines[n - 1] for n in at):
                return None
            put(os.path.join(scratch, "src", "main.rs"), CONFIRM.replace("@BODY@", lets + '    stylish::write!(&mut got, "{}", P(0)).unwrap();'))
            if build().returncode:
                return None
            return want != ["rejected"]
        if want == ["rejected"]:
            return True
        r = subprocess.run([os.path.join(work, p["id"], "confirm-build", "debug", "replay")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return r.returncode != 0
    except subprocess.TimeoutExpired:
        return None


P = {}


def add(pid, **kw):
    d = dict(id=pid, crate="rt", feature=pid.lower(), opt=1, assumptions=[])
    d.update(kw)
    P[pid] = d


def get(pid):
    return P[pid]


STYLES = "all 17 x 17 x 3 = 867 styles"
FEW = "27 styles (default, one dark and one bright colour, for each of foreground and background; all intensities)"
OPS = "six ways of writing (write_str, write_char, a formatted styled value, through a mutable reference, through a trait object, through a formatter's characters)"

add("C01", opt=2, expect_entries=3, kani=[],
    bounds="none needed: all 867 x 867 pairs of styles and all 8 presence patterns of a difference over every style; no loops",
    outside="nothing (Color and Intensity are finite)")
add("C02", opt=2, expect_entries=8, kani=["q_single", "q_wrapped", "q_pair", "q_triple", "q_nested"],
    bounds="all starting styles; every kind of modification with every value, plus two user-defined ones (one not idempotent, two that do not commute); slices of 0..3 members of every kind (thorough 0..6), of up to 8 of three kinds, of every length from 4 to 70 (thorough to 256) with a symbolic member at a symbolic place; nesting depth 2",
    outside="longer slices, deeper nesting")
add("C03", opt=1, expect_entries=12,
    bounds=f"one write of 4 bytes and two writes of 1 byte in {STYLES} each, three writes over {FEW}, four over 6 styles, four with every foreground or every background; two or three writes each empty or of ASCII characters or characters of two to four bytes; two and three writes by any of {OPS}; 300 writes with symbolic styles at symbolic places; texts of up to 4200 bytes; thorough: two writes of 2 bytes in all styles, four writes over the 27, six over 6 styles; all ASCII bytes except ESC",
    outside="longer arbitrary histories (the adaptor's only state is the current style, so two writes from every style cover every transition), text containing ESC",
    assumptions=["a terminal treats SGR 1/2 as separate attributes cleared by 22 (ECMA-48)"])
add("C04", opt=1, expect_entries=11,
    bounds=f"histories of two writes in {STYLES}, three in {FEW}, four in 6 styles (thorough: four in the 27, six in the 6), four with every foreground or every background, each empty or not; two and three by any of {OPS}; 300 writes; then finish",
    outside="longer arbitrary histories")
add("C05", opt=1, expect_entries=13,
    bounds=f"one write of 3 bytes with two faults, two writes of 2 bytes with two faults, three of 1 byte with two faults (thorough: up to three faults, four writes), a fault being any of: accept any part, accept nothing, interrupted, failed with one of several kinds, at any call; after a failure the caller goes on with the rest unless an escape code is half written; one write with one fault over {STYLES}, faultless pairs of writes over all 867 x 867, two and four writes with every foreground or every background, otherwise {FEW} or 2 styles; 110 writes with one fault at any of the first 256 calls; texts of 48 bytes with two faults and of 4200 bytes without; a flush, perhaps failing, once or twice before, between or after two writes; text: any bytes, valid UTF-8 or not, except ESC",
    outside="more faults per history; a failure in the middle of an escape code followed by more writes (the property excludes it); text containing ESC",
    assumptions=["a caller drives write to completion by offering the rest again, as write_all does"])
add("C06", opt=1, expect_entries=11,
    bounds=f"histories of two writes in every style with either 17 foregrounds or 17 backgrounds and 27 others (thorough: all 867 x 867), three in {FEW}, with every foreground or every background, or in 6 with empty writes (thorough: four and five in the 6), of letters, line breaks, multi-byte characters or nothing; two and three by any of {OPS}; 300 writes",
    outside="longer arbitrary histories; text needing escapes is C07")
add("C07", opt=1, expect_entries=10,
    bounds=f"all texts of 4 bytes below 128 (thorough 6), as one write or split over two (thorough three) at every point, of 3 bytes in all styles; writes in changing styles that mix ASCII with characters of two to four bytes; by any of {OPS}; texts of up to 260 bytes (any place) and 8200 bytes (19 places) with symbolic characters at symbolic places; 300 writes",
    outside="longer texts")
add("C08", opt=1, expect_entries=8, kani=[],
    bounds=f"text: 4 arbitrary ASCII bytes split anywhere into two writes with all styles, by any of {OPS}, 300 writes, texts of 600 and 8300 bytes; stream: each operation with any buffer of 0..3 bytes, any style, any usize count or any of eight other answers (error kinds, an error with a payload, an operating-system error), two operations after each other, buffers of up to 65537 bytes",
    outside="longer buffers (the adaptor does not look at the buffer)")
add("C10", opt=2, expect_entries=8, kani=[],
    bounds="three nesting shapes (sub-formatters to depth 2, nested displayed values and nested format strings to depth 3), every modification of every kind and value at each level; 20 specifications with flags around them; a value displaying itself to depth 8, sub-formatters to depth 8 (thorough 11) with a symbolic modification at every level; text through each of eight operations (the formatter's own, core::fmt::Write's, stylish's Write's) on formatters and sub-formatters",
    outside="deeper nesting")
add("C15", opt=2, expect_entries=6, kani=[],
    bounds="buffers of up to 3 bytes (thorough 6), every sequence of sink responses (any count 0..len, interrupted, other error) up to the stated number of calls, all styles; buffers of 300 bytes accepted byte by byte or in parts with up to 5000 interruptions and a failure at a symbolic call; buffers of up to 65540 bytes accepted whole or in parts of seven sizes; a failure of each of 36 error kinds, with or without a payload",
    outside="longer arbitrary response sequences")

add("C09", opt=1, expect_entries=7,
    bounds=f"histories of two writes in {FEW} (thorough: all styles), three writes in 4 styles (thorough four), each empty, one ASCII character, a two-byte character and an ASCII one, a character or a formatted write; a clone taken before any write with later writes to either copy; one string copied into another; 256 runs; runs of every length from 1 to 257 bytes and around 32768 and 65536; shown within any of {FEW}",
    outside="longer arbitrary histories, characters of three and four bytes (the string does not look at the text)")
add("C11", opt=1, expect_entries=32, optional=["c11x"], corpus=True,
    bounds="2112 format strings (all 192 combinations of alignment, sign, '#', '0', width present, precision present, for each of the 11 trait selectors, some with attributes), each expanded by the real macro and by core's; 144 with widths and precisions between 0 and 65535 at and around every power of two and of ten; 160 strings with several placeholders or nested ones; values: a probe that records everything core's Formatter tells (any ASCII character, success or failure), one that writes in several pieces, derived Debug output (pretty and not, hexadecimal), every i8, five texts; the function behind the macros with every flag and every width and precision up to 65535 symbolic (1152 match arms)",
    outside="widths and precisions above 65535 (core panics), floats, counts taken from arguments and custom fill characters (unsupported)",
    assumptions=["core::fmt is the oracle for what std's own formatting passes"])
add("C12", opt=1, expect_entries=3, corpus=True,
    bounds="266 attribute lists (each colour name for fg and bg, each intensity, every pattern of two and three mentions with repeated components, defaults, up to seven mentions, empty, trailing comma) in placeholders with all kinds of references, flags and selectors, 60 strings of three styled placeholders, 60 nested ones; all 867 enclosing styles; any ASCII character as the value",
    outside="attribute lists outside the corpus (C14 shows that every list within its bounds is parsed to the right components)")
add("C13", opt=1, expect_entries=4, corpus=True,
    bounds="180 invocations over every ordered pair of ten similar names; all 507 sequences of up to four of {unnumbered, 0, 1, 2, named}; 220 format strings with mixtures of unnumbered, numbered (up to 12), named, captured and raw-identifier references, repetition, literal text with doubled braces and multi-byte characters, concat!-built strings, and argument expressions of 22 syntactic forms; any nonzero ASCII character as each value; evaluations counted; arguments shown three times over",
    outside="format strings outside the corpus (C14 and C21 decide parsing and argument accounting for all strings within their bounds), temporaries with unusual lifetimes",
    assumptions=["a number refers to a positional argument only, as in the property's text"])
add("C14", crate="pm", opt=1, feature="c14p", optional=["c14"], confirm=True, expect_entries=5,
    bounds="every string of up to 7 ASCII characters; every string of up to 6 between braces and after `{:`; up to 4 after an alignment, a precision dot, inside and after an attribute list; every colour name with free tails; placeholders built from every choice of each section; one arbitrary character substituted anywhere in a long valid string; ten multi-byte characters (name start, name continuation, white space, other) at free positions; numbers around usize::MAX; through the macro's own implementation: 3 free characters, 2 inside placeholders; thorough: 8 free characters, 7 between braces and after `{:`, 4 and 3 through the macro",
    outside="longer fully arbitrary strings, other multi-byte characters; a fill other than a space and counts taken from arguments (documented as unsupported: strings for which the grammar reaches one are assumed away); a name that is a lone underscore or a keyword",
    assumptions=["the private function format::Format::parse is the parser the macros use; where it is not there, or a difference it shows does not reach the compiled macro, the macro's own implementation decides", "a width or precision above 65535 is accepted here although core panics on it when formatting"])
add("C16", opt=1, expect_entries=10,
    bounds="formatted writes of six pieces (literals, a styled value, a nested styled value) whose values fail before or after writing, into a styled sink, through by_ref and through the plain and ANSI byte-stream adaptors, with a fault (one byte, zero, interrupted, broken pipe, would block) at one symbolic call (some entries and thorough: two); the error is the sink's very own (kind, payload, operating-system code); two (thorough three) formatted writes after each other to one sink, whatever became of the earlier; a text of up to 9000 bytes accepted 1, 2, 63, 400 or 4096 bytes at a time with up to 1000 interruptions; each of 36 error kinds, from `write` or a `write_all` of the sink's own",
    outside="more faults, values that swallow the write errors they are given")
add("C17", opt=1, expect_entries=22,
    bounds=f"a failure at any call of the sink, during two writes (ANSI and thorough three) of up to 2 bytes in {FEW} or 6 styles and finishing, per adaptor; by any of {OPS}; histories of 300 writes and texts of up to 4200 bytes with the failure anywhere; during a value with nested values, restyled sub-formatters and every kind of modification; during an attributed string of up to 3 characters, 100 runs or long runs; through macro, formatter and adaptor at once",
    outside="longer arbitrary histories; values that swallow the error they are given")
add("C18", opt=1, expect_entries=10,
    bounds="every Unicode scalar value in all 867 styles; references: every operation, text of one byte (byte sinks: 0..2 bytes), every result of the sink, texts of up to 4200 and buffers of up to 8200 bytes; formatter targets: every modification, every style, texts of 0..2 bytes",
    outside="longer texts")
add("C19", opt=1, expect_entries=14,
    bounds=f"values of two segments of up to 2 characters of one to four bytes in {FEW} (HTML: 4 styles), with every colour, with two texts of up to 4200 bytes (thorough: three segments), through every one-shot function, macro and conversion, the value displayed itself, by reference, boxed or nested in a format string",
    outside="longer values; `writeln!` with a format string that is not a literal (not supported by the macro)")
add("C20", opt=1, expect_entries=13,
    bounds=f"histories of two writes in {FEW} (streams, thorough: all styles; quick also every foreground) and three in 6 styles (thorough four), each empty or of one or two characters of one to four bytes; two and three by any of {OPS}; 300 writes; texts of 160 and 4200 bytes",
    outside="longer arbitrary histories; text containing ESC for ANSI")
add("C21", crate="pm", opt=1, expect_entries=6,
    bounds="format strings of up to three pieces (unnumbered, numbered 0..3, named a..d, literal character, doubled brace; thorough four) with 0..3 positional and any subset of four named arguments; from 4 to 65 arguments (129; thorough 257), numbered, named or unnumbered, with one missing, unused or added at a symbolic place; 43 argument lists as written (operators, assignments inside expressions, trailing commas, raw identifiers, duplicates, positional after named, malformed), the macro's implementation run to the tokens it returns",
    outside="that the returned tokens compile (C13's corpus shows it for over 900 invocations); the proc_macro bridge (proc_macro2's fallback is used); argument names that are keywords without r#",
    assumptions=["a panic or parse error of the macro's implementation is what makes an invocation not compile", "hash seeds are fixed"])
add("C23", opt=1, expect_entries=15,
    bounds="each of the five adaptors: one write, a copy (`clone`, or `clone_from` into a fresh or a used adaptor), one different write to each in either order; writes empty, of one ASCII character or with a two-byte one, in 6 styles (thorough: characters of up to four bytes, 27 styles); a copy of a copy; adaptors made in three ways receiving two writes, the first of up to four bytes in 27 styles",
    outside="longer histories before the copy (the adaptors' only state is the current style and the sink)",
    assumptions=["the sinks are alloc's String and Vec, whose clones are independent"])
add("C22", crate="ft", opt=2, script="c22.py", technique="symbolic execution of the real code's LLVM IR with Z3, in every feature combination (rustc decides that each compiles)",
    bounds="compiled: all 48 combinations of the facade crate's features, all combinations of each other crate's (76 builds), without std in the sysroot where std is not selected; executed: in each of the 48, entries of C01-C10, C13 and C15-C17 that it supports (their quick bounds) and entries for characters, plain text, formatted writes, one-shot functions and conversions",
    outside="entries of the other properties; targets other than x86_64-unknown-linux-gnu; the `stylish_proc_macro_expand` cfg (nightly only)",
    assumptions=["the oracle for 'as with all features' is the reference model, which the same entries meet with all features on", "that a combination compiles is decided by rustc, what it then does by the solver"])
