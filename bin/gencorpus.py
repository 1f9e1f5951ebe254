#!/usr/bin/env python3
"""Writes the generated parts of the macro corpora (harness/rt/src/*_programs.rs). The output is committed."""
import itertools, os, random

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "rt", "src")
HEAD = "// Generated by bin/gencorpus.py.\n"
TRAITS = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
NAMES = ["Display", "Debug", "Debug", "Debug", "Octal", "LowerHex", "UpperHex", "Pointer", "Binary", "LowerExp", "UpperExp"]
ATTRS = [("", "DEF"), ("(fg=red)", "St { f: 1, b: 16, i: 0 }"), ("(bg=brightgreen,bold)", "St { f: 16, b: 10, i: 1 }"), ("(faint,fg=white,)", "St { f: 7, b: 16, i: 2 }")]


def shapes():
    return list(itertools.product(["", "<", "^", ">"], ["", "+", "-"], ["", "#"], ["", "0"], [0, 1], [0, 1]))


def spec(rng, shape, attr):
    al, sg, alt, zero, w, p = shape
    fill = " " if al and rng.random() < 0.3 else ""
    width = str(rng.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12])) if w else ""
    prec = "." + str(rng.randrange(0, 6)) if p else ""
    std = fill + al + sg + alt + zero + width + prec
    return std, std + attr


def c11():
    rng = random.Random(11)
    out = [HEAD, "use super::*;\n"]
    tables = []
    for t, (sel, tr) in enumerate(zip(TRAITS, NAMES)):
        rows = []
        for k, shape in enumerate(shapes()):
            attr, st = ATTRS[rng.randrange(4)] if rng.random() < 0.4 else ATTRS[0]
            std, sty = spec(rng, shape, attr)
            rows.append(f'    row!({"Probe" if tr == "Pointer" else tr}, "{{:{sty}{sel}}}", "{{:{std}{sel}}}", {st}),\n')
        out.append(f"pub static T{t}: &[Row<{"Probe" if tr == "Pointer" else "dyn core::fmt::" + tr}>] = &[\n" + "".join(rows) + "];\n")
    # several placeholders after each other: nothing is left over from one for the next
    all_shapes = shapes()
    def one():
        k = rng.randrange(len(TRAITS))
        attr, st = ATTRS[rng.randrange(4)]
        std, sty = spec(rng, rng.choice(all_shapes) if rng.random() < 0.6 else all_shapes[0], attr)
        return "{:" + sty + TRAITS[k] + "}", "{:" + std + TRAITS[k] + "}", st
    part = lambda p: f'("{p[1]}", {p[2]})'
    rows = []
    for _ in range(96):
        ps = [one() for _ in range(3)]
        ours = "".join(p[0] for p in ps)
        rows.append(f'    several!([0 1 2] "{ours}", {", ".join(map(part, ps))}),\n')
    out.append(f"pub static TRIOS: &[Several] = &[\n" + "".join(rows) + "];\n")
    # a styled value that formats others inside, itself with flags (which mean nothing to it)
    rows = []
    for _ in range(64):
        a, b, i1, i2 = one(), one(), one(), one()
        std, _ = spec(rng, rng.choice(all_shapes), "")
        rows.append(f'    nested!("{a[0]}{{:{std}s}}{b[0]}", "{i1[0]}{i2[0]}", {", ".join(map(part, [a, i1, i2, b]))}),\n')
    out.append(f"pub static NESTED: &[Several] = &[\n" + "".join(rows) + "];\n")
    # counts of every size
    rows = []
    for k, n in enumerate([0, 1, 10, 13, 99, 100, 127, 128, 199, 255, 256, 257, 300, 999, 1000, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535]):
        for form in ("{n}", ".{n}", ">#0{n}.{m}", "^+{m}.0{n}", "00{n}.000{m}", " <-{n}.{n}"):
            sel, tr = [("", "Display"), ("x", "LowerHex")][(k + len(form)) % 2]
            std = form.format(n=n, m=(n * 7 + 3) % 65536)
            if std.startswith("0") and not std.startswith("00"):
                std = "1" + std
            attr, st = ATTRS[k % 4]
            rows.append(f'    row!(Probe, "{{:{std}{attr}{sel}}}", "{{:{std}{sel}}}", {st}),\n')
    out.append("pub static COUNTS: &[Row<Probe>] = &[\n" + "".join(rows) + "];\n")
    open(os.path.join(OUT, "c11_programs.rs"), "w").write("".join(out))


COLORS = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
COLORS += ["bright" + n for n in COLORS] + ["default"]
INT = ["normal", "bold", "faint"]


def c12():
    rng = random.Random(12)
    out = [HEAD, "use super::*;\n"]
    lists = [[]]
    lists += [[("fg", k)] for k in range(17)] + [[("bg", k)] for k in range(17)] + [[("i", k)] for k in range(3)]
    some = lambda kind: (kind, rng.randrange(3 if kind == "i" else 17))
    for a in ("fg", "bg", "i"):
        for b in ("fg", "bg", "i"):
            lists += [[some(a), some(b)] for _ in range(6)]
            for c in ("fg", "bg", "i"):
                lists += [[some(a), some(b), some(c)] for _ in range(4)]
    for d in (("fg", 16), ("bg", 16), ("i", 0)):
        for e in ("fg", "bg", "i"):
            lists += [[d, some(e)], [some(e), d], [d, some(e), some(e)], [some(e), some(e), d]]
    lists += [[some(rng.choice(("fg", "bg", "i"))) for _ in range(rng.randrange(4, 8))] for _ in range(30)]
    rows = []
    for n, l in enumerate(lists):
        text = ",".join(INT[v] if k == "i" else k + "=" + COLORS[v] for k, v in l)
        if l and n % 3 == 1:
            text += ","
        want = {"fg": "None", "bg": "None", "i": "None"}
        for k, v in l:
            want[k] = f"Some({v})"
        sel = rng.choice(["", "", "?", "s", "x?"])
        pre = rng.choice(["", "", "<", "+", "#", "0", "1", ".1", " ^+#01.1"])
        arg = rng.choice(["", "0", "v"])
        call = f"v = v" if arg == "v" else "v"
        rows.append(f'    row!("a{{{arg}:{pre}({text}){sel}}}b{{{{", ({call}), [{want["fg"]}, {want["bg"]}, {want["i"]}]),\n')
    out.append("pub static ROWS: &[Row] = &[\n" + "".join(rows) + "];\n")
    # several styled placeholders after each other, with text between them
    rows = []
    diff = lambda l: "[" + ", ".join(next((f"Some({v})" for k, v in reversed(l) if k == w), "None") for w in ("fg", "bg", "i")) + "]"
    show = lambda l: ",".join(INT[v] if k == "i" else k + "=" + COLORS[v] for k, v in l)
    for _ in range(60):
        ls = [rng.choice(lists) for _ in range(3)]
        fmt = "-".join(("{:(" + show(l) + ")" + rng.choice(["", "?", "s"]) + "}") if l or rng.random() < 0.5 else "{}" for l in ls)
        rows.append(f'    several!("{fmt}", [{", ".join(map(diff, ls))}]),\n')
    out.append("pub static SEVERAL: &[Several] = &[\n" + "".join(rows) + "];\n")
    # a styled value under attributes, itself made of styled placeholders
    rows = []
    for _ in range(60):
        o, i, j = rng.choice(lists), rng.choice(lists), rng.choice(lists)
        rows.append(f'    nested!("{{:({show(o)})s}}{{:({show(j)})}}", "<{{:({show(i)})}}>", {diff(o)}, {diff(i)}, {diff(j)}),\n')
    out.append("pub static NESTED: &[Nested] = &[\n" + "".join(rows) + "];\n")
    open(os.path.join(OUT, "c12_programs.rs"), "w").write("".join(out))


NAMED = ["a", "b", "foo_1", "_x", "Zed", "A", "ab", "a_", "a1", "\u00e9"]
EXPRS = ["t({i})", "&t({i})", "{{ t({i}) }}", "*&t({i})", "if yes() {{ t({i}) }} else {{ Ch(0) }}", "match t({i}) {{ c => c }}", "id(t({i}))",
         "[t({i})][0]", "(t({i}), 1).0", "t({i}) | Ch(0)", "Ch(0) + t({i})", "!t({i})", "-t({i})", "(|| t({i}))()", "t({i}).me()", "&&t({i})",
         "t({i}) << 0", "{{ let c = t({i}); c }}", "unsafe {{ t({i}) }}", "t({i}) & Ch(127)", "loop {{ break t({i}) }}", "Ch::from(t({i}).0 as u8)"]


RAW = 12 + len(NAMED)
CAPT = RAW + 1


def c13():
    rng = random.Random(13)
    out = [HEAD, "use super::*;\n"]
    rows = []
    for n in range(220):
        npos = rng.choice([0, 1, 1, 2, 3, 3, 4, 5]) if n < 200 else 12
        names = rng.sample(NAMED, rng.choice([0, 0, 1, 2, 3]))
        capt = [x for x in NAMED if x not in names]
        raw = rng.random() < 0.1
        # references: every argument at least once
        refs = [("pos", k) for k in range(npos)] + [("name", x) for x in names] + ([("raw", 0)] if raw else [])
        refs += [rng.choice(refs + [("cap", x) for x in capt]) for _ in range(rng.choice([0, 1, 2, 4]))] if refs or capt else []
        rng.shuffle(refs)
        # some of the positional references become unnumbered; those count up from 0
        nxt, items, i = 0, [], 0
        take = rng.random()
        seen_next = set()
        for r in refs:
            if r[0] == "pos" and r[1] == nxt and rng.random() < take:
                items.append(("", ("pos", nxt)))
                nxt += 1
            else:
                items.append((str(r[1]) if r[0] == "pos" else ("type" if r[0] == "raw" else r[1]), r))
        text, want = "", []
        lits = ["", "", "{{", "}}", " ", "x", "{{}}", "\u00e9", "\\n", "0}}", "{{a}}", "\\u{20ac}"]
        plain = {"{{": "{", "}}": "}", "{{}}": "{}", "0}}": "0}", "{{a}}": "{a}", "\\n": "\n", "\\u{20ac}": "\u20ac"}
        lit = lambda: rng.choice(lits)

        def put(l):
            nonlocal text
            text += l
            want.extend(f"Lit({b})" for b in plain.get(l, l).encode())
        put(lit())
        for name, r in items:
            k = {"pos": lambda: r[1], "name": lambda: 12 + NAMED.index(r[1]), "cap": lambda: CAPT + NAMED.index(r[1]), "raw": lambda: RAW}[r[0]]()
            sp = rng.choice(["", "", ":", ":?", ":s", ":(bold)", ":3", " ", ":?  "])
            text += "{" + name + sp + "}"
            want.append(f"Bold({k})" if "bold" in sp else f"Arg({k})")
            put(lit())
        args = "".join(", " + rng.choice(EXPRS).format(i=k) for k in range(npos))
        args += "".join(f", {x} = " + rng.choice(EXPRS).format(i=12 + NAMED.index(x)) for x in names)
        args += f", r#type = t({RAW})" if raw else ""
        args += rng.choice(["", "", ","]) if args else ""
        used = [k for k in range(npos)] + [12 + NAMED.index(x) for x in names] + ([RAW] if raw else [])
        if n % 10 == 9 and len(text) > 2 and not any(r[0] == "cap" for r in refs):
            cut = rng.randrange(1, len(text))
            while "\\" in text[max(0, cut - 9):cut]:
                cut -= 1
            f = f'concat!("{text[:cut]}", "{text[cut:]}")' if cut > 0 else f'"{text}"'
        else:
            f = f'"{text}"'
        rows.append(f'    row!(({' '.join(NAMED)} t) [{" ".join(map(str, used))}], [{", ".join(want)}], {f}{args}),\n')
    out.append("pub static ROWS: &[Row] = &[\n" + "".join(rows) + "];\n")
    # every two names together, captured or one of them given
    rows = []
    for x in NAMED:
        for y in NAMED:
            if x == y:
                continue
            i, j = NAMED.index(x), NAMED.index(y)
            names = " ".join(NAMED)
            rows.append(f'    row!(({names} t) [], [Arg({CAPT + i}), Arg({CAPT + j}), Arg({CAPT + i})], "{{{x}}}{{{y}}}{{{x}}}"),\n')
            rows.append(f'    row!(({names} t) [{12 + i}], [Arg({CAPT + j}), Arg({12 + i})], "{{{y}}}{{{x}}}", {x} = t({12 + i})),\n')
    out.append("pub static PAIRS: &[Row] = &[\n" + "".join(rows) + "];\n")
    # every short sequence of unnumbered, numbered and named references (the selectors take turns)
    rows, sel = [], ["", ":s", ":?", ":(bold)"]
    for n in range(1, 5):
        for seq in itertools.product(["", "0", "1", "2", "a"], repeat=n):
            nxt, want, text, used = 0, [], "", set()
            for k, r in enumerate(seq):
                at = 12 if r == "a" else int(r) if r else nxt
                nxt += r == ""
                used.add(at)
                sp = sel[(len(rows) + k) % 4]
                text += "{" + r + sp + "}"
                want.append(f"Bold({at})" if sp == ":(bold)" else f"Arg({at})")
            npos = len(used - {12})
            if used - {12} != set(range(npos)):
                continue
            args = "".join(f", t({k})" for k in range(npos)) + (", a = t(12)" if 12 in used else "")
            rows.append(f'    row!(({' '.join(NAMED)} t) [{" ".join(map(str, sorted(used)))}], [{", ".join(want)}], "{text}"{args}),\n')
    out.append("#[cfg(feature = \"no-box\")]\npub static SEQUENCES: &[Row] = &[];\n#[cfg(not(feature = \"no-box\"))]\npub static SEQUENCES: &[Row] = &[\n" + "".join(rows) + "];\n")
    open(os.path.join(OUT, "c13_programs.rs"), "w").write("".join(out))


if __name__ == "__main__":
    c11()
    c12()
    c13()
