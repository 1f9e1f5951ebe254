"""Which source lines of /repo the executed LLVM instructions come from (by the IR's own line tables)."""
import re

NODE = re.compile(r"^!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DILexicalBlock|DILexicalBlockFile|DIFile|DINamespace|DICompositeType)\((.*)\)$")
FIELD = re.compile(r'(\w+): (?:!(\d+)|"((?:[^"\\]|\\.)*)"|(\w+))')


def load(ll):
    nodes, attached = {}, set()
    with open(ll, errors="replace") as f:
        for l in f:
            if l[0] == "!":
                m = NODE.match(l.rstrip())
                if m:
                    nodes[int(m[1])] = (m[2], m[3])
            else:
                at = l.rfind("!dbg !")
                if at > 0:
                    n = re.match(r"\d+", l[at + 6:])
                    if n and l[0] == " ":
                        attached.add(int(n[0]))
    return nodes, attached


def sources(ll, ids, roots):
    """{(file, function): {line: executed}} for files below a root; roots: [(prefix, shown as)]."""
    nodes, attached = load(ll)
    parsed = {}

    def node(n):
        if n not in parsed:
            kind, text = nodes.get(n, ("", ""))
            parsed[n] = (kind, {k: int(r) if r else s or w for k, r, s, w in FIELD.findall(text)})
        return parsed[n]

    def path(n):
        f = node(n)[1]
        name, d = f.get("filename", ""), f.get("directory", "")
        name = name if name.startswith("/") else d + "/" + name
        for prefix, shown in roots:
            if name.startswith(prefix):
                return shown + name[len(prefix):]

    places = {}

    def place(n):
        """[(file, function, line)] of a location and of the calls it was inlined at."""
        if n in places:
            return places[n]
        out = []
        kind, f = node(n)
        if kind == "DILocation":
            scope, line = f.get("scope"), int(f.get("line", 0) or 0)
            file = None
            for _ in range(60):
                k, s = node(scope)
                file = file or s.get("file")
                if k == "DISubprogram" or not k:
                    break
                scope = s.get("scope")
            where = path(file) if file else None
            if where and k == "DISubprogram" and line:
                name, up = [s.get("name", "?")], s.get("scope")
                for _ in range(8):
                    k, u = node(up) if isinstance(up, int) else ("", {})
                    if k not in ("DINamespace", "DICompositeType") or not u.get("name"):
                        break
                    name.append(u["name"])
                    up = u.get("scope")
                out.append((where, "::".join(reversed(name)), line))
            if isinstance(f.get("inlinedAt"), int):
                out += place(f["inlinedAt"])
        places[n] = out
        return out

    found = {}
    for n in attached | set(ids):
        done = n in ids
        for where, name, line in place(n):
            lines = found.setdefault((where, re.sub(r"<.*", "", name)), {})
            lines[line] = lines.get(line, False) or done
    return found
