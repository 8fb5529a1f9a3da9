"""A light reader of Rust source: struct fields, enum variants and impl headers, with comments and strings removed.

Used to map field NAMES (in which the contracts are written) to MIR field INDICES, and `<impl at f:l:c>` to a type.
"""
import json
import os
import re

from .mir import norm_type, split_top, match_close


def strip_comments(t):
    """Blanks comments, keeping offsets and newlines; string contents are kept except braces."""
    out = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if t.startswith("//", i):
            j = t.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i))
            i = j
        elif t.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if t.startswith("/*", j):
                    d += 1
                    j += 2
                elif t.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(re.sub(r"[^\n]", " ", t[i:j]))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            s = t[i:j + 1]
            out.append(re.sub(r"[{}()<>\[\];,]", "_", s))
            i = j + 1
        elif c == "'" and (m := re.compile(r"'(\\.[^']*|[^'\\])'").match(t, i)):
            out.append("'_'" + " " * (m.end() - i - 3) if m.end() - i >= 3 else m.group(0))
            i = m.end()
        else:
            out.append(c)
            i += 1
    return "".join(out)


class Sources:
    def __init__(self, root, crate_dirs):
        self.root = root
        self.text = {}
        self.structs = {}   # name -> [(field, type)]
        self.enums = {}     # name -> [(variant, discr, fields)]
        self.renames = []   # (module, name, new name) of types whose short name is not unique
        self.where = {}
        for d in crate_dirs:
            for top, dirs, files in os.walk(os.path.join(root, d)):
                for f in sorted(files):
                    if f.endswith(".rs"):
                        p = os.path.join(top, f)
                        rel = os.path.relpath(p, root)
                        if "/tests/" in rel:
                            continue
                        with open(p) as fh:
                            self.load(rel, fh.read())
        self.idl_consts, self.idl_structs = {}, set()
        self.load_idls()

    def load_idls(self):
        """struct types of the programs called (declare_program! generates them from idls/*.json)"""
        d = os.path.join(self.root, "idls")
        known = {}
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not f.endswith(".json"):
                continue
            with open(os.path.join(d, f)) as fh:
                idl = json.load(fh)
            prog = f[:-5]
            for c in idl.get("constants", []):
                if c.get("type") in ("u8", "u16", "u32", "u64", "u128") and c["value"].isdigit():
                    self.idl_consts["%s::constants::%s" % (prog, c["name"])] = int(c["value"])
            defs = {t["name"]: t["type"] for t in idl.get("types", []) if t["type"].get("kind") == "struct"}
            new = {}
            for n in defs:
                new[n] = n
                if n in self.structs or n in self.enums:
                    new[n] = n + "__" + prog
                    for mod in ("types", "accounts"):
                        self.renames.append((prog + "::" + mod, n, new[n]))

            known.update(("%s__idl_%s" % (n, prog), m) for n, m in new.items())

            def ty(t):
                if isinstance(t, str):
                    return {"pubkey": "Pubkey", "string": "String", "bytes": "Vec<u8>"}.get(t, t)
                if "option" in t:
                    return "Option<%s>" % ty(t["option"])
                if "vec" in t:
                    return "Vec<%s>" % ty(t["vec"])
                if "array" in t:
                    return "[%s; %s]" % (ty(t["array"][0]), t["array"][1])
                n = t["defined"]["name"]
                return new.get(n, n)
            for n, t in defs.items():
                fs = t.get("fields") or []
                if new[n] not in self.structs:
                    self.idl_structs.add(new[n])
                self.structs.setdefault(new[n], [(x["name"], ty(x["type"])) if isinstance(x, dict) and "name" in x else (str(i), ty(x))
                                                 for i, x in enumerate(fs)])
        short = lambda m: known.get(m.group(0), m.group(1))
        for fs in self.structs.values():
            fs[:] = [(n, re.sub(r"\b(\w+?)__idl_\w+", short, t)) for n, t in fs]

    def hand_written(self, trait, ty):
        """is there a source-level `impl Trait for ty` (as opposed to a derive)?"""
        if not hasattr(self, "_impls"):
            self._impls = set()
            for t in self.text.values():
                for m in re.finditer(r"\bimpl\b[^{;]*?\b(\w+)\s*(?:<[^{;]*>)?\s+for\s+&?(?:\w+\s*::\s*)*(\w+)", t):
                    self._impls.add((m.group(1), m.group(2)))
        base = re.sub(r"<.*", "", (ty or "").lstrip("&")).split("::")[-1].split("__")[0]
        return (trait, base) in self._impls

    def load(self, rel, raw):
        t = strip_comments(raw)
        self.text[rel] = t
        mod = os.path.basename(rel)[:-3]
        if mod == "mod":
            mod = os.path.basename(os.path.dirname(rel))
        for m in re.finditer(r"\b(?:struct|enum)\s+(\w+)", t):
            name = m.group(1)
            if self.where.setdefault(name, rel) != rel:
                self.renames.append((mod, name, name + "__" + mod))
        t = re.sub(r"\b(\w+)\s*::\s*(?:types|accounts)\s*::\s*(\w+)", r"\2__idl_\1", t)
        for mo, name, new in self.renames:
            if mo == mod:
                t = re.sub(r"\b%s\b" % name, new, t)
        for m in re.finditer(r"\bstruct\s+(\w+)\s*(<[^>{(;]*>)?\s*(?:where[^{]*)?([{(;])", t):
            name, op = m.group(1), m.group(3)
            if op == ";":
                self.structs.setdefault(name, [])
                continue
            k = match_close(t, m.end() - 1)
            body = self.no_attrs(t[m.end():k])
            fields = []
            for i, f in enumerate(split_top(body)):
                f = re.sub(r"^pub(\([^)]*\))?\s+", "", f.strip())
                if op == "{":
                    if ":" not in f:
                        continue
                    a, b = f.split(":", 1)
                    fields.append((a.strip(), norm_type(b)))
                else:
                    fields.append((str(i), norm_type(f)))
            self.structs.setdefault(name, fields)
        for m in re.finditer(r"\benum\s+(\w+)\s*(<[^>{(;]*>)?\s*\{", t):
            k = match_close(t, m.end() - 1)
            body = self.no_attrs(t[m.end():k])
            vs, d = [], -1
            for v in split_top(body):
                mm = re.match(r"(\w+)\s*(.*)$", v.strip(), re.S)
                rest = mm.group(2).strip()
                d += 1
                payload = None
                if rest.startswith(("(", "{")):
                    kk = match_close(rest, 0)
                    payload = split_top(rest[1:kk])
                    rest = rest[kk + 1:].strip()
                if rest.startswith("="):
                    try:
                        d = int(rest[1:].strip().replace("_", ""), 0)
                    except ValueError:
                        pass
                vs.append((mm.group(1), d, payload))
            self.enums.setdefault(m.group(1), vs)

    @staticmethod
    def no_attrs(s):
        out, i = [], 0
        while i < len(s):
            if s[i] == "#" and s[i + 1:i + 2] == "[":
                i = match_close(s, i + 1) + 1
            else:
                out.append(s[i])
                i += 1
        return "".join(out)

    def span_text(self, f, l, c, l2, c2):
        t = self.text.get(f)
        if t is None:
            return ""
        lines = t.split("\n")
        if l == l2:
            return lines[l - 1][c - 1:c2 - 1]
        seg = [lines[l - 1][c - 1:]] + lines[l:l2 - 1] + [lines[l2 - 1][:c2 - 1]]
        return "\n".join(seg)

    def impl_header(self, f, l, c, l2, c2):
        """-> (trait or None, self type or None) of the impl or derive at that span."""
        s = self.span_text(f, l, c, l2, c2).strip()
        m = re.match(r"(?:unsafe\s+)?impl\b", s)
        if not m:
            return (s.split("::")[-1], None)  # a derive
        s = s[m.end():].strip()
        if s.startswith("<"):
            s = s[match_close(s, 0) + 1:].strip()
        s = s.split(" where ")[0].rstrip("{ ")
        m = re.search(r"\bfor\s+", s)
        if m and not s.startswith("for<"):
            return (norm_type(s[:m.start()]), norm_type(s[m.end():]))
        return (None, norm_type(s))

    def derived_for(self, f, l, c):
        """name of the type whose derive attribute stands at that position"""
        t = "\n".join(self.text.get(f, "").split("\n")[l - 1:])[c - 1:]
        m = re.search(r"\b(?:struct|enum)\s+(\w+)", t)
        return m and m.group(1)

    def field_index(self, struct, field):
        for i, (f, t) in enumerate(self.structs[struct]):
            if f == field:
                return i, t
        raise KeyError("%s.%s" % (struct, field))
