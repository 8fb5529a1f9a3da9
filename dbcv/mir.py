"""Parser for the textual MIR that rustc 1.85.0 emits (--emit=mir).

Only the functions a proof reaches are parsed (lazily).  Nothing is dropped silently: a construct the
parser does not know raises MirUnsupported, which a proof reports as a tool limit.
"""
import re


class MirUnsupported(Exception):
    pass


OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}
CLOSE = set(OPEN.values())


def scan_str(s, i):
    """s[i] == '"': returns index after the closing quote."""
    j = i + 1
    while s[j] != '"':
        j += 2 if s[j] == "\\" else 1
    return j + 1


def split_top(s, sep=","):
    """Splits s at top-level separators."""
    out, depth, start, i = [], 0, 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = scan_str(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == "\\" and "'" in s[i + 2:i + 12])):
            i = s.index("'", i + 2 if s[i + 1] != "\\" else i + 3) + 1
            continue
        if c == "-" and s[i:i + 2] == "->":
            i += 2
            continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last or out:
        if last:
            out.append(last)
    return out


def match_close(s, i):
    """s[i] opens a bracket: index of the matching closer."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = scan_str(s, i)
            continue
        if c == "-" and s[i:i + 2] == "->":
            i += 2
            continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirUnsupported("unbalanced: " + s[:200])


_norm_cache = {}


def norm_type(t):
    """Drops module paths and lifetimes from a type string: `std::result::Result<u64, a::b::Error>` -> `Result<u64,Error>`."""
    t = t.strip()
    r = _norm_cache.get(t)
    if r is not None:
        return r
    s = t
    s = re.sub(r"'(?:\w+|_)\b,?\s*", "", s)  # lifetimes
    s = re.sub(r"\bfor<>\s*", "", s)
    s = s.replace("<>", "")
    if "{closure@" in s:
        # keep closure text whole
        parts = re.split(r"(\{closure@[^}]*\})", s)
        s = "".join(p if p.startswith("{closure@") else re.sub(r"\b(?:[A-Za-z_]\w*::)+(?=[A-Za-z_<])", "", p) for p in parts)
    else:
        s = re.sub(r"<impl at [^>]*>::", "", s)
        s = re.sub(r"\b(?:[A-Za-z_]\w*::)+(?=[A-Za-z_])", "", s)
    s = re.sub(r"\s*,\s*", ",", s).strip()
    s = re.sub(r",>", ">", s)
    s = s.replace("Uint<256,4>", "U256").replace("Uint<512,8>", "U512")
    _norm_cache[t] = s
    return s


def generic_args(t):
    """`Result<A,B>` -> ('Result', ['A','B'])"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    return t[:i], split_top(t[i + 1:-1])


# --------------------------------------------------------------------------- places / operands

class Place:
    __slots__ = ("local", "proj")

    def __init__(self, local, proj):
        self.local = local
        self.proj = proj

    def __repr__(self):
        return "_%d%s" % (self.local, "".join(map(repr, self.proj)))


_re_local = re.compile(r"_(\d+)")


def parse_place(s, i=0):
    """Returns (Place, next index)."""
    if s[i] == "(":
        if s[i + 1] == "*":
            p, j = parse_place(s, i + 2)
            if s[j] != ")":
                raise MirUnsupported("place: " + s)
            p.proj.append(("deref",))
            j += 1
        else:
            p, j = parse_place(s, i + 1)
            if s[j] == ".":
                m = re.compile(r"\.(\d+): ").match(s, j)
                if not m:
                    raise MirUnsupported("place: " + s)
                # type up to the matching ')'
                k = match_close(s, i)
                p.proj.append(("f", int(m.group(1)), norm_type(s[m.end():k])))
                j = k + 1
            elif s.startswith(" as ", j):
                k = match_close(s, i)
                v = s[j + 4:k]
                if v.startswith("variant#"):
                    v = int(v[8:])
                p.proj.append(("v", v))
                j = k + 1
            elif s[j] == ")":
                j += 1
            else:
                raise MirUnsupported("place: " + s)
    else:
        m = _re_local.match(s, i)
        if not m:
            raise MirUnsupported("place: " + s)
        p = Place(int(m.group(1)), [])
        j = m.end()
    while j < len(s) and s[j] == "[":
        k = match_close(s, j)
        ix = s[j + 1:k]
        m = _re_local.fullmatch(ix)
        if m:
            p.proj.append(("il", int(m.group(1))))
        elif m := re.fullmatch(r"(\d+) of (\d+)", ix):
            p.proj.append(("ic", int(m.group(1)), False))
        elif m := re.fullmatch(r"-(\d+) of (\d+)", ix):
            p.proj.append(("ic", int(m.group(1)), True))
        elif m := re.fullmatch(r"(\d+)\.\.(-?)(\d*)", ix) or re.fullmatch(r"(\d+):(-?)(\d*)", ix):
            p.proj.append(("sub", int(m.group(1)), int(m.group(3) or 0), m.group(2) == "-" or m.group(3) == ""))
        else:
            raise MirUnsupported("index: " + s)
        j = k + 1
    return p, j


def parse_full_place(s):
    p, j = parse_place(s)
    if j != len(s):
        raise MirUnsupported("place: " + s)
    return p


def parse_operand(s):
    s = s.strip()
    if s.startswith("copy ") or s.startswith("move "):
        return ("place", parse_full_place(s[5:]), s[:4])
    if s.startswith("const "):
        return ("const", s[6:].strip())
    if re.match(r"_\d+$", s):
        return ("place", parse_full_place(s), "copy")
    # function items appear bare as operands
    return ("fnitem", s)


BINOPS = {
    "Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge",
    "Gt", "Cmp", "Offset", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked",
    "MulUnchecked", "ShlUnchecked", "ShrUnchecked",
}
UNOPS = {"Not", "Neg", "PtrMetadata"}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith("&raw "):
        m = re.match(r"&raw (const|mut) (?:\(fake\) )?", s)
        return ("ref", "raw", parse_full_place(s[m.end():]))
    if s.startswith("&"):
        m = re.match(r"&(?:fake shallow |fake |)(mut )?", s)
        return ("ref", "mut" if m.group(1) else "shr", parse_full_place(s[m.end():]))
    if s.startswith("deref_copy "):
        return ("use", ("place", parse_full_place(s[11:]), "copy"))
    m = re.match(r"(\w+)\(", s)
    if m and s.endswith(")") and match_close(s, m.end() - 1) == len(s) - 1:
        name = m.group(1)
        inner = s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ("bin", name, parse_operand(a), parse_operand(b))
        if name in UNOPS:
            return ("un", name, parse_operand(inner))
        if name == "discriminant":
            return ("discr", parse_full_place(inner))
        if name == "Len":
            return ("len", parse_full_place(inner))
        if name in ("SizeOf", "AlignOf"):
            return ("nullary", name, norm_type(inner))
        if name == "ShallowInitBox":
            a, t = split_top(inner)
            return ("shallowbox", parse_operand(a), norm_type(t))
        if name in ("OffsetOf", "UbChecks", "ContractChecks"):
            raise MirUnsupported("rvalue: " + s)
    # casts: `op as T (Kind)`
    if s.startswith(("copy ", "move ", "const ")):
        m = re.search(r" as (.*) \((\w+(?:\(.*\))?)\)$", s)
        if m:
            head = s[:m.start()]
            try:
                return ("cast", parse_operand(head), norm_type(m.group(1)), m.group(2))
            except MirUnsupported:
                # ` as ` may occur inside the operand; retry from later
                pass
            k = s.rfind(" as ", 0, m.end(1))
            return ("cast", parse_operand(s[:k]), norm_type(re.sub(r" \(\w+(?:\(.*\))?\)$", "", s[k + 4:])), m.group(2))
        return ("use", parse_operand(s))
    m = re.match(r"(.*) as (.*) \((PointerCoercion\(.*\)|\w+)\)$", s)
    if m and not s.startswith(("[", "(", "{")) and "PointerCoercion(ReifyFnPointer" in s:
        return ("use", ("fnitem", m.group(1)))
    if s.startswith("["):
        inner = s[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("agg", "array", None, None, [parse_operand(x) for x in split_top(inner)])
    if s.startswith("("):
        return ("agg", "tuple", None, None, [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("{closure@") or s.startswith("{coroutine"):
        k = match_close(s, 0)
        name = s[:k + 1]
        rest = s[k + 1:].strip()
        ops, caps = [], []
        if rest:
            for x in split_top(rest[1:-1]):
                fn, v = x.split(": ", 1)
                caps.append(fn)
                ops.append(parse_operand(v))
        return ("agg", "closure", name, caps, ops)
    # ADT aggregates
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "<":
            i = match_close(s, i) + 1
            continue
        if c in "({":
            break
        if c == " " and s[i + 1] == "{":
            i += 1
            break
        i += 1
    path = s[:i].strip()
    if not re.match(r"^[<\w]", path):
        raise MirUnsupported("rvalue: " + s[:200])
    if i >= n:
        return ("agg", "adt", path, "unit", [])
    k = match_close(s, i)
    if k != n - 1:
        raise MirUnsupported("rvalue: " + s[:200])
    inner = s[i + 1:k].strip()
    if s[i] == "(":
        return ("agg", "adt", path, "tuple", [parse_operand(x) for x in split_top(inner)])
    names, ops = [], []
    for x in split_top(inner):
        fn, v = x.split(": ", 1)
        names.append(fn.strip())
        ops.append(parse_operand(v))
    return ("agg", "adt", path, names, ops)


def parse_call(s):
    """`callee(args)` -> (callee, [operands])."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "<" or c == "{":
            i = match_close(s, i) + 1
            continue
        if c == "(":
            k = match_close(s, i)
            if k == n - 1:
                break
            i = k + 1
            continue
        if c == "-" and s[i:i + 2] == "->":
            i += 2
            continue
        i += 1
    else:
        raise MirUnsupported("call: " + s[:200])
    return s[:i].strip(), [parse_operand(x) for x in split_top(s[i + 1:n - 1])]


def parse_stmt(line):
    """line without trailing ';'"""
    if line.startswith(("StorageLive(", "StorageDead(", "ConstEvalCounter", "Retag", "FakeRead", "PlaceMention",
                        "AscribeUserType", "Coverage", "nop", "BackwardIncompatibleDropHint")):
        return None
    if line.startswith("assume("):
        return ("assume", parse_operand(line[7:-1]))
    if line.startswith("discriminant("):
        m = re.match(r"discriminant\((.*)\) = (\d+)$", line)
        return ("setdiscr", parse_full_place(m.group(1)), int(m.group(2)))
    if line.startswith("Deinit("):
        return None
    p, j = parse_place(line)
    if not line.startswith(" = ", j):
        raise MirUnsupported("stmt: " + line[:200])
    return ("assign", p, parse_rvalue(line[j + 3:]))


def parse_targets(t):
    """`[return: bb1, unwind continue]` -> bb1 or None"""
    m = re.search(r"(?:return|success): bb(\d+)", t)
    return int(m.group(1)) if m else None


def parse_term(line):
    if line == "return":
        return ("return",)
    if line == "unreachable":
        return ("unreachable",)
    if line in ("resume",) or line.startswith("terminate("):
        return ("abort", line)
    if m := re.fullmatch(r"goto -> bb(\d+)", line):
        return ("goto", int(m.group(1)))
    if line.startswith("switchInt("):
        k = match_close(line, len("switchInt"))
        op = parse_operand(line[len("switchInt("):k])
        tgt = line[line.index("[", k) + 1:-1]
        cases, other = [], None
        for x in tgt.split(", "):
            a, b = x.split(": bb")
            if a == "otherwise":
                other = int(b)
            else:
                cases.append((int(a), int(b)))
        return ("switch", op, cases, other)
    if line.startswith("assert("):
        k = match_close(line, len("assert"))
        args = split_top(line[7:k])
        cond = args[0]
        neg = cond.startswith("!")
        return ("assert", parse_operand(cond[1:] if neg else cond), neg, args[1] if len(args) > 1 else "",
                parse_targets(line[k + 1:]))
    if line.startswith("drop("):
        k = match_close(line, len("drop"))
        return ("drop", parse_full_place(line[5:k]), parse_targets(line[k + 1:]))
    m = re.search(r" -> (\[return: bb\d+, unwind[^\]]*\]|\[return: bb\d+\]|unwind [\w() ]+|bb\d+)$", line)
    if m:
        body = line[:m.start()]
        p, j = parse_place(body)
        if not body.startswith(" = ", j):
            raise MirUnsupported("term: " + line[:200])
        callee, args = parse_call(body[j + 3:])
        tgt = parse_targets(m.group(1))
        if tgt is None and (mm := re.fullmatch(r"bb(\d+)", m.group(1))):
            tgt = int(mm.group(1))
        return ("call", p, callee, args, tgt)
    raise MirUnsupported("term: " + line[:200])


class Fn:
    def __init__(self, name, header, text):
        self.name = name
        self.text = text
        self.header = header
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        lines = self.text.split("\n")
        self.locals = {}
        self.debug = {}
        self.blocks = {}
        h = self.header
        i = h.find("(_1") if "(_1" in h else h.rfind("() ->")
        if self.kind == "fn":
            k = match_close(h, i)
            self.args = []
            for a in split_top(h[i + 1:k]):
                m = re.match(r"_(\d+): (.*)$", a, re.S)
                self.args.append(int(m.group(1)))
                self.locals[int(m.group(1))] = norm_type(m.group(2))
            m = re.search(r" -> (.*) \{$", h[k:])
            self.ret = norm_type(m.group(1)) if m else "()"
        else:
            self.args = []
            m = re.search(r": (.*) = \{$", h)
            self.ret = norm_type(m.group(1))
        cur = None
        for ln in lines[1:]:
            s = ln.strip()
            if not s or s == "}":
                continue
            if s.startswith("let "):
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
                self.locals[int(m.group(1))] = norm_type(m.group(2))
            elif s.startswith("debug "):
                m = re.match(r"debug (\S+) => (.*);$", s)
                if m:
                    self.debug.setdefault(m.group(1), m.group(2))
            elif s.startswith("scope "):
                continue
            elif m := re.match(r"bb(\d+)(?: \(cleanup\))?: \{$", s):
                cur = int(m.group(1))
                self.blocks[cur] = []
            elif cur is not None:
                self.blocks[cur].append(s[:-1] if s.endswith(";") else s)
        self._pb = {}
        self._parsed = True
        return self

    def block(self, n):
        b = self._pb.get(n)
        if b is None:
            raw = self.blocks[n]
            # statements may contain newlines only inside string constants; rustc escapes these
            stmts = [x for x in (parse_stmt(l) for l in raw[:-1]) if x is not None]
            b = (stmts, parse_term(raw[-1]))
            self._pb[n] = b
        return b

    def succs(self, n):
        t = self.block(n)[1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "assert":
            return [t[4]]
        if k == "drop":
            return [t[2]] if t[2] is not None else []
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self):
        """Natural loops: {head: set(blocks)}; computed on the non-cleanup CFG."""
        if hasattr(self, "_loops"):
            return self._loops
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(self.succs(m))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        preds = {n: [] for n in rpo}
        for n in rpo:
            for m in self.succs(n):
                preds[m].append(n)
        full = set(rpo)
        dom = {n: full for n in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                d = set.intersection(*[dom[p] for p in preds[n]]) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in rpo:
            for h in self.succs(n):
                if h in dom[n]:
                    body = loops.setdefault(h, {h})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


def const_name(rest):
    """`NAME: T = {` -> NAME, where NAME may hold `<impl at a:b:c>`"""
    i, n = 0, len(rest)
    while i < n:
        if rest[i] in "<{[":
            i = match_close(rest, i) + 1
        elif rest.startswith("::", i):
            i += 2
        elif rest[i] == ":":
            return rest[:i]
        else:
            i += 1
    return rest


class Mir:
    """Index of the functions and constants of one .mir file."""

    def __init__(self, path, crate, renames=()):
        self.crate = crate
        with open(path) as f:
            text = f.read()
        for mod, name, new in renames:
            text = re.sub(r"\b%s::%s\b" % (mod, name), "%s::%s" % (mod, new), text)
        self.fns = {}
        self.consts = {}
        self.allocs = {}
        for m in re.finditer(r"^(alloc\d+) \((?:static: [^,]*, )?size: 32, align: 1\) \{\n((?:    .*\n)+)\}", text, re.M):
            self.allocs[m.group(1)] = m.group(2)
        for m in re.finditer(r"^(fn|const|static(?: mut)?) (.*)$", text, re.M):
            hdr = m.group(0)
            if hdr.endswith(";"):
                continue
            end = text.find("\n}\n", m.start())
            body = text[m.start():end + 3]
            kind = m.group(1).split()[0]
            if kind == "fn":
                rest = m.group(2)
                i = rest.find("(_1") if "(_1" in rest else rest.find("() ->")
                if i < 0:
                    i = rest.find("()")
                name = rest[:i]
                f = Fn(name, hdr, body)
                f.kind = "fn"
                f.crate = crate
                self.fns.setdefault(name, []).append(f)
            else:
                rest = m.group(2)
                name = const_name(rest)
                f = Fn(name, hdr, body)
                f.kind = "const"
                f.crate = crate
                self.consts.setdefault(name, []).append(f)

    def alloc(self, name):
        t = self.allocs.get(name)
        if t is None:
            return None
        b = []
        for line in t.splitlines():
            p = line.split("\u2502")
            if len(p) < 2:
                return None
            b += p[1].split()
        try:
            return bytes(int(x, 16) for x in b)
        except ValueError:
            return None
