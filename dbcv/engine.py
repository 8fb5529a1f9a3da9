"""Verification-condition generator: symbolic execution of rustc MIR with function contracts.

A function body is executed path by path over mathematical integers (machine arithmetic is modelled exactly:
every overflow check that rustc emitted is followed, casts and wrapping operations are taken modulo 2^n).
At a call the callee's contract is used if it has one; a crate function without contract is executed in place;
an external function is modelled by dbcv.models, or else its result and everything reachable through its
`&mut` arguments are unknown.
"""
import re
import time

import z3

from . import smt, sym
from .mir import MirUnsupported, norm_type, generic_args, split_top, match_close
from .sym import INT, FACTS, KEYTYPES, And, Eq, If, Not, Or, as_bool, as_int, conc, is_z3, lo_hi


class Unsupported(Exception):
    """A tool limit, never a verdict."""


# ------------------------------------------------------------------ values

class Agg:
    """struct, tuple, array, closure (concrete shape)"""
    __slots__ = ("kind", "name", "fields")

    def __init__(self, kind, name, fields):
        self.kind, self.name, self.fields = kind, name, tuple(fields)

    def __repr__(self):
        return "%s%s(%s)" % (self.kind, ":" + self.name if self.name else "", ", ".join(map(repr, self.fields)))


class Enum:
    """enum value of a known variant"""
    __slots__ = ("ty", "vidx", "vname", "fields")

    def __init__(self, ty, vidx, vname, fields=()):
        self.ty, self.vidx, self.vname, self.fields = ty, vidx, vname, tuple(fields)

    def __repr__(self):
        return "%s(%s)" % (self.vname, ", ".join(map(repr, self.fields)))


class Sym:
    """A value of aggregate or foreign type about which only its name and type are known; parts appear on demand."""
    __slots__ = ("name", "ty", "idx", "over")

    def __init__(self, name, ty, idx=(), over=None):
        self.name, self.ty, self.idx, self.over = name, ty, idx, over or {}

    def __repr__(self):
        return "<%s: %s%s%s>" % (self.name, self.ty, list(self.idx) if self.idx else "", " +%d" % len(self.over) if self.over else "")


class Ref:
    """pointer to a place; meta is the length when it points to a slice"""
    __slots__ = ("cell", "path", "meta", "tag")

    def __init__(self, cell, path=(), meta=None, tag=None):
        self.cell, self.path, self.meta, self.tag = cell, tuple(path), meta, tag

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join("." + str(p) for p in self.path))


class FnItem:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "fn " + self.path


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Ite:
    """a non-scalar value that depends on a condition (made when paths are merged)"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


UNIT = Agg("tuple", None, ())

STD_ENUMS = {
    "Option": [("None", 0), ("Some", 1)],
    "Result": [("Ok", 0), ("Err", 1)],
    "ControlFlow": [("Continue", 0), ("Break", 1)],
    "Ordering": [("Less", -1), ("Equal", 0), ("Greater", 1)],
    "Cow": [("Borrowed", 0), ("Owned", 1)],
    # spl-token-2022 6.0.0
    "ExtensionType": [(n, i) for i, n in enumerate("""Uninitialized TransferFeeConfig TransferFeeAmount MintCloseAuthority ConfidentialTransferMint
        ConfidentialTransferAccount DefaultAccountState ImmutableOwner MemoTransfer NonTransferable InterestBearingConfig CpiGuard PermanentDelegate
        NonTransferableAccount TransferHook TransferHookAccount ConfidentialTransferFeeConfig ConfidentialTransferFeeAmount MetadataPointer TokenMetadata
        GroupPointer TokenGroup GroupMemberPointer TokenGroupMember ConfidentialMintBurn""".split())],
}


def ok(v, ty="Result"):
    return Enum(ty, 0, "Ok", (v,))


def err(v, ty="Result"):
    return Enum(ty, 1, "Err", (v,))


def some(v):
    return Enum("Option", 1, "Some", (v,))


NONE = Enum("Option", 0, "None")

ERR_VALUE = Sym("err", "Error")


class Frame:
    __slots__ = ("fn", "locals", "dest", "target", "block", "tsub", "depth", "visits", "post", "uid")
    made = 0

    def __init__(self, fn, locals, dest, target, tsub, depth):
        Frame.made += 1
        self.uid = Frame.made
        self.fn, self.locals, self.dest, self.target, self.tsub, self.depth = fn, locals, dest, target, tsub, depth
        self.block = 0
        self.visits = {}
        self.post = None

    def copy(self):
        f = Frame(self.fn, self.locals, self.dest, self.target, self.tsub, self.depth)
        f.block = self.block
        f.visits = self.visits
        f.post = self.post
        f.uid = self.uid
        return f


class State:
    def __init__(self):
        self.heap = {}
        self.pc = []
        self.frames = []
        self.log = []
        self.ghost = {}
        self.errs = 0

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        for f, g in zip(s.frames, self.frames):
            f.locals = dict(g.locals)
            f.visits = dict(g.visits)
        s.log = list(self.log)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        if conc(c):
            return bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.pc.append(c)
        return True


INIT_CLOSURE = re.compile(r"::try_accounts::\{closure#\d+\}$")
FRESH = re.compile(r"![0-9]+")
SYSTEM_INIT = ("create_account", "transfer", "allocate", "assign")


class Exit:
    """End of one path: kind in return / panic / unsupported"""

    def __init__(self, kind, state, value=None, why=""):
        self.kind, self.state, self.value, self.why = kind, state, value, why


def pointee(ty):
    for p in ("&mut ", "&", "*const ", "*mut "):
        if ty.startswith(p):
            return ty[len(p):].strip()
    if m := re.match(r"(?:Box|NonNull|Unique|Ref|RefMut|Rc|Arc)<(.*)>$", ty):
        return split_top(m.group(1))[-1] if not ty.startswith("Box") else split_top(m.group(1))[0]
    return None


def is_ptr(ty):
    return pointee(ty) is not None


def array_ty(ty):
    """`[T; N]` -> (T, 'N'); `[T]` -> (T, None)"""
    if ty.startswith("[") and ty.endswith("]"):
        p = split_top(ty[1:-1], ";")
        return (p[0], p[1] if len(p) > 1 else None)
    return None


#: methods of derive-generated impls, whose header the source does not show
DERIVED = {"try_accounts": "Accounts", "exit": "AccountsExit", "to_account_infos": "ToAccountInfos", "to_account_metas": "ToAccountMetas",
           "try_from": "TryFrom", "try_from_primitive": "TryFromPrimitive", "from": "From", "default": "Default", "eq": "PartialEq",
           "clone": "Clone", "partial_cmp": "PartialOrd", "cmp": "Ord"}


def b58(s):
    n = 0
    for ch in s:
        n = n * 58 + "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".index(ch)
    return n


# addresses of the runtime's own programs and sysvars, named by constants of dependencies
KNOWN_IDS = {n: b58(v) for ns, v in (
    ("token::ID spl_token::ID", "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
    ("token_2022::ID spl_token_2022::ID", "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"),
    ("native_mint_2022", "9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXej9"),
    ("instructions::ID", "Sysvar1nstructions1111111111111111111111111"),
    ("locker::ID", "LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn"),
    ("dynamic_amm::ID", "Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB"),
    ("damm_v2::ID", "cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG"),
    ("system_program::ID", "11111111111111111111111111111111"),
    ("associated_token::ID", "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")) for n in ns.split()}


# constants of dependencies
KNOWN_CONSTS = {"SECONDS_PER_DAY": 86400, "Mint::LEN": 82, "TokenAccount::LEN": 165}


class Program:
    """Indexes the functions of the MIR files and resolves callees."""

    def __init__(self, mirs, sources):
        self.mirs = mirs
        self.src = sources
        # solana's instruction, as introspection shows it
        sources.structs.setdefault("Instruction", [("program_id", "Pubkey"), ("accounts", "Vec<AccountMeta>"), ("data", "Vec<u8>")])
        sources.structs.setdefault("AccountMeta", [("pubkey", "Pubkey"), ("is_signer", "bool"), ("is_writable", "bool")])
        self.by_method = {}   # (selfty, name) -> [Fn]
        self.by_trait = {}    # (trait, selfty, name) -> [Fn]
        self.free = {}        # name -> [(path, Fn)]
        self.closures = {}    # location text -> Fn
        self.closures_at = {}
        self.assoc = {}       # (type, associated const) -> Fn
        self.dup_const = {}
        for m in mirs:
            for name, lst in m.fns.items():
                for f in lst:
                    self.index(f)
        self.consts = {}
        # discriminators of the instructions: their constants carry the name of the macro's position only, but mention the type
        self.discriminators = {}
        for m in mirs:
            for name, lst in m.consts.items():
                if name.endswith("::DISCRIMINATOR") and len(lst) > 1:
                    for a, b in zip(lst, m.consts.get(name + "::promoted[0]", ())):
                        ref = re.search(r"const (<[^;]* as [\w:]*Discriminator>::DISCRIMINATOR)::promoted", a.text)
                        val = re.search(r"= \[((?:const \d+_u8(?:, )?){8})\];", b.text)
                        if ref and val:
                            self.discriminators[ref.group(1)] = [int(x) for x in re.findall(r"const (\d+)_u8", val.group(1))]
        for m in mirs:
            for name, lst in m.consts.items():
                self.consts.setdefault(name, lst[0])
                last = self.const_key(name)
                self.consts.setdefault(last, lst[0])
                m_ = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)$", name)
                if m_:
                    tr, ty = self.src.impl_header(m_.group(1), *map(int, m_.group(2, 3, 4, 5)))
                    ty = ty or self.src.derived_for(m_.group(1), int(m_.group(2)), int(m_.group(3)))
                    if ty:
                        self.assoc[(generic_args(ty)[0], m_.group(6))] = lst[0]
                if len(lst) == 1 and not last.startswith("promoted"):
                    self.dup_const.setdefault(last, set()).add(name)

    @staticmethod
    def const_key(name):
        n = re.sub(r"<impl at [^>]*>", "<impl>", name)
        return n

    def index(self, f):
        name = f.name
        if "::{closure#" in name or name.startswith("{closure"):
            m = re.search(r"\(_1: &?(?:mut )?(\{closure@[^}]*\})", f.header)
            if m:
                self.closures.setdefault(m.group(1), f)
                self.closures_at.setdefault(m.group(1), []).append(f)
                self.closures.setdefault(f.name, f)
            return
        m = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(.*)$", name)
        if m:
            trait, selfty = self.src.impl_header(m.group(1), *map(int, m.group(2, 3, 4, 5)))
            meth = m.group(6)
            selfty_derived = selfty is None
            a1 = re.search(r"\(_1: (.*?)(?:, _2: |\) -> )", f.header)
            rt = re.search(r" -> (.*) \{$", f.header)
            a1 = re.sub(r"^&(?:mut )?", "", norm_type(a1.group(1))) if a1 else None
            rt = norm_type(rt.group(1)) if rt else "()"
            if selfty is None or selfty.startswith("$"):
                selfty = a1 if a1 else rt
                if meth in ("try_from", "try_from_primitive", "default", "from") and selfty in INT or (selfty is None):
                    selfty = generic_args(rt)[1][0] if rt.startswith("Result<") else rt
            if meth == "try_accounts" and selfty_derived:
                selfty = generic_args(rt)[1][0]
            f.selfty, f.trait, f.meth = selfty, trait, meth
            base = generic_args(selfty)[0]
            if (trait is None or selfty_derived) and meth in DERIVED:
                trait = f.trait = DERIVED[meth]
            self.by_method.setdefault((base, meth), []).append(f)
            if trait:
                self.by_trait.setdefault((generic_args(trait)[0], base, meth), []).append(f)
        else:
            f.selfty, f.trait = None, None
            last = name.split("::")[-1]
            f.meth = last
            self.free.setdefault(last, []).append(f)
            # trait default methods: `traits::BaseFeeHandler::method`
            p = name.split("::")
            if len(p) >= 2 and p[-2][:1].isupper():
                self.by_method.setdefault((p[-2], last), []).append(f)

    def enum_def(self, ty):
        base = generic_args(ty)[0]
        if base in STD_ENUMS:
            return STD_ENUMS[base]
        if base in self.src.enums:
            return [(v[0], v[1]) for v in self.src.enums[base]]
        return None

    def alloc(self, name):
        """bytes of a static or constant allocation printed in the MIR"""
        for m in self.mirs:
            b = m.alloc(name)
            if b is not None:
                return b
        return None

    def own_id(self):
        if not hasattr(self, "_own"):
            self._own = None
            for m in self.mirs[:1]:
                for n, l in m.consts.items():
                    if n == "ID":
                        x = re.findall(r"const (\d+)_u8", l[0].text)
                        if len(x) == 32:
                            self._own = int.from_bytes(bytes(map(int, x)), "big")
        return self._own

    def find(self, spec):
        """'Type::method' or 'free_fn' -> Fn"""
        if "::" in spec:
            ty, me = spec.rsplit("::", 1)
            l = self.by_method.get((ty, me), [])
        else:
            l = self.free.get(spec, [])
        if len(l) > 1:
            prog = [f for f in l if "__" not in f.name]
            l = prog or l
        return l[0] if l else None


class Callee:
    __slots__ = ("raw", "selfty", "trait", "name", "generics", "segs", "tgen")

    def __repr__(self):
        if self.trait:
            return "<%s as %s>::%s" % (self.selfty, self.trait, self.name)
        return (self.selfty + "::" if self.selfty else "") + self.name


_callee_cache = {}


def parse_callee(raw):
    c = _callee_cache.get(raw)
    if c:
        return c
    c = Callee()
    c.raw = raw
    segs, i, n, start = [], 0, len(raw), 0
    depth = 0
    parts = []
    while i < n:
        ch = raw[i]
        if ch in "<{[(":
            k = match_close(raw, i)
            i = k + 1
            continue
        if raw.startswith("::", i):
            parts.append(raw[start:i])
            i += 2
            start = i
            continue
        i += 1
    parts.append(raw[start:])
    c.trait = c.selfty = None
    c.generics = []
    c.tgen = []
    names = []
    for p in parts:
        if p.startswith("<") and not p.startswith("<impl") and names:
            c.generics = [norm_type(x) for x in split_top(p[1:-1])]
            continue
        names.append(p)
    if not names[0].startswith("<") or names[0].startswith("<impl"):
        # generics directly attached: Foo<..>
        pass
    first = names[0]
    if first.startswith("<") and (not first.startswith("<impl") or " as " in first):
        inner = first[1:-1]
        # split at top-level ' as '
        d, k, pos = 0, 0, -1
        while k < len(inner):
            if inner[k:k + 2] == "->":
                k += 2
                continue
            if inner[k] in "<([{":
                d += 1
            elif inner[k] in ">)]}":
                d -= 1
            elif d == 0 and inner.startswith(" as ", k):
                pos = k
                break
            k += 1
        if pos >= 0:
            c.selfty = norm_type(inner[:pos])
            t = norm_type(inner[pos + 4:])
            c.trait, c.tgen = generic_args(t)
        else:
            c.selfty = norm_type(inner)
        c.name = names[-1]
    else:
        c.name = names[-1]
        if len(names) >= 2:
            s = names[-2]
            if s.startswith("<impl"):
                s = s[6:-1]
                m = re.search(r" for ", s)
                c.selfty = norm_type(s[m.end():] if m else s)
            elif s[:1].isupper() or s in ("str",):
                c.selfty = norm_type(s)
                if c.selfty == "Uint" :
                    c.selfty = "U256" if "256" in raw else "U512"
    c.segs = names
    _callee_cache[raw] = c
    return c


def unify(pat, ty, sub):
    """binds single generic names in pat against ty"""
    if pat == ty:
        return
    if re.fullmatch(r"[A-Z]|It[A-Z]", pat):
        sub[pat] = ty
        return
    pa, pg = generic_args(pat)
    ta, tg = generic_args(ty)
    if pa == ta and len(pg) == len(tg):
        for a, b in zip(pg, tg):
            unify(a, b, sub)


def captures(f):
    return re.findall(r"^\s*debug (\w+) => [^;]*?\(?\*?_1\)?\.\d+: ", f.text, re.M)


def capture_types(f):
    """{index: (name, type)} of the captures a closure uses"""
    out = {}
    for name, i, ty in re.findall(r"^\s*debug (\w+) => \(?\*?\(?\(?\*?_1\)?\.(\d+): (.*?)\)+;$", f.text, re.M):
        d = ty.count("(") - ty.count(")")
        out[int(i)] = (name, norm_type(ty + ")" * d))
    return out


class Engine:
    def __init__(self, prog, contracts=None, check_time=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.nfresh = 0
        self.unmodelled = set()  # functions without a model whose result is taken as unknown (no effects)
        self.externals = {}     # external callee -> treatment (evidence)
        self.inlined = {}
        self.contracts_used = {}
        self.obligations = []   # side obligations raised by call preconditions
        self.solver_time = 0.0
        self.npaths = 0
        self.joined = 0
        self.deadline = None
        self.max_inline = 60
        self.prune_ms = 300
        self.light = 0
        self.loop_handler = None
        self.trial = None           # (frame, blocks): states that leave these blocks are of no interest
        self.hooks = {}
        self.merge_fns = set()
        self.err_paths = True
        self.concrete = False
        self.conc_time = {}
        self.leaf_ty = {}
        self.pow2_of = {}
        from . import anchor, models
        self.models, self.anchor = models, anchor

    # -------------------------------------------------------------- symbols
    def fresh_name(self, base):
        self.nfresh += 1
        return "%s!%d" % (base, self.nfresh)

    def leaf(self, name, ty, idx=()):
        """scalar constant (or function application over array indices)"""
        if ty == "bool":
            s = z3.BoolSort()
        else:
            s = z3.IntSort()
        if idx:
            f = z3.Function(name, *([z3.IntSort()] * len(idx)), s)
            t = f(*[as_int(i) for i in idx])
        else:
            t = z3.Const(name, s)
        known = self.leaf_ty.setdefault(name, ty)
        if known != ty:
            raise Unsupported("leaf %s used as %s and %s" % (name, known, ty))
        if ty in INT:
            lo, hi = lo_hi(ty)
            if t.get_id() not in FACTS.by_id:
                FACTS.add(t, z3.And(t >= lo, t <= hi))
                sym.RANGE[t.get_id()] = (lo, hi)
        return t

    def is_scalar(self, ty):
        return ty in INT or ty == "bool" or ty in KEYTYPES

    def make(self, name, ty, idx=()):
        """symbolic value of a type"""
        ty = ty.strip()
        if ty == "()":
            return UNIT
        if self.is_scalar(ty):
            return self.leaf(name, ty, idx)
        if ty.startswith("(") and ty.endswith(")"):
            return Agg("tuple", None, [self.make("%s.%d" % (name, i), t, idx) for i, t in enumerate(split_top(ty[1:-1]))])
        return Sym(name, ty, idx)

    def fresh(self, base, ty):
        return self.make(self.fresh_name(base), ty)

    # -------------------------------------------------------------- places
    def tsub(self, fr, ty):
        if fr.tsub:
            for k, v in fr.tsub.items():
                ty = re.sub(r"\b%s\b" % k, lambda m: v, ty)
        return ty

    def project(self, st, v, p):
        k = p[0]
        if isinstance(v, Ite):
            if k == "v":
                # the path has established the variant
                l, r = self.has_variant(v.a, p[1]), self.has_variant(v.b, p[1])
                if not (l and r):
                    if not (l or r):
                        raise Unsupported("downcast %s of merged value" % p[1])
                    return self.project(st, v.a if l else v.b, p)
            return self.ite(v.c, self.project(st, v.a, p), self.project(st, v.b, p))
        if k == "f":
            if isinstance(v, (Agg, Enum)):
                if p[1] >= len(v.fields):
                    raise Unsupported("field %s of %r" % (p[1], v))
                return v.fields[p[1]]
            if isinstance(v, Ref):
                if p[1] == 0:
                    return v      # Box internals
                raise Unsupported("field of ref")
            if isinstance(v, Sym):
                if ("f", p[1]) in v.over:
                    return v.over[("f", p[1])]
                if v.ty == "AccountInfo":
                    r = self.anchor.project_info(self, st, v, p[1])
                    if r is not None:
                        return r
                if v.ty.startswith(("Box<", "Unique<", "NonNull<")) and p[1] == 0 and is_ptr(p[2]):
                    return Sym(v.name, p[2], v.idx)
                return self.make("%s.%d" % (v.name, p[1]), p[2], v.idx)
            raise Unsupported("field of %r" % (v,))
        if k == "v":
            if isinstance(v, Enum):
                if v.vname != p[1] and v.vidx != p[1]:
                    raise Unsupported("downcast %s of %r" % (p[1], v))
                return v
            if isinstance(v, Sym):
                if ("v", p[1]) in v.over:
                    return v.over[("v", p[1])]
                return Sym("%s#%s" % (v.name, p[1]), v.ty + "#" + str(p[1]), v.idx,
                           {a: b for a, b in v.over.items() if a[0] == "f"})
            raise Unsupported("downcast of %r" % (v,))
        if k == "i":
            i = p[1]
            if isinstance(v, Agg):
                if conc(i):
                    if not 0 <= i < len(v.fields):
                        raise Unsupported("index %s out of %d" % (i, len(v.fields)))
                    return v.fields[i]
                # symbolic index into a concrete array: if-then-else over the elements
                out = v.fields[-1]
                for j in range(len(v.fields) - 2, -1, -1):
                    out = self.ite(Eq(i, j), v.fields[j], out)
                return out
            if isinstance(v, Sym) and v.name.startswith("accounts@"):
                return self.anchor.project_accounts(self, st, v, i)
            if isinstance(v, Sym):
                key = ("i", i if conc(i) else i.get_id())
                if key in v.over:
                    return v.over[key][1] if isinstance(v.over[key], tuple) else v.over[key]
                if any(a[0] == "i" for a in v.over):
                    # reads over earlier writes
                    at = array_ty(v.ty) or (generic_args(v.ty)[1][0], None)
                    base = self.make(v.name + "[]", at[0], v.idx + (i,))
                    for a, w in v.over.items():
                        if a[0] == "i":
                            j, val = w
                            base = self.ite(Eq(i, j), val, base)
                    return base
                at = array_ty(v.ty)
                if at is None:
                    g = generic_args(v.ty)
                    if g[0] in ("Vec", "VecDeque", "BoundedVec") and g[1]:
                        at = (g[1][0], None)
                    else:
                        raise Unsupported("index into %r" % v)
                return self.make(v.name + "[]", at[0], v.idx + (i,))
            raise Unsupported("index into %r" % (v,))
        raise Unsupported("projection %s" % (p,))

    def has_variant(self, v, n):
        if isinstance(v, Ite):
            return self.has_variant(v.a, n) or self.has_variant(v.b, n)
        if isinstance(v, Enum):
            return v.vname == n or v.vidx == n
        return True

    def no_wrap(self, st, r, ty):
        """r is in the range of ty on this path (interval of the leaves, or a solver proof)"""
        if conc(r):
            lo, hi = lo_hi(ty)
            return lo <= r <= hi
        if sym.surely_in(r, ty):
            return True
        key = r.get_id()
        t0 = time.time()
        v, _ = smt.nonlinear_unsat(list(st.pc) + [z3.Not(sym.in_range(r, ty))], 400)
        return v == z3.unsat

    def ite(self, c, a, b):
        if conc(c):
            return a if c else b
        if a is b:
            return a
        if not isinstance(a, (Agg, Enum, Sym, Ref, FnItem, Str, Ite)) and not isinstance(b, (Agg, Enum, Sym, Ref, FnItem, Str, Ite)):
            return If(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and len(a.fields) == len(b.fields):
            return Agg(a.kind, a.name, [self.ite(c, x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Enum) and isinstance(b, Enum) and a.vname == b.vname and len(a.fields) == len(b.fields):
            return Enum(a.ty, a.vidx, a.vname, [self.ite(c, x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and a.idx == b.idx and not a.over and not b.over:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and a.path == b.path:
            return a
        return Ite(c, a, b)

    def update(self, st, v, path, new, tys=None):
        if not path:
            return new
        p = path[0]
        k = p[0]
        if isinstance(v, Ite):
            raise Unsupported("write into merged value")
        if k == "v":
            if isinstance(v, Sym):
                inner = self.update(st, self.project(st, v, p), path[1:], new)
                o = dict(v.over)
                o[("v", p[1])] = inner
                return Sym(v.name, v.ty, v.idx, o)
            return self.update(st, v, path[1:], new)
        if isinstance(v, Agg):
            i = p[1]
            if not conc(i):
                return Agg(v.kind, v.name, [self.ite(Eq(i, j), self.update(st, x, path[1:], new), x) for j, x in enumerate(v.fields)])
            f = list(v.fields)
            if len(path) > 1:
                f[i] = self.update(st, f[i], path[1:], new)
            else:
                f[i] = new
            return Agg(v.kind, v.name, f)
        if isinstance(v, Enum):
            f = list(v.fields)
            f[p[1]] = self.update(st, f[p[1]], path[1:], new)
            return Enum(v.ty, v.vidx, v.vname, f)
        if isinstance(v, Sym):
            o = dict(v.over)
            if k == "f":
                o[("f", p[1])] = self.update(st, self.project(st, v, p), path[1:], new) if len(path) > 1 else new
            else:
                i = p[1]
                val = self.update(st, self.project(st, v, p), path[1:], new) if len(path) > 1 else new
                o[("i", i if conc(i) else i.get_id())] = (i, val)
            return Sym(v.name, v.ty, v.idx, o)
        raise Unsupported("write into %r" % (v,))

    def resolve(self, st, fr, place):
        """place -> (cell, path, meta)"""
        cell = fr.locals.get(place.local)
        if cell is None:
            cell = "L%d!%d" % (place.local, self.nfresh)
            self.nfresh += 1
            fr.locals[place.local] = cell
        path = []
        meta = None
        for p in place.proj:
            k = p[0]
            if k == "deref":
                v = self.load(st, cell, path)
                r = self.deref(st, v)
                cell, path, meta = r.cell, list(r.path), r.meta
            elif k == "f":
                path.append(("f", p[1], self.tsub(fr, p[2])))
            elif k == "v":
                path.append(p)
            elif k == "il":
                i = st.heap[fr.locals[p[1]]]
                if path and path[-1][0] == "slice":
                    off = path.pop()[1]
                    i = i + off
                path.append(("i", i))
            elif k == "ic":
                if p[2]:
                    if meta is None:
                        raise Unsupported("index from end")
                    i = meta - p[1]
                else:
                    i = p[1]
                path.append(("i", i))
            else:
                raise Unsupported("projection %r" % (p,))
        return cell, path, meta

    def deref(self, st, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Sym):
            t = pointee(v.ty)
            if t is None:
                raise Unsupported("deref of %r" % v)
            cell = "*" + v.name + ("" if not v.idx else str([str(i) for i in v.idx]))
            if cell not in st.heap:
                meta = None
                st.heap[cell] = self.make(cell, t, v.idx)
            meta = None
            at = array_ty(t)
            if at and at[1] is None or t == "str":
                meta = self.leaf("len(" + v.name + ")", "usize", v.idx)
            return Ref(cell, (), meta)
        raise Unsupported("deref of %r" % (v,))

    def load(self, st, cell, path):
        if cell not in st.heap:
            raise Unsupported("read of unset %s" % cell)
        v = st.heap[cell]
        for p in path:
            v = self.project(st, v, p)
        return v

    def read(self, st, fr, place):
        if not place.proj:
            c = fr.locals.get(place.local)
            if c is None or c not in st.heap:
                raise Unsupported("read of unset _%d in %s" % (place.local, fr.fn.name))
            return st.heap[c]
        cell, path, meta = self.resolve(st, fr, place)
        return self.load(st, cell, path)

    def write_to(self, st, cell, path, v):
        if not path:
            st.heap[cell] = v
            return
        if cell not in st.heap:
            raise Unsupported("write to part of unset %s" % cell)
        st.heap[cell] = self.update(st, st.heap[cell], path, v)

    def write(self, st, fr, place, v):
        if not place.proj:
            c = fr.locals.get(place.local)
            if c is None:
                c = "L%d!%d" % (place.local, self.nfresh)
                self.nfresh += 1
                fr.locals[place.local] = c
            st.heap[c] = v
            return
        c = fr.locals.get(place.local)
        if c is None or c not in st.heap:
            # partial initialisation
            if c is None:
                c = "L%d!%d" % (place.local, self.nfresh)
                self.nfresh += 1
                fr.locals[place.local] = c
            st.heap[c] = Sym(self.fresh_name("uninit"), self.tsub(fr, fr.fn.locals[place.local]))
        cell, path, meta = self.resolve(st, fr, place)
        self.write_to(st, cell, path, v)

    def place_type(self, fr, place):
        ty = fr.fn.locals[place.local] if place.local else fr.fn.ret
        for p in place.proj:
            if p[0] == "f":
                ty = p[2]
            elif p[0] == "deref":
                ty = pointee(ty) or ty
            elif p[0] in ("il", "ic"):
                at = array_ty(ty)
                ty = at[0] if at else ty
        return self.tsub(fr, ty)

    # -------------------------------------------------------------- operands
    def const(self, st, fr, text):
        m = re.fullmatch(r"(-?\d+)_([iu]\d+|usize|isize)", text)
        if m:
            return int(m.group(1))
        if text in ("true", "false"):
            return text == "true"
        if text == "()":
            return UNIT
        if text.startswith('"'):
            cell = self.fresh_name("str")
            s = text[1:-1]
            st.heap[cell] = Str(s)
            return Ref(cell, (), len(s))
        if text.startswith('b"'):
            cell = self.fresh_name("bytes")
            b = eval(text.replace("\\u{", "\\x").replace("{", "{"))
            st.heap[cell] = Agg("array", None, list(b))
            return Ref(cell, ())
        if text.startswith("'"):
            return ord(eval(text))
        if text.startswith("ZeroSized: "):
            t = text[11:]
            if t.startswith("{closure@"):
                return Agg("closure", t, ())
            return FnItem(t)
        if m := re.fullmatch(r"(.*)::(MAX|MIN|BITS)", text):
            t = m.group(1)
            mm = re.search(r"<impl (\w+)>$", t)
            t = mm.group(1) if mm else norm_type(t.replace("::<", "<"))
            if t in INT:
                lo, hi = lo_hi(t)
                return {"MAX": hi, "MIN": lo, "BITS": INT[t][0]}[m.group(2)]
        if m := re.fullmatch(r"(.*)::(ZERO|ONE)", text):
            t = norm_type(m.group(1).replace("::<", "<"))
            if t in INT:
                return 0 if m.group(2) == "ZERO" else 1
        r = self.named_const(st, fr, text)
        if r is not None:
            return r
        m = re.fullmatch(r"\{(alloc\d+): (.*)\}", text)
        if m:
            b = self.prog.alloc(m.group(1))
            if norm_type(m.group(2)) == "&Pubkey" and b is not None and len(b) == 32:
                st.heap[m.group(1)] = int.from_bytes(b, "big")
                return Ref(m.group(1))
            m = re.fullmatch(r"\{alloc\d+: (.*)\}", text)
            return Sym("static:" + text.strip("{}").split(":")[0], norm_type(m.group(1)))
        if m := re.match(r"(-?\d+)_(\w+)$", text):
            return int(m.group(1))
        # enum constant such as `const PoolError::X` / Option::<T>::None
        v = self.unit_variant(text)
        if v is not None:
            return v
        if re.search(r"::ID(_CONST)?$", text):
            n = "::".join(text.split("::")[-2:])
            return KNOWN_IDS[n] if n in KNOWN_IDS else z3.Int("const:" + n)
        for n in ("::".join(text.split("::")[-2:]), text.split("::")[-1]):
            if n in KNOWN_CONSTS:
                return KNOWN_CONSTS[n]
        return Sym("const:" + text, "?")

    def unit_variant(self, text):
        c = parse_callee(text)
        if c.selfty:
            d = self.prog.enum_def(c.selfty)
            if d:
                for i, (n, k) in enumerate(d):
                    if n == c.name:
                        return Enum(generic_args(c.selfty)[0], i, n)
        return None

    def named_const(self, st, fr, text):
        cs = self.prog.consts
        if text in self.prog.src.idl_consts:
            return self.prog.src.idl_consts[text]
        if text in self.prog.discriminators:
            cell = "const:" + text
            st.heap.setdefault(cell, Agg("array", None, self.prog.discriminators[text]))
            return Ref(cell, (), 8)
        m = re.match(r"<(.+) as [^>]+>::([A-Z_0-9]+)$", text)
        f = self.prog.assoc.get((generic_args(norm_type(m.group(1)))[0], m.group(2))) if m else None
        if f is None:
            f = cs.get(text)
        if f is None:
            key = re.sub(r"<impl at [^>]*>", "<impl>", text)
            f = cs.get(key)
        if f is None:
            m = re.search(r"(?:^|::)([\w]+(?:::\{closure#\d+\})*::promoted\[\d+\])$", text)
            if m:
                # `a::b::func::promoted[0]`: names in the file may be shorter or longer
                cand = [k for k in cs if k.endswith("::" + m.group(1)) or k == m.group(1)]
                same = [k for k in cand if self.same_fn(k, text, fr)]
                if len(same) >= 1:
                    f = cs[same[0]]
            else:
                last = text.split("::")[-1]
                if re.fullmatch(r"[A-Z_0-9a-z]+", last):
                    sel = text.split("::")[-2] if "::" in text else None
                    cand = {id(cs[k]): k for k in cs if k.split("::")[-1] == last and "promoted" not in k}
                    if len(cand) > 1 and sel:
                        cand = {i: k for i, k in cand.items() if "::" in k and k.split("::")[-2] == sel or "<impl" in k} or cand
                    if len(cand) == 1 or len({cs[k].text.split("\n", 1)[1] for k in cand.values()}) == 1 and cand:
                        f = cs[list(cand.values())[0]]
        if f is None:
            return None
        ck = (f.name, id(f))
        cell = "const:%s:%d" % ck
        if cell in st.heap:
            return st.heap[cell]
        v = self.eval_const(st, f)
        if v is not None:
            st.heap[cell] = v
        return v

    def same_fn(self, key, text, fr):
        kf = key.rsplit("::promoted", 1)[0]
        tf = text.rsplit("::promoted", 1)[0]
        if kf == tf or kf.endswith("::" + tf) or tf.endswith("::" + kf):
            return True
        # `Type::method` in the operand against `module::<impl at ..>::method` in the file
        if fr is not None and kf == fr.fn.name:
            return True
        kk = re.sub(r"::\{closure#\d+\}", "", kf)
        return False

    def eval_const(self, st, f):
        try:
            f.parse()
            if self.promoted_owner(f) is None:
                pass
            fr = Frame(f, {}, None, None, {}, 0)
            sub = State()
            sub.heap = dict(st.heap)
            sub.frames = [fr]
            exits = []
            self.run_state(sub, exits, limit=2000)
            if len(exits) == 1 and exits[0].kind == "return":
                # keep the cells the value may point to
                for k, v in exits[0].state.heap.items():
                    if k not in st.heap:
                        st.heap[k] = v
                return exits[0].value
        except (Unsupported, MirUnsupported):
            pass
        return self.make("const:" + "::".join(f.name.split("::")[-2:]) if f.ret in ("Pubkey", "u8") else "const:" + f.name, f.ret)

    def promoted_owner(self, f):
        return None

    def operand(self, st, fr, op):
        k = op[0]
        if k == "place":
            return self.read(st, fr, op[1])
        if k == "const":
            t = op[1]
            if "::promoted[" in t:
                h, tail = t.rsplit("::promoted[", 1)
                if h.endswith(">"):
                    # drop the generic arguments of the function
                    d = 0
                    for i in range(len(h) - 1, -1, -1):
                        if h[i] == ">" and h[i - 1] != "-":
                            d += 1
                        elif h[i] == "<":
                            d -= 1
                            if d == 0:
                                break
                    if h[:i].endswith("::"):
                        h = h[:i - 2]
                t = h + "::promoted[" + tail
            if "::promoted[" in t and fr is not None:
                pk = fr.fn.name + t[t.rindex("::promoted["):]
                f = self.prog.consts.get(pk)
                if f is not None and t.rsplit("::promoted", 1)[0].split("::")[-1] == fr.fn.name.split("::")[-1]:
                    cell = "const:%s:%d" % (f.name, id(f))
                    if cell not in st.heap:
                        # several functions may share a name (macro impls): take the one next to this function
                        st.heap[cell] = self.eval_const(st, f)
                    return st.heap[cell]
            return self.const(st, fr, t)
        return FnItem(op[1])

    def op_type(self, fr, op):
        if op[0] == "place":
            return self.place_type(fr, op[1])
        if op[0] == "const":
            m = re.fullmatch(r"-?\d+_(\w+)", op[1])
            if m:
                return m.group(1)
            if op[1] in ("true", "false"):
                return "bool"
            m = re.fullmatch(r"(?:.*<impl (\w+)>|(\w+))::(?:MAX|MIN)", op[1])
            if m:
                return m.group(1) or m.group(2)
            f = self.prog.consts.get(op[1])
            if f is None:
                last = op[1].split("::")[-1]
                for kk, ff in self.prog.consts.items():
                    if kk.split("::")[-1] == last and "promoted" not in kk:
                        f = ff
                        break
            if f is not None:
                return norm_type(re.search(r": (.*) = \{$", f.header).group(1)) if not f._parsed else f.ret
        return None

    # -------------------------------------------------------------- rvalues
    def discriminant(self, st, v):
        if isinstance(v, Enum):
            d = self.prog.enum_def(v.ty)
            if d is None:
                return v.vidx
            return d[v.vidx][1]
        if isinstance(v, Sym):
            ty = v.ty
            d = self.prog.enum_def(ty)
            if ("d",) in v.over:
                return v.over[("d",)]
            t = self.leaf(v.name + ".discr", "isize", v.idx)
            if d is not None and ("D", t.get_id()) not in self.conc_time:
                self.conc_time[("D", t.get_id())] = True
                FACTS.add(t, z3.Or(*[t == k for _, k in d]))
            return t
        if isinstance(v, Ite):
            return self.ite(v.c, self.discriminant(st, v.a), self.discriminant(st, v.b))
        raise Unsupported("discriminant of %r" % (v,))

    def binop(self, st, fr, name, op1, op2):
        a, b = self.operand(st, fr, op1), self.operand(st, fr, op2)
        ty = self.op_type(fr, op1) or self.op_type(fr, op2)
        return self.arith(st, name, a, b, ty)

    def arith(self, st, name, a, b, ty):
        if name in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, (Sym, Ref, Ite, Enum)) or isinstance(b, (Sym, Ref, Ite, Enum)):
                if isinstance(a, Ref) and isinstance(b, Ref) and name in ("Eq", "Ne"):
                    same = a.cell == b.cell and a.path == b.path
                    return same if name == "Eq" else not same
                return self.fresh("cmp", "bool")
            if name == "Eq":
                return Eq(a, b)
            if name == "Ne":
                return Not(Eq(a, b))
            if ty == "bool":
                a, b = If(a, 1, 0), If(b, 1, 0)
            return {"Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[name]()
        if ty == "bool" or isinstance(a, bool) or (is_z3(a) and z3.is_bool(a)):
            if name == "BitAnd":
                return And(a, b)
            if name == "BitOr":
                return Or(a, b)
            if name == "BitXor":
                return Not(sym.Iff(a, b))
        if isinstance(a, (Sym, Ref)) or isinstance(b, (Sym, Ref)):
            if ty in INT or (ty or "").startswith("*") or True:
                if name.endswith("WithOverflow"):
                    return Agg("tuple", None, [self.fresh("ptr", "usize"), self.fresh("ov", "bool")])
                return self.fresh("ptr", ty if ty in INT else "usize")
        if ty not in INT:
            raise Unsupported("arithmetic on %s" % ty)
        bits, signed = INT[ty]
        base = name.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else a - b if base == "Sub" else a * b
            if name.endswith("WithOverflow"):
                return Agg("tuple", "ov", [r, Not(sym.in_range(r, ty))])
            if name.endswith("Unchecked"):
                return r
            if st is not None and self.no_wrap(st, r, ty):
                return r
            return sym.wrap(r, ty)
        if base in ("Div", "Rem"):
            if signed and not (conc(a) and conc(b)):
                q = If(Eq(a < 0, b < 0) if False else sym.Iff(a < 0, b < 0), sym.fdiv(self.absv(a), self.absv(b)), -sym.fdiv(self.absv(a), self.absv(b)))
                return q if base == "Div" else a - q * b
            if signed:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if base == "Div" else a - q * b
            return sym.fdiv(a, b) if base == "Div" else sym.fmod(a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            if signed:
                raise Unsupported("bit operation on signed")
            if base == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    k = self.pow2_of.get(x.get_id()) if is_z3(x) else None
                    if k is not None:
                        p = sym.pow2(k[1])
                        return sym.fmod(sym.fdiv(y, p), 2) * p
            try:
                return sym.bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[base], a, b, bits)
            except NotImplementedError as e:
                self.externals.setdefault("bit operation on symbolic %s" % ty, "unknown result")
                return self.fresh("bits", ty)
        if base == "Shl":
            if conc(a) and a == 1 and not conc(b):
                r = If(b < bits, sym.pow2(b), sym.wrap(sym.pow2(b), ty))
                self.pow2_of[r.get_id()] = (r, b)
                return r
            return sym.wrap(a * sym.pow2(b), ty)
        if base == "Shr":
            if signed and not conc(a):
                raise Unsupported("shr on signed")
            return sym.fdiv(a, sym.pow2(b))
        if base == "Offset":
            raise Unsupported("pointer offset")
        if base == "Cmp":
            return self.cmp_value(a, b)
        raise Unsupported("binop " + name)

    def absv(self, a):
        return abs(a) if conc(a) else z3.If(a < 0, -a, a)

    def cmp_value(self, a, b):
        if conc(a) and conc(b):
            i = 0 if a < b else 1 if a == b else 2
            return Enum("Ordering", i, ["Less", "Equal", "Greater"][i])
        return Ite(a < b, Enum("Ordering", 0, "Less"), Ite(Eq(a, b), Enum("Ordering", 1, "Equal"), Enum("Ordering", 2, "Greater")))

    def cast(self, st, fr, op, ty, kind):
        v = self.operand(st, fr, op)
        ty = self.tsub(fr, ty)
        if kind == "IntToInt":
            src = self.op_type(fr, op)
            if isinstance(v, (Enum, Sym, Ite)):
                v = self.discriminant(st, v)
            if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
                v = If(v, 1, 0)
            if ty not in INT:
                raise Unsupported("cast to " + ty)
            if src in INT:
                slo, shi = lo_hi(src)
                dlo, dhi = lo_hi(ty)
                if slo >= dlo and shi <= dhi:
                    return v
            if self.no_wrap(st, v, ty):
                return v
            return sym.wrap(v, ty)
        if kind.startswith("PointerCoercion(Unsize"):
            src = self.op_type(fr, op)
            if isinstance(v, Ref) and v.meta is None:
                at = array_ty(pointee(src) or "")
                n = None
                if at and at[1] is not None:
                    n = self.const_len(at[1], st, fr)
                else:
                    try:
                        t = self.load(st, v.cell, v.path)
                        if isinstance(t, Agg) and t.kind == "array":
                            n = len(t.fields)
                    except Unsupported:
                        pass
                return Ref(v.cell, v.path, n, v.tag)
            if isinstance(v, Sym):
                at = array_ty(pointee(src) or "")
                r = self.deref(st, v)
                return Ref(r.cell, r.path, self.const_len(at[1], st, fr) if at and at[1] else None)
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("PtrToPtr", "Transmute", "FnPtrToPtr", "PointerExposeProvenance", "PointerWithExposedProvenance"):
            if isinstance(v, Ref):
                if ty in INT:
                    return self.fresh("addr", ty)
                return v
            if isinstance(v, Sym):
                if ty in INT:
                    return self.fresh("addr", ty)
                if is_ptr(ty) and is_ptr(v.ty):
                    return Sym(v.name, ty, v.idx, v.over)
                return self.make("cast(%s)" % v.name, ty, v.idx)
            if not isinstance(v, (Agg, Enum, Ite)) and ty in INT:
                return sym.wrap(v, ty)
            return self.fresh("cast", ty)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            raise Unsupported("float")
        raise Unsupported("cast " + kind)

    def const_len(self, s, st, fr):
        s = s.strip()
        m = re.match(r"(\d+)(?:_usize)?$", s)
        if m:
            return int(m.group(1))
        v = self.named_const(st, fr, s)
        if isinstance(v, int):
            return v
        raise Unsupported("array length " + s)

    def aggregate(self, st, fr, rv):
        _, kind, name, names, ops = rv
        vals = [self.operand(st, fr, o) for o in ops]
        if kind == "tuple":
            return Agg("tuple", None, vals) if vals else UNIT
        if kind == "array":
            return Agg("array", None, vals)
        if kind == "closure":
            l = self.prog.closures_at.get(name, [])
            if len(l) > 1:
                # closures of one macro expansion share their location: tell them apart by owner and captures
                l = [f for f in l if f.name.startswith(fr.fn.name + "::{closure#") and set(captures(f)) <= set(names)] or l
                l = sorted(l, key=lambda f: -len(captures(f)))
                if len(l) > 1 and len(captures(l[0])) == len(captures(l[1])) and names:
                    raise Unsupported("ambiguous closure %s" % name)
                name = l[0].name
            g = l[0] if l else None
            if g is not None:
                caps = capture_types(g)
                if caps and max(caps) + 1 > len(vals):
                    vals = self.missing_captures(st, fr, g, caps, ops)
            return Agg("closure", name, vals)
        c = parse_callee(name)
        # enum variant?
        if c.selfty:
            d = self.prog.enum_def(c.selfty)
            if d:
                for i, (n, k) in enumerate(d):
                    if n == c.name:
                        return Enum(generic_args(c.selfty)[0], i, n, vals)
        # bare variant names (`Continue(..)`, `BadRequest`) that rustc trims
        if c.selfty is None and names in ("tuple", "unit"):
            for en, d in list(STD_ENUMS.items()):
                for i, (n, k) in enumerate(d):
                    if n == c.name:
                        return Enum(en, i, n, vals)
            hits = [(en, i) for en, vs in self.prog.src.enums.items() for i, v in enumerate(vs) if v[0] == c.name]
            if hits and c.name not in self.prog.src.structs:
                en, i = hits[0]
                return Enum(en, i, c.name, vals)
        sn = norm_type(name.replace("::<", "<"))
        base = generic_args(sn)[0]
        if isinstance(names, list) and base in self.prog.src.structs:
            order = [f for f, _ in self.prog.src.structs[base]]
            if set(order) == set(names):
                by = dict(zip(names, vals))
                vals = [by[f] for f in order]
        if c.selfty is not None and base not in self.prog.src.structs and names == "unit" and not vals:
            # variant of a foreign enum
            return Enum(c.selfty, 0, c.name) if False else Agg("struct", name, vals)
        return Agg("struct", base, vals)

    def missing_captures(self, st, fr, g, caps, ops):
        """rustc prints at most one operand per captured VARIABLE; a closure that captures several places of one variable has
        more.  The operands are consecutive temporaries, except that a captured reborrow of a reference variable is that variable."""
        n = max(caps) + 1
        t = ops[0][1].local if ops and ops[0][0] == "place" else None
        if t is None or set(caps) != set(range(n)):
            raise Unsupported("captures of %s" % g.name)
        vals = []
        dbg = dict(re.findall(r"^\s*debug (\w+) => _(\d+);", fr.fn.text, re.M))
        for i in range(n):
            name, ty = caps[i]
            k = int(dbg[name]) if name in dbg else None
            if k is not None and fr.fn.locals.get(k) == ty:
                vals.append(st.heap[fr.locals[k]])
                continue
            if fr.fn.locals.get(t) != ty or t not in fr.locals:
                raise Unsupported("captures of %s" % g.name)
            vals.append(st.heap[fr.locals[t]])
            t += 1
        return vals

    def rvalue(self, st, fr, rv, dest_ty=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            cell, path, meta = self.resolve(st, fr, rv[2])
            return Ref(cell, path, meta)
        if k == "bin":
            return self.binop(st, fr, rv[1], rv[2], rv[3])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = self.op_type(fr, rv[2])
                if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
                    return Not(v)
                if ty in INT and not INT[ty][1]:
                    return lo_hi(ty)[1] - v
                raise Unsupported("not on " + str(ty))
            if rv[1] == "Neg":
                return -v
            if rv[1] == "PtrMetadata":
                if isinstance(v, Sym):
                    v = self.deref(st, v)
                if isinstance(v, Ref) and v.meta is not None:
                    return v.meta
                if isinstance(v, Ref):
                    t = self.load(st, v.cell, v.path)
                    if isinstance(t, Agg):
                        return len(t.fields)
                    if isinstance(t, Sym):
                        return self.vec_len(t)
                raise Unsupported("metadata of %r" % (v,))
        if k == "discr":
            return self.discriminant(st, self.read(st, fr, rv[1]))
        if k == "len":
            cell, path, meta = self.resolve(st, fr, rv[1])
            if meta is not None:
                return meta
            t = self.load(st, cell, path)
            if isinstance(t, Agg):
                return len(t.fields)
            at = array_ty(t.ty) if isinstance(t, Sym) else None
            if at and at[1]:
                return self.const_len(at[1], st, fr)
            raise Unsupported("len")
        if k == "agg":
            return self.aggregate(st, fr, rv)
        if k == "cast":
            return self.cast(st, fr, rv[1], rv[2], rv[3])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = self.const_len(rv[2], st, fr)
            if n > 4096:
                raise Unsupported("repeat %d" % n)
            return Agg("array", None, [v] * n)
        if k == "nullary":
            b = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}.get(rv[2])
            return b if b else self.fresh(rv[1], "usize")
        if k == "shallowbox":
            cell = self.fresh_name("box")
            st.heap[cell] = Sym(cell, rv[2])
            return Ref(cell)
        raise Unsupported("rvalue %s" % (rv,))

    def vec_len(self, t):
        if ("len",) in t.over:
            return t.over[("len",)]
        return self.leaf("len(" + t.name + ")", "usize", t.idx)

    # -------------------------------------------------------------- execution
    def feasible(self, st, extra=None):
        if extra is not None and conc(extra):
            return bool(extra)
        if extra is None and not st.pc:
            return True
        t0 = time.time()
        from .smt import light, quick_unsat
        pc = st.pc
        if self.light:
            # dead paths are only pruned on cheap grounds (a path kept is a path verified)
            if extra is not None and not light(extra, self.light):
                return True
            pc = [c for c in pc if conc(c) or light(c, self.light)]
        r = not quick_unsat(pc + ([extra] if extra is not None else []), self.prune_ms)
        self.solver_time += time.time() - t0
        return r

    def assign(self, st, fr, s):
        _, place, rv = s
        v = self.rvalue(st, fr, rv)
        self.write(st, fr, place, v)

    def run(self, fn, args, st=None, tsub=None):
        """Executes fn on args; returns the list of Exits."""
        fn.parse()
        st = st or State()
        fr = Frame(fn, {}, None, None, tsub or {}, 0)
        for n, v in zip(fn.args, args):
            c = "A%d!%d" % (n, self.nfresh)
            self.nfresh += 1
            fr.locals[n] = c
            st.heap[c] = v
        st.frames = [fr]
        exits = []
        self.run_state(st, exits)
        return exits

    def call_inner(self, st, f, args):
        """runs a closure or function value to completion inside a model: [(state, value)]"""
        if not (isinstance(f, Agg) and f.kind == "closure"):
            raise Unsupported("call of %r" % (f,))
        g = self.prog.closures.get(f.name)
        if g is None:
            raise Unsupported("closure %s" % f.name)
        g.parse()
        frames = st.frames
        s = st.copy()
        saved = s.frames
        self_ = f
        if g.locals[1].startswith("&"):
            cell = self.fresh_name("closure")
            s.heap[cell] = f
            self_ = Ref(cell)
        out = []
        for e in self.run(g, [self_] + args, s, frames[-1].tsub if frames else None):
            if e.kind == "return":
                e.state.frames = [x.copy() for x in saved]
                out.append((e.state, e.value))
        return out

    def run_state(self, st, exits, limit=200000):
        work = [st]
        steps = 0
        while work:
            st = work.pop()
            while True:
                steps += 1
                if steps > limit:
                    raise Unsupported("step limit")
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time limit")
                nxt = self.step(st, exits)
                if not nxt:
                    self.npaths += 1
                    break
                if len(nxt) > 1:
                    work.extend(nxt[1:][::-1])
                st = nxt[0]
                if self.merge_fns and work and st.frames[-1].fn.meth in self.merge_fns:
                    # merge mode: always advance the state that is earliest in the function
                    work.append(st)
                    st = self.pick_merge(work)
        return exits

    # merging: states of the same frame are advanced in block order and joined when they meet
    def pick_merge(self, work):
        d = max(len(s.frames) for s in work)
        cand = [s for s in work if len(s.frames) == d]
        key = lambda s: self.rpo(s.frames[-1].fn).get(s.frames[-1].block, 10 ** 9)
        st = min(cand, key=key)
        same = [s for s in cand if s is not st and s.frames[-1].block == st.frames[-1].block]
        work.remove(st)
        for s in same:
            m = self.merge(st, s)
            if m is not None:
                work.remove(s)
                st = m
        return st

    def rpo(self, fn):
        if not hasattr(fn, "_rpo"):
            order, seen = [], {0}
            stack = [(0, iter(fn.succs(0)))]
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(fn.succs(m))))
                        break
                else:
                    order.append(n)
                    stack.pop()
            fn._rpo = {b: i for i, b in enumerate(order[::-1])}
        return fn._rpo

    def merge(self, a, b):
        if len(a.frames) != len(b.frames) or len(a.log) != len(b.log):
            return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block:
                return None
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
            k += 1
        ca, cb = And(*a.pc[k:]), And(*b.pc[k:])
        if conc(ca) or conc(cb):
            c = ca
            if conc(ca) and conc(cb):
                return None
        # the discriminating condition: the first conjunct the two paths disagree on
        d = ca
        if k < len(a.pc) and k < len(b.pc):
            x, y = a.pc[k], b.pc[k]
            if z3.is_not(y) and y.arg(0).eq(x):
                d = x
            elif z3.is_not(x) and x.arg(0).eq(y):
                d = y
                a, b = b, a
                ca, cb = cb, ca
        if conc(d):
            return None
        m = a.copy()
        m.pc = a.pc[:k]
        m.assume(Or(ca, cb))
        fa, fb = a.frames[-1], b.frames[-1]
        for x in set(a.heap) & set(b.heap) - set(fa.locals.values()) - set(fb.locals.values()):
            if a.heap[x] is not b.heap[x] and repr(a.heap[x]) != repr(b.heap[x]):
                return None
        try:
            for n in set(fa.locals) | set(fb.locals):
                x, y = fa.locals.get(n), fb.locals.get(n)
                if x is None or y is None:
                    continue
                vx, vy = a.heap.get(x), b.heap.get(y)
                if vx is None or vy is None:
                    continue
                m.frames[-1].locals[n] = x
                if vx is vy:
                    m.heap[x] = vx
                else:
                    m.heap[x] = self.ite(d, vx, vy)
        except Unsupported:
            return None
        return m

    def step(self, st, exits):
        """Runs one basic block; returns successor states."""
        fr = st.frames[-1]
        fn = fr.fn
        if self.trial is not None and fr.uid == self.trial[0] and fr.block not in self.trial[1]:
            return []
        if self.loop_handler is not None and fr.block in fn.loops() and not st.ghost.get("at_head"):
            r = self.loop_handler.visit(self, st, fr, exits)
            if r is not None:
                return r
        st.ghost.pop("at_head", None)
        v = fr.visits.get(fr.block, 0) + 1
        fr.visits[fr.block] = v
        if v > 400:
            raise Unsupported("loop without contract in %s" % fn.name)
        try:
            stmts, term = fn.block(fr.block)
        except MirUnsupported as e:
            raise Unsupported(str(e))
        for s in stmts:
            if s[0] == "assign":
                self.assign(st, fr, s)
            elif s[0] == "assume":
                st.assume(self.operand(st, fr, s[1]))
            elif s[0] == "setdiscr":
                raise Unsupported("set discriminant")
        k = term[0]
        if k == "goto":
            fr.block = term[1]
            return [st]
        if k == "return":
            return self.do_return(st, exits)
        if k == "unreachable":
            return []
        if k == "abort":
            return []
        if k == "drop":
            if term[2] is None:
                return []
            fr.block = term[2]
            return [st]
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if term[2]:
                c = Not(c)
            if term[4] is None:
                exits.append(Exit("panic", st, why=term[3]))
                return []
            if conc(c):
                if not c:
                    exits.append(Exit("panic", st, why=term[3]))
                    return []
                fr.block = term[4]
                return [st]
            if self.err_paths:
                p = st.copy()
                p.assume(Not(c))
                exits.append(Exit("panic", p, why=term[3]))
            st.assume(c)
            if not self.feasible(st):
                return []
            fr.block = term[4]
            return [st]
        if k == "switch":
            return self.do_switch(st, fr, term)
        if k == "call":
            return self.do_call(st, fr, term, exits)
        raise Unsupported("terminator " + k)

    def do_return(self, st, exits):
        fr = st.frames[-1]
        c = fr.locals.get(0)
        v = st.heap.get(c, UNIT) if c else UNIT
        if fr.post is not None:
            v = fr.post(self, st, v)
        if len(st.frames) == 1:
            exits.append(Exit("return", st, v))
            return []
        st.frames = st.frames[:-1]
        caller = st.frames[-1]
        if fr.dest is not None:
            self.write(st, caller, fr.dest, v)
        if fr.target is None:
            return []
        caller.block = fr.target
        return [st]

    def do_switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        if isinstance(v, (Enum, Sym, Ite)):
            v = self.discriminant(st, v)
        if isinstance(v, bool):
            v = 1 if v else 0
        cases, other = term[2], term[3]
        ty = self.op_type(fr, term[1])
        if ty in INT and INT[ty][1]:
            b = INT[ty][0]
            cases = [(a - (1 << b) if a >= 1 << (b - 1) else a, t) for a, t in cases]
        if conc(v):
            for a, t in cases:
                if a == v:
                    fr.block = t
                    return [st]
            if other is None:
                return []
            fr.block = other
            return [st]
        outs = []
        if z3.is_bool(v):
            conds = [(Not(v) if a == 0 else v, t) for a, t in cases]
            oc = And(*[Not(c) for c, _ in conds])
        else:
            conds = [(v == a, t) for a, t in cases]
            oc = And(*[v != a for a, _ in cases])
        allc = conds + ([(oc, other)] if other is not None else [])
        live = []
        for c, t in allc:
            try:
                blk = fr.fn.block(t)
            except MirUnsupported:
                blk = ((), ("?",))
            if blk[1][0] == "unreachable" and not blk[0]:
                continue
            live.append((c, t))
        for i, (c, t) in enumerate(live):
            if not self.feasible(st, c):
                continue
            s2 = st.copy() if i < len(live) - 1 else st
            if not s2.assume(c):
                continue
            s2.frames[-1].block = t
            outs.append(s2)
        return outs

    # -------------------------------------------------------------- calls
    def ret_to(self, st, dest, target, v):
        """completes a call with value v; returns successor list"""
        fr = st.frames[-1]
        if target is None:
            return []
        self.write(st, fr, dest, v)
        fr.block = target
        return [st]

    def dest_type(self, fr, dest):
        return self.place_type(fr, dest)

    def do_call(self, st, fr, term, exits):
        _, dest, callee, argops, target = term
        if re.match(r"(move |copy )", callee):
            v = self.read(st, fr, __import__("dbcv.mir", fromlist=["x"]).parse_full_place(callee[5:]))
            if isinstance(v, FnItem):
                callee = v.path
            else:
                raise Unsupported("indirect call")
        args = [self.operand(st, fr, o) for o in argops]
        atys = [self.op_type(fr, o) for o in argops]
        return self.call(st, callee, args, atys, dest, target, exits)

    def call(self, st, callee_raw, args, atys, dest, target, exits):
        fr = st.frames[-1]
        if fr.tsub:
            for k, v in fr.tsub.items():
                callee_raw = re.sub(r"(?<![\w:])%s(?![\w])" % k, lambda m: v, callee_raw)
        c = parse_callee(callee_raw)
        dty = self.dest_type(fr, dest) if dest is not None else None
        # 1. contract
        self.cur = st
        fn = self.lookup(c, args, atys, dty)
        key = self.contract_key(c, fn)
        self.cur_fn = fn
        con = self.contracts.get(key)
        if con is not None and con.applies(self, st, args):
            self.contracts_used[key] = self.contracts_used.get(key, 0) + 1
            outs = []
            for s2, v in con.apply(self, st, args, dty, c):
                if v is PANIC:
                    exits.append(Exit("panic", s2, why="callee"))
                    continue
                outs += self.ret_to(s2, dest, target, v)
            return outs
        # 2. model of an external function
        m = self.models.lookup(c, fn, self.prog.src)
        if m is not None:
            r = m(self, st, c, args, atys, dty)
            if r is not None:
                self.externals.setdefault(str(c)[:100], "modelled")
                outs = []
                for item in r:
                    s2, v = item[0], item[1]
                    if v is PANIC:
                        if self.err_paths:
                            exits.append(Exit("panic", s2, why=str(c)))
                        continue
                    if isinstance(v, Tail):
                        # continue into another call (closures)
                        outs += self.tail(s2, v, dest, target, exits)
                        continue
                    outs += self.ret_to(s2, dest, target, v)
                return outs
        # 3. inline
        if fn is not None:
            return self.inline(st, fn, args, dest, target, dty, c)
        # 4. unknown external
        self.externals.setdefault(str(c)[:100], "unknown result")
        r = self.anchor.unknown(self, st, c, args, atys, dty)
        if r is not None:
            outs = []
            for s2, v in r:
                outs += self.ret_to(s2, dest, target, v)
            return outs
        for a, t in zip(args, atys):
            if isinstance(a, Ref) and t and t.startswith("&mut "):
                pt = pointee(t)
                if pt and not pt.startswith(("Formatter", "dyn")):
                    self.write_to(st, a.cell, list(a.path), self.fresh("ext", pt))
        if dty is None:
            return []
        return self.ret_to(st, dest, target, self.fresh("ret:" + c.name, dty))

    def tail(self, st, t, dest, target, exits):
        if t.kind == "closure":
            f = self.prog.closures.get(t.closure.name)
            if f is None:
                raise Unsupported("closure %s" % t.closure.name)
            f.parse()
            if INIT_CLOSURE.search(f.name) and t.post is None and dest is not None and self.dest_type(st.frames[-1], dest).startswith("Result<"):
                return self.init_closure(st, t, dest, target)
            selfarg = t.closure
            if f.locals[1].startswith("&"):
                cell = self.fresh_name("closure")
                st.heap[cell] = t.closure
                selfarg = Ref(cell)
            return self.push(st, f, [selfarg] + t.args, dest, target, st.frames[-1].tsub, t.post)
        if t.kind == "fn":
            c = parse_callee(t.closure)
            if t.post is None:
                return self.call(st, t.closure, t.args, [None] * len(t.args), dest, target, exits)
            # constructor or conversion used as a function value: result unknown unless it is a variant
            fn = self.lookup(c, t.args, [None] * len(t.args), None)
            if fn is not None:
                return self.push(st, fn, t.args, dest, target, {}, t.post)
            v = t.post(self, st, self.fresh("fnval", "Error"))
            return self.ret_to(st, dest, target, v)
        if t.kind == "prelude":
            return self.push(st, t.closure, t.args, dest, target, {**st.frames[-1].tsub, **t.post}, None)
        raise Unsupported("tail")

    def init_closure(self, st, t, dest, target):
        """anchor's creation of an account: the ways it may have been created (from nothing, or from an address that already holds lamports)
        are joined where they leave the same account behind, forgetting what distinguishes them"""
        base, nlog = set(id(c) for c in st.pc), len(st.log)
        known = dict(st.heap)
        outs, groups = [], {}
        for s, v in self.call_inner(st, t.closure, t.args):
            extra = [l for l in s.log[nlog:] if not (l[0] == "cpi" and l[1] in SYSTEM_INIT)]
            cells = {c: x for c, x in s.heap.items() if c in known and x is not known[c]}
            key = (v.vname if isinstance(v, Enum) else None, FRESH.sub("!", repr(v)), FRESH.sub("!", repr(extra)), FRESH.sub("!", repr(sorted(cells.items(), key=str))),
                   repr(sorted(s.ghost.items(), key=str)))
            groups.setdefault(key, []).append((s, v))
        for key, l in groups.items():
            s, v = min(l, key=lambda p: len(p[0].log))
            if len(l) > 1:
                common = None
                for s2, _ in l:
                    ids = {c.get_id(): c for c in s2.pc}
                    common = ids if common is None else {i: c for i, c in common.items() if i in ids}
                s.pc = [c for c in s.pc if c.get_id() in common]
                self.joined += len(l) - 1
            outs += self.ret_to(s, dest, target, v)
        return outs

    def contract_key(self, c, fn):
        if fn is not None:
            return (fn.selfty + "::" if fn.selfty else "") + fn.meth
        return str(c)

    def lookup(self, c, args, atys, dty):
        P = self.prog
        if c.trait:
            st_ = c.selfty
            base = generic_args(st_.lstrip("&"))[0]
            l = P.by_trait.get((c.trait, base, c.name))
            if not l and st_.startswith("dyn ") or (not l and st_.startswith("Box<dyn")):
                # dynamic dispatch on the receiver's concrete type
                v = args[0]
                return self.dyn_lookup(c, v)
            if not l:
                # default method of a crate trait
                l = P.by_method.get((c.trait, c.name)) if (base in P.src.structs or base in P.src.enums) else None
            if l and len(l) > 1:
                l = self.filter(l, atys, dty, c)
            return l[0] if l else None
        if c.selfty and c.segs and not c.segs[-2].startswith("<impl"):
            base = generic_args(c.selfty)[0]
            if base in STD_ENUMS or base in ("Vec", "Box", "Rc", "String", "U256", "U512", "AccountLoader", "AccountInfo", "Error", "InterfaceAccount"):
                return None
            l = P.by_method.get((base, c.name))
            if l and len(l) > 1:
                l = self.filter(l, atys, dty, c)
            return l[0] if l else None
        if c.selfty:
            return None
        l = P.free.get(c.name)
        if not l:
            return None
        if len(c.segs) > 1 and c.segs[0] in ("std", "core", "alloc", "anchor_lang", "anchor_spl", "ruint", "num_traits", "spl_token_2022", "mpl_token_metadata", "bytemuck"):
            return None
        if len(l) > 1:
            path = "::".join(c.segs)
            ex = [f for f in l if f.name == path or f.name.endswith("::" + path) or path.endswith("::" + f.name)]
            l = ex or l
            l = self.filter(l, atys, dty, c)
            inst = [f for f in l if not f.name.startswith("__")]
            l = inst or l
        return l[0]

    def filter(self, l, atys, dty, c):
        def fits(f):
            f.parse()
            for n, t in zip(f.args, atys):
                if t is not None and generic_args(f.locals[n])[0] != generic_args(t)[0] and not re.fullmatch(r"[A-Z]", f.locals[n]):
                    return False
            if dty is not None and f.ret != dty and not re.search(r"\b[A-Z]\b", f.ret):
                return False
            return True
        r = [f for f in l if fits(f)]
        return r or l

    def dyn_lookup(self, c, v):
        while isinstance(v, Ref):
            v = self.cur.heap.get(v.cell) if not v.path else self.load(self.cur, v.cell, v.path)
        if isinstance(v, Agg) and v.kind == "closure" and c.trait in ("Fn", "FnMut", "FnOnce"):
            return None
        if isinstance(v, Agg) and v.name:
            l = self.prog.by_trait.get((c.trait, v.name, c.name)) or self.prog.by_method.get((c.trait, c.name))
            if l:
                return l[0]
        raise Unsupported("dynamic dispatch on %r" % (v,))

    def inline(self, st, fn, args, dest, target, dty, c):
        fn.parse()
        tsub = {}
        if dty:
            unify(fn.ret, dty, tsub)
        if c is not None and c.generics and re.search(r"\b[A-Z]\b", fn.ret + " ".join(fn.locals.values())) and not tsub:
            g = [x for x in c.generics]
            if len(g) == 1:
                tsub["T"] = g[0]
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1
        return self.push(st, fn, args, dest, target, tsub, None)

    def push(self, st, fn, args, dest, target, tsub, post):
        fn.parse()
        if len(st.frames) > self.max_inline:
            raise Unsupported("inline depth")
        fr = Frame(fn, {}, dest, target, tsub or {}, st.frames[-1].depth + 1)
        fr.post = post
        a = args
        if len(fn.args) != len(a):
            # closure calls pass their arguments as one tuple
            if len(a) == 2 and isinstance(a[1], Agg) and a[1].kind == "tuple" and len(fn.args) == 1 + len(a[1].fields):
                a = [a[0]] + list(a[1].fields)
            else:
                raise Unsupported("arity of %s" % fn.name)
        for n, v in zip(fn.args, a):
            cell = "A%d!%d" % (n, self.nfresh)
            self.nfresh += 1
            fr.locals[n] = cell
            st.heap[cell] = v
        st.frames.append(fr)
        return [st]


class Tail:
    """model result: continue by running a closure or function; post maps its result"""

    def __init__(self, kind, closure, args, post=None):
        self.kind, self.closure, self.args, self.post = kind, closure, args, post


class _Panic:
    pass


PANIC = _Panic()
