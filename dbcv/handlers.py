"""Whole instructions: the anchor entry glue `__global::<instruction>` is executed symbolically, and every path on which the
instruction succeeds is compared with its specification."""
import re
import time

import z3

from . import anchor, core, models, smt
from .engine import Agg, Enum, Ref, State, Sym, Unsupported, pointee
from .sym import And, Eq, Or
from .mir import MirUnsupported, generic_args, norm_type


def entry(prog, name):
    l = [f for f in prog.free.get(name, []) if f.name.startswith("__global::")]
    if len(l) != 1:
        raise Unsupported("instruction %s not found in the compiled crate" % name)
    return l[0]


class Path:
    """one successful execution of an instruction"""

    def __init__(self, E, s0, st):
        self.E, self.s0, self.st, self.pc, self.log = E, s0, st, st.pc, st.log


def execute(ctx, name, contracts, budget, opts=None, assume=()):
    """-> (engine, [Path], number of paths); `assume`: conditions on the inputs (the case being considered)"""
    fn = entry(ctx.prog, name)
    fn.parse()
    E = core.make_engine(ctx, contracts)
    E.err_paths = False
    if opts:
        opts(E)
    E.deadline = time.time() + budget
    st = State()
    st.heap["program_id"] = E.prog.own_id()
    if len(fn.args) != 3:
        raise Unsupported("signature of %s" % fn.name)
    for c in assume:
        st.assume(c)
    exits = E.run(fn, [Ref("program_id"), anchor.accounts_cell(E, st, 0), E.make("ixdata", fn.locals[fn.args[2]])], st)
    out = []
    for s, kind, _ in core.ok_exits(E, exits, fn.ret):
        if kind == "ok":
            out.append(Path(E, None, s))
    return E, out, len(exits)


# ------------------------------------------------------------------ specifications

def unwrap(t):
    """'Box<InterfaceAccount<TokenAccount>>' -> ('InterfaceAccount', 'TokenAccount')"""
    t = norm_type(t)
    b, g = generic_args(t)
    while b in ("Box", "Option") and g:
        b, g = generic_args(g[0])
    return b, (g[-1] if g else None)


STATE = ("AccountLoader", "Account")


class X:
    """what a specification sees of one successful path"""

    def __init__(self, E, path):
        self.E, self.p, self.st = E, path, path.st
        self.s0 = State()
        r = path.st.ghost.get("ctx")
        if r is None:
            raise Unsupported("no accounts context")
        v = r
        while isinstance(v, Ref):
            v = E.load(path.st, v.cell, v.path)
        if not isinstance(v, Agg):
            raise Unsupported("accounts context %r" % (v,))
        self.ctx, self.ty = v, v.name
        self.fields = {n: (i, norm_type(t)) for i, (n, t) in enumerate(E.prog.src.structs[v.name])}
        self.pre = {}

    # accounts ------------------------------------------------------
    def id(self, name):
        if name not in self.fields:
            raise Unsupported("account %s of %s not found" % (name, self.ty))
        v = self.ctx.fields[self.fields[name][0]]
        return anchor.ident(self.E, self.st, v)

    def present(self, name):
        """is an optional account given, on this path?"""
        v = self.ctx.fields[self.fields[name][0]]
        if isinstance(v, Sym) and generic_args(v.ty)[0] == "Option":
            if self.st.pc:
                d = self.E.discriminant(self.st, v)
                if smt.quick_unsat(self.st.pc + [d == 1], 2000):
                    return False
                if smt.quick_unsat(self.st.pc + [d != 1], 2000):
                    return True
            raise Unsupported("whether %s is given is not settled" % name)
        return not (isinstance(v, Enum) and v.vname == "None")

    def opt_id(self, name):
        v = self.ctx.fields[self.fields[name][0]]
        if isinstance(v, Enum):
            v = v.fields[0]
        if isinstance(v, Sym) and generic_args(v.ty)[0] == "Option":
            return v.name + "#Some.0"
        return anchor.ident(self.E, self.st, v)

    def key(self, name):
        return z3.Int("key(%s)" % self.id(name))

    def owner(self, name):
        return z3.Int("owner(%s)" % self.id(name))

    def signer(self, name):
        return z3.Bool("signer(%s)" % self.id(name))

    def typed(self, name):
        return z3.Bool("typed(%s,%s)" % (self.id(name), unwrap(self.fields[name][1])[1]))

    def typed_as(self, name, ty):
        return z3.Bool("typed(%s,%s)" % (self.id(name), ty))

    def is_program(self, name):
        return z3.Bool("is_program(%s,%s)" % (self.id(name), unwrap(self.fields[name][1])[1]))

    def before(self, name):
        """state of a program account before the instruction"""
        if name not in self.pre:
            w, t = unwrap(self.fields[name][1])
            cell = "*" + self.id(name)
            self.pre[name] = (cell, t, self.E.make(cell, t))
        cell, t, v = self.pre[name]
        return core.View(self.E, self.s0, v, t)

    def extra_id(self, j):
        """j-th remaining account"""
        ids = [anchor.ident(self.E, self.st, f.fields[0] if isinstance(f, Enum) and f.fields else f) for f in self.ctx.fields
               if not (isinstance(f, Enum) and not f.fields)]
        return "acct%d" % (max(int(i[4:]) for i in ids if i.startswith("acct")) + 1 + j)

    def extra(self, j, ty):
        n = "*" + self.extra_id(j)
        return core.View(self.E, self.s0, self.E.make(n, ty), ty)

    def extra_typed(self, j, ty):
        return z3.Bool("typed(%s,%s)" % (self.extra_id(j), ty))

    def token(self, name):
        """(mint, owner, amount) of a token account before the instruction"""
        n = "***" + self.id(name) if self.fields[name][1].startswith("Box") else "**" + self.id(name)
        return z3.Int(n + ".0"), z3.Int(n + ".1"), self.E.leaf(n + ".2", "u64")

    def ix(self, i, ty="u64"):
        if ty == "bool":
            return z3.Bool("ix.%s" % i)
        t = z3.Int("ix.%s" % i)
        return self.E.leaf("ix.%s" % i, ty)

    def pda(self, *seeds):
        """program address of this program from constant strings and keys"""
        return pda_term(self.E, seeds)

    def ata(self, owner, mint, program):
        return anchor.ATA(owner, mint, program)

    def const(self, name):
        """value of a public constant key of the program, e.g. treasury::ID"""
        from .engine import KNOWN_IDS
        if name in KNOWN_IDS:
            return KNOWN_IDS[name]
        v = self.E.named_const(self.st.copy(), None, name)
        while isinstance(v, Ref):
            v = self.E.load(self.st, v.cell, v.path)
        if isinstance(v, Agg) and v.kind == "bytes":
            v = v.fields[0]
        if not isinstance(v, int):
            raise Unsupported("constant %s" % name)
        return v

    def in_const(self, name, key):
        """membership in a constant list of a dependency"""
        return z3.Function("contains(%s)" % name, z3.IntSort(), z3.BoolSort())(key)

    @property
    def own(self):
        return self.E.prog.own_id()

    def token_owner(self, name):
        return z3.Int("token_owner(%s)" % self.id(name))

    def string(self, path):
        return self.E.make("ix." + path, "String")

    def data(self, name):
        return z3.Int("data(%s)" % self.id(name))

    def rent(self, n):
        return anchor.RENT(z3.IntVal(n))

    def space(self, ty):
        """8 + INIT_SPACE of an account type"""
        v = self.E.named_const(self.st.copy(), None, "<%s as anchor_lang::Space>::INIT_SPACE" % ty)
        if not isinstance(v, int):
            raise Unsupported("size of %s" % ty)
        return 8 + v

    def foreign(self, name, *path_ty):
        """leaf of an account owned by another program: foreign('lock_escrow', '.0', 'Pubkey')"""
        path, ty = path_ty
        n = "**" + self.id(name)
        if self.fields[name][1].startswith("Box"):
            n = n if unwrap(self.fields[name][1])[0] == "Account" and unwrap(self.fields[name][1])[1] not in ("TokenAccount", "Mint") else "*" + n
        return self.E.leaf(n + path, ty)

    default_key = z3.Int("pubkey:default")

    def runtime(self, name, k=None, since=0):
        """((lamports, owner, size) after `since` calls to other programs, same at the end or after the k-th one) of an account"""
        from .anchor import ep
        E, n = self.E, self.id(name)

        def at(e):
            return E.leaf("lamports%s(%s)" % (e, n), "u64"), z3.Int("owner%s(%s)" % (e, n)), E.leaf("data_len%s(%s)" % (e, n), "usize")
        num = lambda k: "@%d" % k if k else ""
        return at(num(since)), at(ep(self.st) if k is None else num(k))

    def opaque(self, name, ty):
        """scalars of a value known by its name only"""
        return flat(self.E, self.st, Sym(name, ty))

    def lamports_after(self, k, name):
        """lamports of an account after the k-th call to another program"""
        return self.E.leaf("lamports%s(%s)" % ("@%d" % k if k else "", self.id(name)), "u64")

    def opt_key(self, name):
        """key of an optional account (None when absent)"""
        return z3.Int("key(%s)" % self.opt_id(name)) if self.present(name) else None

    def reloaded(self, name, n=1):
        """amount of a token account after it was reloaded (for the n-th time)"""
        return self.E.leaf("*reload%s(%s).2" % (n if n > 1 else "", self.id(name)), "u64")

    def extra_key(self, j):
        return z3.Int("key(%s)" % self.extra_id(j))

    def cellname(self, name):
        return "*" + self.id(name)

    def found(self, name, ty):
        """contents of an account of another program, as the instruction reads it"""
        return core.View(self.E, self.s0, self.E.make("*" + self.id(name), ty), ty)

    def steps(self):
        """names of the steps taken, in order"""
        return [l[1] for l in self.st.log if l[0] == "step"]

    def called(self, name):
        """is another program called by this name, on this path?"""
        return any(l[0] == "cpi" and l[1] == name for l in self.st.log)

    def calls_before(self, name):
        """number of calls out before (the first) one of this name ("!sol": a lamport transfer), or of all"""
        k = 0
        for l in self.st.log:
            if l[0] in anchor.OUTSIDE:
                if l[0] == "cpi" and l[1] == name or name == "!" + l[0]:
                    break
                k += 1
        return k

    def token_amount(self, name, k):
        """amount of a token account as read after k calls out"""
        return self.E.leaf("token_amount%s(%s)" % (k or "", self.id(name)), "u64")

    def asked(self, check, *args):
        """was `check` (a CheckContract) consulted on this path about these arguments?"""
        out = [False]
        for l in self.st.log:
            if l[0] == "check" and l[1] == check and len(l) == len(args) + 2:
                cs = []
                for v, w in zip(l[2:], args):
                    if isinstance(w, str):
                        v = anchor.first_account(self.E, self.st, v)
                        cs.append(v == self.extra_id(0))
                        continue
                    v = models.deref_all(self.E, self.st, v)
                    if isinstance(v, Sym) and generic_args(v.ty)[0] == "Option":
                        v = Sym(v.name + "#Some.0", "AccountInfo") if w is not None else None
                    vs = [y for y in flat(self.E, self.st, v) if not isinstance(y, str) and y is not None]
                    cs.append(not vs if w is None else len(vs) >= 1 and Eq(vs[0], w))
                out.append(And(*cs))
        return Or(*out)

    def checked(self, check, *args):
        """... and did it accept?"""
        n = sum(1 for l in self.st.log if l[0] == "check" and l[1] == check)
        return And(self.asked(check, *args), *[z3.Bool("accepts:%s#%d" % (check, i)) for i in range(n)])

    # effects -------------------------------------------------------
    def lamports(self, name):
        return self.E.leaf("lamports(%s)" % self.id(name), "u64")


def pda_term(E, seeds):
    shape = ["'%s'" % s if isinstance(s, str) else "K" for s in seeds]
    ks = [k for k in seeds if not isinstance(k, str)]
    f = z3.Function("pda(%s)" % ",".join(shape), *([z3.IntSort()] * (len(ks) + 2)))
    return f(*[anchor.kint(k) for k in ks], z3.IntVal(E.prog.own_id()))


def token(src, mint, dst, authority, amount, signed=True):
    return ("token", src, mint, dst, authority, amount, signed)


SYSTEM_INIT = ("create_account", "transfer", "allocate", "assign")


def flat(E, st, v):
    """comparable scalars of a logged value"""
    while isinstance(v, Ref):
        v = E.load(st, v.cell, v.path)
    if isinstance(v, Agg):
        if v.kind == "struct" and not v.fields and "::" in (v.name or ""):
            return [v.name.split("::")[-1]]      # variant of another crate's enumeration
        return [y for x in v.fields for y in flat(E, st, x)]
    if isinstance(v, Enum):
        return [v.vname] + [y for x in v.fields for y in flat(E, st, x)]
    if isinstance(v, Sym):
        try:
            if v.ty == "AccountInfo" or anchor.is_account_ty(v.ty):
                return [z3.Int("key(%s)" % anchor.ident(E, st, v))]
        except Unsupported:
            pass
        if v.ty in E.prog.src.structs:
            return [y for i, (n, t) in enumerate(E.prog.src.structs[v.ty]) for y in flat(E, st, E.project(st, v, ("f", i, norm_type(t))))]
        return [repr(v)]
    return [v]


def norm_entry(E, st, l):
    """log entry as (kind, [comparable values])"""
    if l[0] in ("cpi",):
        _, name, c, args = l
        vals = [name] + flat(E, st, c.fields[0])[:1] + flat(E, st, c.fields[1]) + [y for a in args for y in flat(E, st, a)] + [c.fields[2]]
        return "cpi", vals
    if l[0] in ("lamports-", "lamports+"):
        return l[0], [l[1], l[2]]
    if l[0] == "event":
        return "event", [l[1]] + flat(E, st, l[2])
    return l[0], [y for a in l[1:] for y in flat(E, st, a)]


def same_term(a, b):
    if a is None or b is None:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return type(a) is type(b) and a == b


def eq_any(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return Eq(a, b)


AMOUNT = {"token": 4, "sol": 2, "lamports-": 1, "lamports+": 1}


def match_log(P, h, actual, expected, label):
    """every effect is an expected one and every expected effect happens (transfers of nothing do not count)"""
    left = list(actual)
    pairs = []
    for i, (kind, vals) in enumerate(expected):
        for j, a in enumerate(actual):
            if a[0] == kind and len(a[1]) == len(vals) and (kind not in ("cpi", "event", "check", "step") or same_term(a[1][0], vals[0])):
                pairs.append((-sum(same_term(x, y) for x, y in zip(a[1], vals)), i, j))
    match, used = {}, set()
    for _, i, j in sorted(pairs):
        if i not in match and j not in used:
            match[i] = j
            used.add(j)
    for i, (kind, vals) in enumerate(expected):
        if i not in match:
            P.prove("%s: %s happens" % (label, describe(kind, vals)), h, Eq(vals[AMOUNT[kind]], 0) if kind in AMOUNT else False)
            continue
        best = actual[match[i]]
        for k, (x, y) in enumerate(zip(best[1], vals)):
            if y is None:
                continue
            P.prove("%s: %s, item %d" % (label, describe(kind, vals), k), h, eq_any(x, y))
    left = [a for j, a in enumerate(actual) if j not in used]
    for kind, vals in left:
        ok_ = False
        if kind in AMOUNT:
            ok_ = Eq(vals[AMOUNT[kind]], 0)
        P.prove("%s: no other effect (%s)" % (label, describe(kind, vals)), h, ok_)


def describe(kind, vals):
    # (printing a large term takes the solver's printer long)
    short = [str(v) if not z3.is_expr(v) or smt.light(v, 12) else "(...)" for v in vals[:4]]
    return (kind + " " + " ".join(short)).replace("\n", " ")[:120]


class Handler:
    """Specification of an instruction.

    access(x) -> [(label, condition)] every successful execution satisfies (who may call, which accounts it accepts)
    effects(x) -> dict(guards=[(label, cond)], state={account: {field: value}}, log=[entries], inits={account: {...}}, events=[...])
    """

    def __init__(self, name, access=None, effects=None, contracts=True, opts=None, budget=240, weight=3, cases=None):
        self.name, self.access, self.effects, self.opts, self.budget, self.contracts = name, access, effects, opts, budget, contracts
        self.weight = weight
        #: {label: [conditions on the inputs]}; together the cases cover all inputs.  `effects` is proved case by case
        self.cases = cases
        self.split_access = False
        #: contracts used only in this instruction's units
        self.extra = {"effects": {}, "access": {}}


class Method:
    """Specification of a method of an instruction's accounts: what it does to the outside, given its arguments.  In the instruction
    a call of it is one step, recorded with the arguments `record` names; this is verified of the method by its own unit."""

    def __init__(self, key, args, effects, record, opts=None, budget=240, weight=3):
        self.name, self.key, self.args, self.effects, self.record, self.opts = key, key, args.split(), effects, record, opts
        self.budget, self.weight = budget, weight


class Step(core.FnContract):
    def __init__(self, method):
        super().__init__(method.key, " ".join(method.args))
        self.method = method

    def apply(self, E, st, args, dty, callee):
        from .engine import ERR_VALUE, UNIT, err, ok
        fn = E.cur_fn
        a = self.view_args(E, st.copy(), args, fn)
        acc = lambda n: z3.Int("key(%s)" % anchor.ident(E, st, args[self.args.index(n)]))
        rec = self.method.record(a, acc, lambda n: cell_of(E, st, args[self.args.index(n)]))
        e = st.copy()
        st.log.append(("step", self.key) + tuple(rec))
        return [(st, ok(UNIT)), (e, err(ERR_VALUE))]


class Opaque(core.FnContract):
    """A function whose result is left open: the same arguments give the same result."""

    def apply(self, E, st, args, dty, callee):
        from .engine import ERR_VALUE, err, ok
        fn = E.cur_fn
        sty = core.success_type(dty)
        v = E.make("%s(%s)" % (self.key, ",".join(cell_of(E, st, x) for x in args)), sty)
        if generic_args(dty)[0] != "Result":
            return [(st, v)]
        return [(st, ok(v)), (st.copy(), err(ERR_VALUE))]


def cell_of(E, st, v):
    """name of the unmodified symbolic value a reference leads to"""
    while isinstance(v, Ref):
        v = E.load(st, v.cell, v.path)
    if isinstance(v, Sym) and pointee(v.ty) and not v.over:
        r = E.deref(st, v)
        v = E.load(st, r.cell, r.path)
    if not isinstance(v, Sym) or v.over or v.idx:
        raise Unsupported("identity of %r" % (v,))
    return v.name


def verify_method(ctx, m, contracts, res):
    fn = ctx.prog.find(m.key)
    if fn is None:
        res.unsupported = "function %s not found in the compiled crate" % m.key
        return
    fn.parse()
    P = core.Prover(res, 20, m.budget)
    res.functions.append(m.key)
    E = core.make_engine(ctx, contracts, skip=(m.key,))
    E.err_paths = False
    if m.opts:
        m.opts(E)
    E.deadline = time.time() + m.budget * core.TIME_SCALE
    try:
        if len(fn.args) != len(m.args):
            raise Unsupported("signature of %s changed" % m.key)
        st = State()
        st.heap["program_id"] = E.prog.own_id()
        ty = generic_args(pointee(fn.locals[fn.args[0]]))[0]
        st.heap["ctx"] = Agg("struct", ty, [Sym("acct%d" % i, norm_type(t)) for i, (n, t) in enumerate(E.prog.src.structs[ty])])
        st.ghost["ctx"] = Ref("ctx")
        vals = [Ref("ctx")] + [E.make(n, fn.locals[k]) for n, k in zip(m.args[1:], fn.args[1:])]
        for v in vals[1:]:
            if isinstance(v, Sym) and pointee(v.ty):
                E.deref(st, v)
        init = st.copy()
        a = core.FnContract(m.key, " ".join(m.args[1:])).view_args(E, init, vals[1:], type("F", (), {"args": fn.args[1:], "locals": fn.locals}))
        exits = E.run(fn, vals, st)
        nok = 0
        for i, (s, kind, _) in enumerate(core.ok_exits(E, exits, fn.ret)):
            if kind != "ok":
                continue
            x = X(E, Path(E, None, s))
            x.a, x.cell = a, lambda n: cell_of(E, init, vals[m.args.index(n)])
            x.akey = lambda n: z3.Int("key(%s)" % anchor.ident(E, init, vals[m.args.index(n)]))
            h = s.pc
            if not P.cover("cover", h):
                continue
            nok += 1
            tag = "%s [path %d]" % (m.key, i)
            with core.on_path(h):
                eff = m.effects(x)
            for lab, c in eff.get("guards", []):
                P.prove("%s: %s" % (tag, lab), h, c)
            actual = [norm_entry(E, s, l) for l in s.log if l[0] not in ("load_init",)]
            match_log(P, h, actual, [(e[0], list(e[1:])) for e in eff["log"]], tag)
        for name, pc, cond in E.side:
            P.prove(name, pc, cond)
        res.paths += len(exits)
        res.covers += nok
        if nok == 0:
            res.unsupported = "no success path of %s is reachable" % m.key
    except (Unsupported, MirUnsupported) as e:
        res.unsupported = "%s: %s" % (m.key, e)
    except KeyError as e:
        res.unsupported = "%s: field %s" % (m.key, e)
    finally:
        core.absorb(res, E)


def method_unit(m, contracts):
    def run(ctx, res):
        verify_method(ctx, m, contracts, res)
    return core.Unit(m.key, run, kind="instruction")


STATE_CELL = re.compile(r"^\*(acct\d+)$")


def account_goals(x, changes, inits):
    """[(label, cond)]: program accounts change as specified and not otherwise"""
    E, st = x.E, x.st
    out = []
    byid = {x.id(n): n for n in x.fields if x.present(n) and unwrap(x.fields[n][1])[0] in STATE + ("UncheckedAccount", "AccountInfo")}
    changes = dict(changes)
    fresh = {l[1]: l[2] for l in st.log if l[0] == "load_init"}
    for cell in sorted(st.heap):
        m = STATE_CELL.match(cell)
        if not m:
            continue
        v1 = st.heap[cell]
        ty = v1.ty if isinstance(v1, Sym) else v1.name if isinstance(v1, Agg) else None
        if cell in fresh:
            ty = fresh[cell]
        if ty is None or ty not in E.prog.src.structs or ty == "?":
            continue
        n = byid.get(m.group(1), m.group(1))
        s0 = State()
        if cell in fresh:
            v0 = models.zeroed(E, s0, ty)
            want = inits.pop(n, None) if inits else None
            if want is None:
                out.append(("account %s is created" % n, False))
                continue
        else:
            v0 = E.make(cell, ty)
            want = changes.pop(n, {})
        out += [("%s.%s" % (n, a), b) for a, b in core.frame_goals(E, s0, v0, st, v1, ty, want)]
    for n, w in changes.items():
        if w:
            # the account was never loaded: nothing in it changes
            s0 = State()
            t = unwrap(x.fields[n][1])[1]
            v0 = E.make("*" + x.id(n), t)
            out += [("%s.%s" % (n, a), b) for a, b in core.frame_goals(E, s0, v0, s0, v0, t, w)]
    for n in (inits or {}):
        out.append(("account %s is created" % n, False))
    return out


def verify(ctx, spec, part, contracts, res, case=None):
    try:
        E, paths, npaths = execute(ctx, spec.name, dict(contracts if spec.contracts else {}, **spec.extra[part]), spec.budget * core.TIME_SCALE,
                                   spec.opts, spec.cases[case] if case else ())
    except (Unsupported, MirUnsupported) as e:
        res.unsupported = "%s: %s" % (spec.name, e)
        return
    P = core.Prover(res, 20, spec.budget)
    res.functions.append("instruction " + spec.name)
    nok = 0
    try:
        for i, p in enumerate(paths):
            x = X(E, p)
            x.case = case
            h = p.pc
            if not P.cover("cover", h):
                continue
            nok += 1
            tag = "%s [path %d]" % (spec.name, i)
            with core.on_path(h):
                if part == "access":
                    goals = list(spec.access(x))
                    log = None
                else:
                    eff = spec.effects(x)
                    h = h + list(eff.get("env", ()))
                    goals = list(eff.get("guards", []))
                    goals += account_goals(x, eff.get("state", {}), dict(eff.get("inits", {})))
                    log = eff.get("log", [])
            for lab, c in goals:
                P.prove("%s: %s" % (tag, lab), h, c)
            if log is not None:
                actual = [norm_entry(E, p.st, l) for l in p.log if l[0] not in ("load_init", "check")]
                ev = [a for a in actual if a[0] == "event"]
                actual = [a for a in actual if a[0] != "event"]
                skip = eff.get("skip")
                if skip:
                    actual = [a for a in actual if not skip(a)]
                match_log(P, h, actual, [(e[0], list(e[1:])) for e in log], tag)
                if eff.get("events") is not None:
                    match_log(P, h, ev, [("event", list(e)) for e in eff["events"]], tag)
                checks = [norm_entry(E, p.st, l) for l in p.log if l[0] == "check"]
                if eff.get("checks") is not None:
                    match_log(P, h, checks, [("check", list(e)) for e in eff["checks"]], tag)
        for name, pc, cond in E.side:
            P.prove(name, pc, cond)
        res.paths += npaths
        res.covers += nok
        if nok == 0:
            res.unsupported = "no success path of %s is reachable" % spec.name
    except (Unsupported, MirUnsupported) as e:
        res.unsupported = "%s: %s" % (spec.name, e)
    except KeyError as e:
        res.unsupported = "%s: field %s" % (spec.name, e)
    finally:
        core.absorb(res, E)


def unit(spec, part, contracts, case=None):
    def run(ctx, res):
        verify(ctx, spec, part, contracts, res, case)
    return core.Unit("%s: %s%s" % (spec.name, part, " [%s]" % case if case else ""), run, kind="instruction")


def units(spec, part, contracts):
    return [unit(spec, part, contracts, c) for c in (spec.cases if spec.cases and (part == "effects" or spec.split_access) else [None])]
