"""Models of the anchor / solana / spl interface that instruction handlers use.

Every account of an instruction has an identity (`acct3`): its key is the constant key(acct3), its token data and state are
cells named after it.  Effects that leave the program (token transfers, lamport moves, cross-program calls, account closing)
are appended to the ghost log of the state; an external call that is neither modelled nor known to be free of effects is
appended as ("unknown", name), so that a handler's specification fails on it.
"""
import re

import z3

from . import models
from . import engine
from .engine import Agg, Enum, Ite, NONE, Ref, Str, Sym, UNIT, Unsupported, err, ok, pointee, some, ERR_VALUE
from .mir import generic_args, norm_type, split_top
from .models import as_ref_value, deref1, deref_all, inner_ty, reg, trait
from .sym import And, Eq, FACTS, If, INT, Not, Or, conc, is_z3

#: wrappers around an account
WRAPPERS = ("Signer", "UncheckedAccount", "AccountInfo", "AccountLoader", "Account", "InterfaceAccount", "Program", "Interface", "SystemAccount",
            "Sysvar", "Box")

#: external functions without effect outside their result (matched against the printed callee)
PURE = re.compile(
    r"^(Iterator::|IntoIterator::|.*::(into_iter|iter|map|chain|collect|enumerate|zip|copied|cloned|rev)$|Vec::|slice::|str::|String::|ToString::|"
    r"AsRef::|Borrow::|From::|Into::|TryFrom::|TryInto::|Clone::|Default::|PartialEq::|PartialOrd::|Ord::|Deref|Index|FromIterator::|"
    r"Instruction::|AccountMeta::|Pubkey::|BTreeSet::|BTreeMap::|HashMap::|Option::|Result::|Error::|ErrorCode::|Cow::|fmt|Arguments|Formatter|"
    r"sol_log|must_use|format|exchange_malloc|Rent::|Clock::|Sysvar::get|size_of|Layout::|min|max|ToAccountMetas::|ToAccountInfos::|"
    r"box_assume_init_into_vec_unsafe|Range[A-Za-z]*::|int::|bool::|Ordering::|FnOnce::|FnMut::|Fn::|Try::|Extend::|Add::|Sub::|Mul::|Div::|Rem::|get_return_data|GenericArray|hash|memcpy|swap|take|replace|Discriminator)")


def ident(E, st, v):
    v = deref_all(E, st, v)
    if isinstance(v, Agg) and v.kind == "struct" and len(v.fields) == 1:
        v = deref_all(E, st, v.fields[0])
    if not isinstance(v, Sym):
        raise Unsupported("account %r" % (v,))
    n = v.name
    while True:
        if n.startswith("*"):
            n = n[1:]
        elif n.startswith("info(") and n.endswith(")"):
            n = n[5:-1]
        else:
            break
    return n + ("[%s]" % ",".join(str(i) for i in v.idx) if v.idx else "")


def key_leaf(E, st, v):
    return z3.Int("key(%s)" % ident(E, st, v))


def info(E, st, v):
    return Sym("info(%s)" % ident(E, st, v), "AccountInfo")


def project_info(E, st, v, i):
    """field of an AccountInfo"""
    n = ident(E, st, v)
    if i == 0 or i == 3:
        what = "key" if i == 0 else "owner" + ep(st)
        cell = "%s:%s" % (what, n)
        if cell not in st.heap:
            st.heap[cell] = z3.Int("%s(%s)" % (what, n))
        return Ref(cell)
    if i in (5, 6, 7):
        return E.leaf("%s(%s)" % ({5: "signer", 6: "writable", 7: "executable"}[i], n), "bool")
    return None


def is_account_ty(t):
    return t is not None and generic_args(t.lstrip("&").replace("mut ", "").strip())[0] in WRAPPERS


def both(st, v, *log):
    """the call succeeds with v (and has the logged effects) or fails"""
    e = st.copy()
    for x in log:
        st.log.append(x)
    return [(st, ok(v)), (e, err(ERR_VALUE))]


# ---------------------------------------------------------------- accounts

def accounts_slice(E, k):
    """the accounts from number k on, as passed to an instruction"""
    return Ref("accounts@%d" % k, (), E.leaf("naccts", "usize") - k if k else E.leaf("naccts", "usize"))


def first_account(E, st, v):
    """number of the first account of a slice of the instruction's accounts"""
    if isinstance(v, Ref) and v.cell.startswith("accounts@"):
        return "acct%d" % int(v.cell.split("@")[1])
    return None


def accounts_cell(E, st, k):
    st.heap.setdefault("accounts@%d" % k, Sym("accounts@%d" % k, "[AccountInfo]"))
    return accounts_slice(E, k)


def project_accounts(E, st, v, i):
    """element of a slice of accounts"""
    k = int(v.name.split("@")[1])
    if conc(i):
        return Sym("acct%d" % (k + i), "AccountInfo")
    return Sym("acct", "AccountInfo", (i + k,))


@trait("Accounts::try_accounts")
def try_accounts(E, st, c, args, atys, dty):
    if E.cur_fn is not None:
        return None
    r = E.load(st, args[1].cell, args[1].path)
    if not (isinstance(r, Ref) and r.cell.startswith("accounts@")):
        raise Unsupported("accounts are not read from the instruction's accounts")
    k = int(r.cell.split("@")[1])
    ty = inner_ty(dty)
    n = "acct%d" % k
    v = Sym(n, ty)
    e = st.copy()
    st.assume(r.meta > 0)
    E.write_to(st, args[1].cell, list(args[1].path), accounts_cell(E, st, k + 1))
    base, g = generic_args(ty)
    if base == "Box":
        base, g = generic_args(g[0])
    if base == "Signer":
        st.assume(E.leaf("signer(%s)" % n, "bool"))
    if base in ("Program", "Interface"):
        st.assume(z3.Bool("is_program(%s,%s)" % (n, g[0])))
    if base in ("AccountLoader", "Account", "InterfaceAccount"):
        st.assume(z3.Bool("typed(%s,%s)" % (n, g[0])))
    st.ghost.setdefault("accts", ())
    st.ghost["accts"] = st.ghost["accts"] + ((n, ty),)
    return [(st, ok(v)), (e, err(ERR_VALUE))]


@trait("AnchorDeserialize::deserialize", "BorshDeserialize::deserialize")
def deser(E, st, c, args, atys, dty):
    k = st.ghost.get("nix", 0)
    st.ghost["nix"] = k + 1
    return both(st, E.make("ix" if k == 0 else "ix%d" % k, inner_ty(dty)))


@trait("ToAccountInfo::to_account_info")
def to_info(E, st, c, args, atys, dty):
    return [(st, info(E, st, args[0]))]


@trait("Key::key")
def key(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    if isinstance(v, Sym):
        return [(st, key_leaf(E, st, v))]
    if is_z3(v) or isinstance(v, int):
        return [(st, v)]
    return None


@trait("AsRef::as_ref")
def as_ref(E, st, c, args, atys, dty):
    if dty == "&AccountInfo":
        i = info(E, st, args[0])
        st.heap.setdefault(i.name, i)
        return [(st, Ref(i.name))]
    if c.selfty.lstrip("&").startswith("[u8") and isinstance(args[0], Ref):
        r = args[0]
        v = E.load(st, r.cell, r.path)
        while isinstance(v, Ref):
            r, v = v, E.load(st, v.cell, v.path)
        if r.meta is None and isinstance(v, Agg) and v.kind != "bytes":
            r = Ref(r.cell, r.path, len(v.fields))
        return [(st, r)]
    if c.selfty.startswith("Box<"):
        return models.deref_tr(E, st, type(c)() if False else _as_deref(c), args, atys, dty)
    if c.selfty.lstrip("&") == "Pubkey" and dty == "&[u8]":
        v = deref_all(E, st, args[0])
        return [(st, Ref(bytes_cell(E, st, v), (), 32))]
    return None


class _D:
    pass


def _as_deref(c):
    d = _D()
    d.__dict__.update({k: getattr(c, k) for k in ("selfty", "trait", "tgen", "raw", "generics", "segs") if hasattr(c, k)})
    d.name = "deref"
    return d


def bytes_cell(E, st, v):
    cell = "bytes(%s)" % v
    st.heap.setdefault(cell, Agg("bytes", "key", (v,)))
    return cell


@reg("Pubkey::to_bytes")
def to_bytes(E, st, c, args, atys, dty):
    return [(st, Agg("bytes", "key", (deref_all(E, st, args[0]),)))]


@reg("Pubkey::from_str_const")
def from_str(E, st, c, args, atys, dty):
    s = deref_all(E, st, args[0])
    if isinstance(s, Str):
        n = 0
        for ch in s.s:
            n = n * 58 + "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".index(ch)
        return [(st, n)]
    return None


@reg("Pubkey::new_from_array", "Pubkey::from")
def from_array(E, st, c, args, atys, dty):
    a = deref_all(E, st, args[0])
    if isinstance(a, Agg) and a.kind == "bytes":
        return [(st, a.fields[0])]
    if isinstance(a, Agg) and all(isinstance(x, int) for x in a.fields) and len(a.fields) == 32:
        return [(st, int.from_bytes(bytes(a.fields), "big"))]
    return None


@reg("Context::new")
def ctx_new(E, st, c, args, atys, dty):
    st.ghost["ctx"] = args[1]
    return [(st, Agg("struct", "Context", args))]


@trait("AccountsExit::exit")
def acct_exit(E, st, c, args, atys, dty):
    if E.cur_fn is not None:
        return None
    return both(st, UNIT)


@trait("AccountsClose::close")
def acct_close(E, st, c, args, atys, dty):
    return both(st, UNIT, ("close", key_leaf(E, st, args[0]), key_leaf(E, st, args[1])))


@reg("UncheckedAccount::account_info", "AccountLoader::account_info", "Account::account_info", "InterfaceAccount::account_info")
def account_info(E, st, c, args, atys, dty):
    i = info(E, st, args[0])
    st.heap.setdefault(i.name, i)
    return [(st, Ref(i.name))]


@reg("InterfaceAccount::reload", "Account::reload")
def reload(E, st, c, args, atys, dty):
    r = args[0]
    v = deref1(E, st, r)
    if isinstance(v, Ref):
        v = deref_all(E, st, v)
    n = ident(E, st, v)
    k = st.ghost.get("reload:" + n, 0) + 1
    st.ghost["reload:" + n] = k
    ty = generic_args(v.ty)[1][-1]
    for cell in [x for x in st.heap if x.startswith("**" + v.name) and x.lstrip("*") == v.name.lstrip("*")]:
        del st.heap[cell]
    st.heap["*" + v.name] = E.make("reload%s(%s)" % (k if k > 1 else "", n), ty)
    return both(st, UNIT)


# ---------------------------------------------------------------- lamports, sysvars

OUTSIDE = ("cpi", "invoke", "sol", "step", "unknown")


def epoch(st):
    """number of calls so far into programs that may change lamports, owner or size of an account"""
    return len([l for l in st.log if l[0] in OUTSIDE])


def ep(st):
    k = epoch(st)
    return "@%d" % k if k else ""


def lamports(E, st, n):
    t = E.leaf("lamports%s(%s)" % (ep(st), n), "u64")
    last = max([i for i, l in enumerate(st.log) if l[0] in OUTSIDE], default=-1)
    for l in st.log[last + 1:]:
        if l[0] == "lamports-" and l[3] == n:
            t = t - l[2]
        if l[0] == "lamports+" and l[3] == n:
            t = t + l[2]
    return t


@trait("Lamports::sub_lamports")
def sub_lamports(E, st, c, args, atys, dty):
    n = ident(E, st, args[0])
    return [(st_, v) for st_, v in _lam(E, st, "lamports-", n, args)]


def _lam(E, st, kind, n, args):
    e = st.copy()
    if kind == "lamports-":
        st.assume(lamports(E, st, n) >= args[1])
    st.log.append((kind, key_leaf(E, st, args[0]), args[1], n))
    r = deref1(E, st, args[0])
    return [(st, ok(args[0])), (e, err(ERR_VALUE))]


@trait("Lamports::add_lamports")
def add_lamports(E, st, c, args, atys, dty):
    return _lam(E, st, "lamports+", ident(E, st, args[0]), args)


@trait("Lamports::get_lamports")
def get_lamports(E, st, c, args, atys, dty):
    return [(st, lamports(E, st, ident(E, st, args[0])))]


@reg("AccountInfo::lamports")
def ai_lamports(E, st, c, args, atys, dty):
    return get_lamports(E, st, c, args, atys, dty)


RENT = z3.Function("rent_minimum", z3.IntSort(), z3.IntSort())


@trait("Sysvar::get", "SolanaSysvar::get")
def sysvar_get(E, st, c, args, atys, dty):
    return both(st, E.make(c.selfty.lower(), c.selfty))


@reg("Rent::minimum_balance")
def rent_min(E, st, c, args, atys, dty):
    t = RENT(args[1] if is_z3(args[1]) else z3.IntVal(args[1]))
    FACTS.add(t, z3.And(t >= 0, t < 2 ** 64))
    return [(st, t)]


@reg("AccountInfo::try_data_len")
def try_data_len(E, st, c, args, atys, dty):
    return both(st, data_len(E, st, c, args, atys, dty)[0][1])


@reg("AccountInfo::try_borrow_data")
def borrow_data(E, st, c, args, atys, dty):
    n = "data(%s)" % ident(E, st, args[0])
    st.heap.setdefault(n, Agg("bytes", n, (z3.Int(n),)))
    st.heap.setdefault("&" + n, Ref(n))
    return both(st, Ref("&" + n))


@trait("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
def call_closure(E, st, c, args, atys, dty):
    f = deref_all(E, st, args[0])
    a = list(args[1].fields) if isinstance(args[1], Agg) else []
    return [(st, models.call_fnval(E, st, f, a))]


@trait("Iterator::any", "Iterator::all")
def it_any(E, st, c, args, atys, dty):
    it = deref_all(E, st, args[0])
    from . import loops
    if not all(conc(t) for i in loops.iterators(it) for _, t in loops.leaves(i)):
        return models.it_consume(E, st, c, args, atys, dty)
    f = args[1]
    out, work = [], [(st, it)]
    stop = c.name == "any"
    n = 0
    while work:
        n += 1
        if n > 200:
            raise Unsupported("iterator too long")
        s, i = work.pop()
        for s2, v, j in models.it_next(E, s, i):
            if v is None:
                out.append((s2, not stop))
                continue
            for s3, b in E.call_inner(s2, f, [v]):
                for s4, t in models.fork(E, s3, b):
                    if t == stop:
                        out.append((s4, stop))
                    else:
                        work.append((s4, j))
    return out


@reg("slice::contains", "array::contains", "Vec::contains")
def contains(E, st, c, args, atys, dty):
    a, x = deref_all(E, st, args[0]), deref_all(E, st, args[1])
    if isinstance(a, Agg):
        r = [models.eq_values(E, st, y, x) for y in a.fields]
        if all(y is not None for y in r):
            return [(st, Or(*r) if r else False)]
    if isinstance(a, Sym) and "const:" in a.name:
        f = z3.Function("contains(%s)" % a.name.split("::")[-1].replace("const:", ""), z3.IntSort(), z3.BoolSort())
        return [(st, f(kint(x)))]
    return None


@reg("AccountLoader::try_from", "AccountLoader::try_from_unchecked", "Account::try_from", "Account::try_from_unchecked", "InterfaceAccount::try_from",
     "InterfaceAccount::try_from_unchecked")
def loader_from(E, st, c, args, atys, dty):
    n = ident(E, st, args[-1])
    ty = inner_ty(dty)
    base, g = generic_args(ty)
    e = st.copy()
    if c.name == "try_from":
        st.assume(z3.Bool("typed(%s,%s)" % (n, g[-1])))
    return [(st, ok(Sym(n, ty))), (e, err(ERR_VALUE))]


@reg("get_associated_token_address")
def ata0(E, st, c, args, atys, dty):
    return [(st, ATA(*[kint(kd(E, st, x)) for x in args], z3.IntVal(engine.KNOWN_IDS["token::ID"])))]


@reg("validate_zap_out_to_treasury")
def zap_check(E, st, c, args, atys, dty):
    """external check of the zap program's instruction: its verdict is taken, its arguments are recorded"""
    e = st.copy()
    vals = []
    for x in args:
        v = deref_all(E, st, x)
        if isinstance(v, Agg) and v.kind == "bytes":
            v = v.fields[0]
        vals.append(v)
    st.log.append(("check", c.name) + tuple(vals))
    return [(st, ok(UNIT)), (e, err(E.fresh("zap_err", inner_ty(dty, 1))))]


@reg("drop", "forget")
def drop_(E, st, c, args, atys, dty):
    return [(st, UNIT)]


@reg("AccountInfo::data_len")
def data_len(E, st, c, args, atys, dty):
    return [(st, E.leaf("data_len%s(%s)" % (ep(st), ident(E, st, args[0])), "usize"))]


# ---------------------------------------------------------------- programs

def has_ctx(v):
    return isinstance(v, Agg) and v.name == "CpiContext"


@reg("CpiContext::new", "CpiContext::new_with_signer")
def cpi_ctx(E, st, c, args, atys, dty):
    ty = generic_args(dty)[1]
    return [(st, Agg("struct", "CpiContext", [args[0], args[1], c.name == "new_with_signer", ty[-1] if ty else "?"]))]


@reg("CpiContext::with_signer")
def cpi_ws(E, st, c, args, atys, dty):
    f = list(args[0].fields)
    f[2] = True
    return [(st, Agg("struct", "CpiContext", f))]


@reg("CpiContext::with_remaining_accounts")
def cpi_wr(E, st, c, args, atys, dty):
    return [(st, args[0])]


def kd(E, st, v):
    return deref_all(E, st, v)


@reg("transfer_checked")
def transfer_checked(E, st, c, args, atys, dty):
    if has_ctx(args[0]):
        return None
    prog, src, mint, dst, auth, signers, amount, dec = args
    return both(st, Agg("struct", "Ix:token", [kd(E, st, x) for x in (src, mint, dst, auth)] + [amount, dec]))


@reg("transfer")
def sys_transfer(E, st, c, args, atys, dty):
    if has_ctx(args[0]) or len(args) != 3:
        return None
    return [(st, Agg("struct", "Ix:sol", [kd(E, st, args[0]), kd(E, st, args[1]), args[2]]))]


@reg("Instruction::new_with_bytes", "Instruction::new_with_borsh")
def raw_ix(E, st, c, args, atys, dty):
    return [(st, Agg("struct", "Ix:raw", [args[0]]))]


@reg("invoke", "invoke_signed")
def invoke(E, st, c, args, atys, dty):
    ix = deref_all(E, st, args[0])
    signed = c.name == "invoke_signed"
    if isinstance(ix, Agg) and ix.name == "Ix:token":
        return both(st, UNIT, ("token",) + ix.fields[:5] + (signed,))
    if isinstance(ix, Agg) and ix.name == "Ix:sol":
        return both(st, UNIT, ("sol",) + ix.fields + (signed,))
    if isinstance(ix, Agg) and ix.name == "Ix:raw":
        p = deref_all(E, st, ix.fields[0])
        own = E.prog.own_id()
        if isinstance(p, int) and p == own:
            return both(st, UNIT)                # self-call that carries an event
        return both(st, UNIT, ("invoke", p))
    return both(st, UNIT, ("invoke", "unknown instruction"))


@trait("Event::data")
def event(E, st, c, args, atys, dty):
    st.log.append(("event", c.selfty, deref_all(E, st, args[0])))
    return [(st, E.fresh("eventdata", dty))]


ATA = z3.Function("ata", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def kint(x):
    if isinstance(x, Agg) and x.kind == "bytes":
        return kint(x.fields[0])
    return x if is_z3(x) else z3.IntVal(x) if isinstance(x, int) else z3.Int("?" + repr(x))


@reg("get_associated_token_address_with_program_id")
def ata(E, st, c, args, atys, dty):
    return [(st, ATA(*[kint(kd(E, st, x)) for x in args]))]


@reg("authority")
def acc_auth(E, st, c, args, atys, dty):
    return both(st, z3.Int("token_owner(%s)" % ident(E, st, args[0])))


@reg("amount")
def acc_amount(E, st, c, args, atys, dty):
    n = ident(E, st, args[0])
    k = len([l for l in st.log if l[0] in ("token", "cpi", "invoke", "unknown")])
    return both(st, E.leaf("token_amount%s(%s)" % (k or "", n), "u64"))


def seed_id(E, st, v):
    """(shape, key terms) of one seed"""
    if isinstance(v, Sym) and pointee(v.ty):
        v = E.deref(st, v)
    if isinstance(v, Ref):
        x = E.load(st, v.cell, v.path)
        if isinstance(x, (Ref,)) or isinstance(x, Sym) and pointee(x.ty):
            return seed_id(E, st, x)
        if isinstance(x, Agg) and x.kind == "bytes":
            return "K", [x.fields[0]]
        if isinstance(x, Agg) and all(isinstance(b, int) for b in x.fields):
            return "'%s'" % bytes(x.fields).decode("latin1"), []
        if is_z3(x):
            return "T", [x]
        return "?%s" % v.cell, []
    return "?", []


@reg("derive_program_address")
def derive_pda(E, st, c, args, atys, dty):
    r = find_pda(E, st, _named("find_program_address"), args, atys, dty)
    if r is None:
        return None
    t = r[0][1]
    return [(st, Agg("tuple", None, [Agg("bytes", "key", (t.fields[0],)), E.leaf("bump:" + str(t.fields[0]), "u8")]))]


def _named(n):
    d = _D()
    d.name = n
    return d


@reg("Pubkey::find_program_address", "Pubkey::create_program_address", "Pubkey::try_find_program_address")
def find_pda(E, st, c, args, atys, dty):
    r = args[0]
    arr = deref_all(E, st, r)
    if not isinstance(arr, Agg):
        return None
    shape, ks = [], []
    for s in arr.fields:
        a, b = seed_id(E, st, s)
        shape.append(a)
        ks += b
    p = kd(E, st, args[1])
    ks.append(p)
    f = z3.Function("pda(%s)" % ",".join(shape), *([z3.IntSort()] * len(ks)), z3.IntSort())
    t = f(*[kint(k) for k in ks])
    if c.name == "find_program_address":
        return [(st, Agg("tuple", None, [t, E.fresh("bump", "u8")]))]
    return None


@trait("Id::id")
def id_of(E, st, c, args, atys, dty):
    n = {"Token": "token::ID", "Token2022": "token_2022::ID", "System": "system_program::ID"}.get(c.selfty)
    return [(st, engine.KNOWN_IDS[n] if n else z3.Int("program_id(%s)" % c.selfty))]


@reg("check_id")
def check_native(E, st, c, args, atys, dty):
    if (c.segs or [])[-2:] != ["native_mint", "check_id"] or "2022" not in c.segs[-3]:
        return None
    return [(st, Eq(kd(E, st, args[0]), engine.KNOWN_IDS["native_mint_2022"]))]


@reg("StateWithExtensions::unpack")
def unpack_extensions(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    m = re.match(r"data\((.*)\)$", v.name) if isinstance(v, Agg) and v.kind == "bytes" else None
    if not m:
        raise Unsupported("extensions of %r" % (v,))
    return both(st, Agg("struct", "StateWithExtensions", (m.group(1),)))


@trait("BaseStateWithExtensions::get_extension_types")
def extension_types(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    return both(st, Sym("extensions(%s)" % v.fields[0], "Vec<ExtensionType>"))


@reg("ExtensionType::get_required_init_account_extensions", "ExtensionType::try_calculate_account_len")
def extension_sizes(E, st, c, args, atys, dty):
    if dty.startswith("Result<"):
        return both(st, E.fresh("ret:" + c.name, inner_ty(dty)))
    return [(st, E.fresh("ret:" + c.name, dty))]


@reg("get_stack_height")
def stack_height(E, st, c, args, atys, dty):
    return [(st, E.leaf("stack_height", "usize"))]


# ---------------------------------------------------------------- the transaction, as the instructions sysvar shows it

def sysvar_only(E, st, acct, then):
    """solana's `_checked` readers refuse any account but the instructions sysvar"""
    out = []
    for s, t in models.fork(E, st, Eq(key_leaf(E, st, acct), engine.KNOWN_IDS["instructions::ID"])):
        out += then(s) if t else [(s, err(ERR_VALUE))]
    return out


def in_list(E, st, name, i, n, hit, miss):
    return [(s, hit(Sym(name, "Instruction", (i,))) if t else miss) for s, t in models.fork(E, st, And(i >= 0, i < n))]


@reg("load_current_index_checked")
def current_index(E, st, c, args, atys, dty):
    return sysvar_only(E, st, args[0], lambda s: [(s, ok(E.leaf("tx.current", "u16")))])


@reg("load_instruction_at_checked")
def instruction_at(E, st, c, args, atys, dty):
    return sysvar_only(E, st, args[1], lambda s: in_list(E, s, "tx", args[0], E.leaf("tx.count", "u16"), ok, err(ERR_VALUE)))


@reg("get_processed_sibling_instruction")
def sibling(E, st, c, args, atys, dty):
    return in_list(E, st, "sibling", args[0], E.leaf("sibling.count", "u64"), some, NONE)


@reg("get_return_data")
def ret_data(E, st, c, args, atys, dty):
    return None


def cpi_builder(E, st, c, args, dty):
    """mpl-token-metadata's builders of calls: `new(program)`, one method per account or argument, `invoke_signed`"""
    if c.name == "new":
        return [(st, Agg("struct", "CpiBuilder", (c.selfty, deref_all(E, st, args[0]))))]
    r = args[0]
    while isinstance(r, Ref) and isinstance(E.load(st, r.cell, r.path), Ref):
        r = E.load(st, r.cell, r.path)
    b = E.load(st, r.cell, r.path) if isinstance(r, Ref) else r
    if not isinstance(b, Agg) or b.name != "CpiBuilder":
        raise Unsupported("builder %r" % (b,))
    given = dict((x.name, x) for x in b.fields[2:])
    if c.name in ("invoke", "invoke_signed"):
        vals = [given[k] for k in sorted(given)]
        name = b.fields[0][:-len("CpiBuilder")]
        call = Agg("struct", "CpiContext", (b.fields[1], Agg("struct", name + "(" + ",".join(sorted(given)) + ")", tuple(vals)), c.name == "invoke_signed", name))
        return both(st, UNIT, ("cpi", name, call, ()))
    given[c.name] = Agg("struct", c.name, tuple(deref_all(E, st, x) if isinstance(x, Ref) else x for x in args[1:]))
    E.write_to(st, r.cell, list(r.path), Agg("struct", "CpiBuilder", b.fields[:2] + tuple(given.values())))
    return [(st, args[0])]


@trait("ToString::to_string")
def to_string(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    if c.selfty in ("str", "String") and isinstance(v, Sym) and v.ty in ("str", "String"):
        return [(st, v)]
    return None


@reg("find_mint_account_size")
def mint_account_size(E, st, c, args, atys, dty):
    return both(st, E.fresh("ret:" + c.name, inner_ty(dty)))


def unknown(E, st, c, args, atys, dty):
    """an external call that is not modelled: returns its outcomes, or None when it has no effects"""
    if c.selfty and c.selfty.endswith("CpiBuilder"):
        return cpi_builder(E, st, c, args, dty)
    if any(has_ctx(a) for a in args):
        ctx = [a for a in args if has_ctx(a)][0]
        name = "::".join(s for s in (c.segs or [c.name])[-2:] if not s.startswith("<"))
        ent = ("cpi", c.name, ctx, tuple(a for a in args if not has_ctx(a)))
        if dty and dty.startswith("Result<"):
            return both(st, E.fresh("ret:" + c.name, inner_ty(dty)), ent)
        st.log.append(ent)
        return None
    name = short_name(c)
    if PURE.match(name):
        E.unmodelled.add(name)
    else:
        st.log.append(("unknown", str(c)))
    return None


def short_name(c):
    if c.trait:
        return c.trait + "::" + c.name
    if not c.selfty:
        return c.name
    b = generic_args(c.selfty)[0]
    return ("int" if b in INT else "slice" if b.startswith("[") else b) + "::" + c.name


@reg("try_from_bytes", "bytemuck::try_from_bytes")
def pod_view(E, st, c, args, atys, dty):
    """bytes of an unmodified array seen as a plain struct"""
    a = args[0]
    while isinstance(a, Ref) and isinstance(E.load(st, a.cell, a.path), Ref):
        a = E.load(st, a.cell, a.path)
    v = E.load(st, a.cell, a.path) if isinstance(a, Ref) else a
    t = (c.generics or [None])[0] or pointee(generic_args(dty)[1][0])
    if not isinstance(v, Sym) or v.over or v.idx or t not in E.prog.src.structs:
        raise Unsupported("bytes of %r as %s" % (v, t))
    n = "pod(%s)" % v.name
    st.heap.setdefault(n, Sym(n, t))
    return [(st, ok(Ref(n))), (st.copy(), err(ERR_VALUE))]
