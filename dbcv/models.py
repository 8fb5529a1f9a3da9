"""Models of functions outside the crate (core, alloc, ruint, anchor, solana).

A model is a function (engine, state, callee, args, argtypes, desttype) -> list of (state, value) where value may
be PANIC or a Tail (continue in a closure / function).  None means: no model, treat as unknown.
Everything modelled here is an assumption about a dependency and is listed in the evidence (`assumed externals`).
"""
import re

import z3

from . import engine, sym
from .engine import (Agg, Enum, FnItem, Ite, NONE, PANIC, Ref, Str, Sym, Tail, UNIT, Unsupported, array_ty, err, ok,
                     parse_callee, pointee, some, ERR_VALUE, STD_ENUMS)
from .mir import generic_args, norm_type, split_top
from .sym import (And, Eq, FACTS, If, Implies, INT, Ne, Not, Or, cdiv, conc, fdiv, fmod, in_range, is_z3, lo_hi, pow2, wrap)

REG = {}          # exact "Type::method" or "Trait::method" or "fn"
BYTRAIT = {}
PATTERNS = []


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


def trait(*names):
    def d(f):
        for n in names:
            BYTRAIT[n] = f
        return f
    return d


NOISE = re.compile(r"^(Arguments::|Argument::|format$|must_use$|sol_log|Location::|Error::with_|Formatter::|"
                   r"String::|Vec::with_capacity|.*ToString)")


def lookup(c, fn, src):
    k = None
    if c.trait:
        k = BYTRAIT.get(c.trait + "::" + c.name) or BYTRAIT.get(c.trait)
        if k and fn is not None and c.trait in ("From", "Into", "TryFrom", "PartialEq", "PartialOrd", "Clone", "Default", "Deref",
                                                "DerefMut", "TryInto"):
            # crate implementations run in place, except conversions into error types
            if not (c.trait in ("From", "Into") and "Error" in "".join(c.tgen) + (c.selfty or "")):
                if c.trait in ("PartialEq", "PartialOrd", "Clone") and not src.hand_written(c.trait, c.selfty):
                    return k
                return None
        return k
    if fn is not None:
        return None
    if c.selfty:
        base = generic_args(c.selfty)[0]
        r = REG.get(base + "::" + c.name)
        if r:
            return r
        if base + "_" + c.name in prelude().fns:
            return std_method
        if base in INT:
            return REG.get("int::" + c.name)
        if c.selfty.startswith("["):
            return REG.get("slice::" + c.name)
        return None
    return REG.get(c.name)


# ---------------------------------------------------------------- helpers

def variants(E, st, v):
    """forks on the variant of an enum value: [(state, Enum)]"""
    if isinstance(v, Enum):
        return [(st, v)]
    if isinstance(v, Ite):
        out = []
        for c, x in ((v.c, v.a), (Not(v.c), v.b)):
            s2 = st.copy()
            if E.feasible(s2, c) and s2.assume(c):
                out += variants(E, s2, x)
        return out
    if isinstance(v, Sym):
        d = E.prog.enum_def(v.ty)
        if d is None:
            raise Unsupported("variants of %r" % v)
        base, g = generic_args(v.ty)
        t = E.discriminant(st, v)
        out = []
        for i, (n, k) in enumerate(d):
            s2 = st.copy()
            c = Eq(t, k)
            if not E.feasible(s2, c) or not s2.assume(c):
                continue
            pay = payload_types(E, base, g, i)
            inner = E.project(s2, v, ("v", n))
            fs = [E.project(s2, inner, ("f", j, ty)) for j, ty in enumerate(pay)]
            out.append((s2, Enum(base, i, n, fs)))
        return out
    raise Unsupported("variants of %r" % (v,))


def payload_types(E, base, g, i):
    if base == "Option":
        return [] if i == 0 else [g[0]]
    if base == "Result":
        return [g[0]] if i == 0 else [g[1] if len(g) > 1 else "Error"]
    if base == "ControlFlow":
        return [g[1]] if i == 0 else [g[0]]
    if base == "Ordering":
        return []
    vs = E.prog.src.enums.get(base)
    if vs:
        p = vs[i][2]
        if not p:
            return []
        if isinstance(p, (list, tuple)):
            return [x[1] if isinstance(x, tuple) else x for x in p]
    return []


def fork(E, st, c):
    """[(state, truth)]"""
    if conc(c):
        return [(st, bool(c))]
    out = []
    for cc, t in ((c, True), (Not(c), False)):
        if E.feasible(st, cc):
            s2 = st.copy()
            if s2.assume(cc):
                out.append((s2, t))
    return out


def deref_all(E, st, v):
    while isinstance(v, Ref) or isinstance(v, Sym) and v.ty and pointee(v.ty):
        if isinstance(v, Sym):
            v = E.deref(st, v)
        v = E.load(st, v.cell, v.path)
    return v


def deref1(E, st, v):
    if isinstance(v, Ref):
        return E.load(st, v.cell, v.path)
    if isinstance(v, Sym) and pointee(v.ty):
        r = E.deref(st, v)
        return E.load(st, r.cell, r.path)
    return v


def as_ref_value(E, st, v, base="tmp"):
    cell = E.fresh_name(base)
    st.heap[cell] = v
    return Ref(cell)


def inner_ty(ty, i=0):
    g = generic_args(ty or "")[1]
    return g[i] if len(g) > i else None


# ---------------------------------------------------------------- ? operator

@trait("Try::branch")
def try_branch(E, st, c, args, atys, dty):
    out = []
    for s, v in variants(E, st, args[0]):
        if v.ty == "Option":
            out.append((s, Enum("ControlFlow", 0, "Continue", v.fields) if v.vname == "Some"
                        else Enum("ControlFlow", 1, "Break", (NONE,))))
        else:
            out.append((s, Enum("ControlFlow", 0, "Continue", v.fields) if v.vname == "Ok"
                        else Enum("ControlFlow", 1, "Break", (err(v.fields[0]),))))
    return out


@trait("FromResidual::from_residual")
def from_residual(E, st, c, args, atys, dty):
    if c.selfty.startswith("Option"):
        return [(st, NONE)]
    e = args[0].fields[0] if isinstance(args[0], Enum) and args[0].fields else ERR_VALUE
    tgt = inner_ty(dty, 1)
    if not (isinstance(e, Enum) and e.ty == tgt):
        e = ERR_VALUE
    return [(st, err(e))]


# ---------------------------------------------------------------- Option / Result

def opt_ty(args, atys, dty):
    return None


@reg("Option::ok_or_else", "Option::ok_or")
def o_ok_or_else(E, st, c, args, atys, dty):
    return [(s, ok(v.fields[0]) if v.vname == "Some" else err(ERR_VALUE)) for s, v in variants(E, st, args[0])]


@reg("Result::map_err")
def r_map_err(E, st, c, args, atys, dty):
    return [(s, v if v.vname == "Ok" else err(ERR_VALUE)) for s, v in variants(E, st, args[0])]


@reg("Result::ok")
def r_ok(E, st, c, args, atys, dty):
    return [(s, some(v.fields[0]) if v.vname == "Ok" else NONE) for s, v in variants(E, st, args[0])]


@reg("Result::err")
def r_err(E, st, c, args, atys, dty):
    return [(s, some(v.fields[0]) if v.vname == "Err" else NONE) for s, v in variants(E, st, args[0])]


@reg("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def o_unwrap(E, st, c, args, atys, dty):
    return [(s, v.fields[0] if v.vname in ("Some", "Ok") else PANIC) for s, v in variants(E, st, args[0])]


@reg("Option::unwrap_or", "Result::unwrap_or")
def o_unwrap_or(E, st, c, args, atys, dty):
    return [(s, v.fields[0] if v.vname in ("Some", "Ok") else args[1]) for s, v in variants(E, st, args[0])]


@reg("Option::unwrap_or_default", "Result::unwrap_or_default")
def o_unwrap_or_default(E, st, c, args, atys, dty):
    return [(s, v.fields[0] if v.vname in ("Some", "Ok") else default_of(E, s, dty)) for s, v in variants(E, st, args[0])]


@reg("Option::unwrap_or_else", "Result::unwrap_or_else")
def o_unwrap_or_else(E, st, c, args, atys, dty):
    out = []
    for s, v in variants(E, st, args[0]):
        if v.vname in ("Some", "Ok"):
            out.append((s, v.fields[0]))
        else:
            out.append((s, call_fnval(E, s, args[1], [] if v.vname == "None" else list(v.fields))))
    return out


def call_fnval(E, s, f, a, post=None):
    if isinstance(f, Agg) and f.kind == "closure":
        return Tail("closure", f, a, post)
    if isinstance(f, FnItem):
        cc = parse_callee(f.path)
        if cc.selfty:
            d = E.prog.enum_def(cc.selfty)
            if d:
                for i, (n, k) in enumerate(d):
                    if n == cc.name:
                        v = Enum(generic_args(cc.selfty)[0], i, n, a)
                        return post(E, s, v) if post else v
        return Tail("fn", f.path, a, post)
    raise Unsupported("call of %r" % (f,))


@reg("Option::map", "Result::map")
def o_map(E, st, c, args, atys, dty):
    out = []
    for s, v in variants(E, st, args[0]):
        if v.vname in ("Some", "Ok"):
            w = some if v.vname == "Some" else ok
            out.append((s, call_fnval(E, s, args[1], [v.fields[0]], lambda E_, s_, r, w=w: w(r))))
        else:
            out.append((s, v))
    return out


@reg("Option::and_then", "Result::and_then")
def o_and_then(E, st, c, args, atys, dty):
    out = []
    for s, v in variants(E, st, args[0]):
        if v.vname in ("Some", "Ok"):
            out.append((s, call_fnval(E, s, args[1], [v.fields[0]])))
        else:
            out.append((s, v))
    return out


@reg("Option::map_or", "Result::map_or")
def o_map_or(E, st, c, args, atys, dty):
    out = []
    for s, v in variants(E, st, args[0]):
        if v.vname in ("Some", "Ok"):
            out.append((s, call_fnval(E, s, args[2], [v.fields[0]])))
        else:
            out.append((s, args[1]))
    return out


@reg("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def o_is(E, st, c, args, atys, dty):
    v = deref1(E, st, args[0])
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[c.name]
    return [(s, x.vname == want) for s, x in variants(E, st, v)]


@reg("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut")
def o_as_ref(E, st, c, args, atys, dty):
    r = args[0]
    if isinstance(r, Sym):
        r = E.deref(st, r)
    v = E.load(st, r.cell, r.path)
    out = []
    for s, x in variants(E, st, v):
        if x.vname == "Some":
            out.append((s, some(Ref(r.cell, tuple(r.path) + (("v", "Some"), ("f", 0, inner_ty(pointee(atys[0]) or "") or "?"))))))
        else:
            out.append((s, NONE))
    return out


@reg("Option::copied", "Option::cloned")
def o_copied(E, st, c, args, atys, dty):
    return [(s, some(deref1(E, s, x.fields[0])) if x.vname == "Some" else x) for s, x in variants(E, st, args[0])]


@reg("Option::or")
def o_or(E, st, c, args, atys, dty):
    return [(s, v if v.vname == "Some" else args[1]) for s, v in variants(E, st, args[0])]


@reg("Option::take", "Option::replace")
def o_take(E, st, c, args, atys, dty):
    r = args[0]
    if not isinstance(r, Ref):
        raise Unsupported(str(c))
    old = E.load(st, r.cell, r.path)
    E.write_to(st, r.cell, list(r.path), NONE if c.name == "take" else some(args[1]))
    return [(st, old)]


@reg("Option::insert")
def o_unsup(E, st, c, args, atys, dty):
    raise Unsupported(str(c))


# ---------------------------------------------------------------- integers

def int_ty(c, atys, dty):
    if c.selfty in INT:
        return c.selfty
    raise Unsupported("integer type of %s" % c)


def opt_int(E, st, r, ty):
    return [(s, some(r) if t else NONE) for s, t in fork(E, st, in_range(r, ty))]


@reg("int::checked_add", "int::checked_sub", "int::checked_mul")
def i_checked(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    r = a + b if c.name.endswith("add") else a - b if c.name.endswith("sub") else a * b
    return opt_int(E, st, r, ty)


@reg("int::checked_div", "int::checked_rem")
def i_checked_div(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    out = []
    if INT[ty][1]:
        lo = lo_hi(ty)[0]
        for s, z in fork(E, st, Or(Eq(b, 0), And(Eq(a, lo), Eq(b, -1)))):
            out.append((s, NONE if z else some(E.arith(s, "Div" if c.name.endswith("div") else "Rem", a, b, ty))))
        return out
    for s, z in fork(E, st, Eq(b, 0)):
        out.append((s, NONE if z else some(fdiv(a, b) if c.name.endswith("div") else fmod(a, b))))
    return out


@reg("int::div_ceil")
def i_div_ceil(E, st, c, args, atys, dty):
    out = []
    for s, z in fork(E, st, Eq(args[1], 0)):
        out.append((s, PANIC if z else cdiv(*args)))
    return out


@trait("Integer::div_rem", "Integer::div_mod_floor")
def integer_div_rem(E, st, c, args, atys, dty):
    if c.selfty not in INT or INT[c.selfty][1]:
        return None
    a = [deref_all(E, st, x) for x in args]
    return [(s, PANIC if z else Agg("tuple", None, [fdiv(*a), fmod(*a)])) for s, z in fork(E, st, Eq(a[1], 0))]


@reg("int::div_rem")
def i_div_rem(E, st, c, args, atys, dty):
    out = []
    for s, z in fork(E, st, Eq(args[1], 0)):
        out.append((s, PANIC if z else Agg("tuple", None, [fdiv(*args), fmod(*args)])))
    return out


def ruint_shl(E, st, a, b, ty):
    """ruint 1.14 overflowing_shl: value modulo 2^bits; its flag looks only at the bits carried out of the last limb it moves,
    limbs that are moved out whole are dropped silently"""
    bits = INT[ty][0]
    r = wrap(a * pow2(b), ty)
    if conc(b):
        limbs, n = b // 64, b % 64
        if limbs >= bits // 64:
            return 0, Ne(a, 0)
        last = fmod(fdiv(a, 1 << (64 * (bits // 64 - 1 - limbs))), 1 << 64)
        return r, Ne(fdiv(last, 1 << (64 - n)), 0) if n else False
    lost = E.fresh("shl_lost", "bool")
    st.assume(Implies(lost, Or(a * pow2(b) >= 1 << bits, b >= bits)))
    return r, lost


def ruint_shr(E, st, a, b, ty):
    bits = INT[ty][0]
    q = If(b >= bits, 0, fdiv(a, pow2(b)))
    if conc(b):
        limbs, n = b // 64, b % 64
        if limbs >= bits // 64:
            return 0, Ne(a, 0)
        low = fmod(fdiv(a, 1 << (64 * limbs)), 1 << 64)
        return q, Ne(fmod(low, 1 << n), 0) if n else False
    lost = E.fresh("shr_lost", "bool")
    st.assume(Implies(lost, q * pow2(b) < a))
    return q, lost


@reg("int::checked_shl", "int::checked_shr")
def i_checked_shift(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    bits = INT[ty][0]
    out = []
    big = ty in ("U256", "U512")
    for s, t in fork(E, st, True if big else b < bits):
        if not t:
            out.append((s, NONE))
            continue
        if c.name == "checked_shr":
            if big:
                q, lost = ruint_shr(E, s, a, b, ty)
                for s2, t2 in fork(E, s, lost):
                    out.append((s2, NONE if t2 else some(q)))
            else:
                out.append((s, some(fdiv(a, pow2(b)))))
        elif big:
            r, lost = ruint_shl(E, s, a, b, ty)
            for s2, t2 in fork(E, s, lost):
                out.append((s2, NONE if t2 else some(r)))
        else:
            out.append((s, some(wrap(a * pow2(b), ty))))
    return out


@reg("int::overflowing_shr")
def i_overflowing_shr(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    if ty not in ("U256", "U512"):
        n = INT[ty][0]
        return [(st, Agg("tuple", None, [fdiv(a, pow2(fmod(b, n))), b >= n]))]
    q, lost = ruint_shr(E, st, a, b, ty)
    return [(st, Agg("tuple", None, [q, lost]))]


@reg("int::overflowing_add", "int::overflowing_sub", "int::overflowing_mul")
def i_overflowing(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    r = a + b if c.name.endswith("add") else a - b if c.name.endswith("sub") else a * b
    return [(st, Agg("tuple", None, [wrap(r, ty), Not(in_range(r, ty))]))]


@reg("int::wrapping_add", "int::wrapping_sub", "int::wrapping_mul")
def i_wrapping(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    r = a + b if c.name.endswith("add") else a - b if c.name.endswith("sub") else a * b
    return [(st, wrap(r, ty))]


@reg("int::saturating_add", "int::saturating_sub", "int::saturating_mul")
def i_saturating(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    r = a + b if c.name.endswith("add") else a - b if c.name.endswith("sub") else a * b
    lo, hi = lo_hi(ty)
    return [(st, If(r < lo, lo, If(r > hi, hi, r)))]


@reg("int::is_negative", "int::is_positive")
def i_sign(E, st, c, args, atys, dty):
    return [(st, args[0] < 0 if c.name == "is_negative" else args[0] > 0)]


@reg("int::abs_diff")
def i_absdiff(E, st, c, args, atys, dty):
    a, b = args
    return [(st, If(a >= b, a - b, b - a))]


@reg("int::pow", "int::checked_pow")
def i_pow(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, dty)
    a, b = args
    if not (conc(b) and b <= 64):
        if conc(a) and a == 2:
            r = pow2(b)
        elif conc(a) and ty in INT and a > 1:
            m = 0
            while a ** (m + 1) <= lo_hi(ty)[1]:
                m += 1
            r = a ** (m + 1)
            for k in range(m, -1, -1):
                r = If(Eq(b, k), a ** k, r)
            if c.name == "checked_pow":
                return opt_int(E, st, r, ty)
            return [(s, r if t else PANIC) for s, t in fork(E, st, in_range(r, ty))]
        else:
            raise Unsupported("pow")
    else:
        r = 1
        for _ in range(b):
            r = r * a
    if c.name == "checked_pow":
        return opt_int(E, st, r, ty)
    return [(s, r if t else PANIC) for s, t in fork(E, st, in_range(r, ty))]


@reg("int::leading_zeros")
def i_lz(E, st, c, args, atys, dty):
    a = deref_all(E, st, args[0])
    ty = int_ty(c, atys, dty)
    bits = INT[ty][0]
    if conc(a):
        return [(st, bits - a.bit_length())]
    m = getattr(E, "top_bit", None)
    if m is not None:
        # case split by the caller: the highest one bit of the argument is bit m
        E.side.append(("highest bit of the argument is %d" % m, list(st.pc), And(a >= 1 << m, a < 1 << (m + 1))))
        return [(st, bits - 1 - m)]
    t = E.fresh("lz", "usize")
    # 2^(bits-lz-1) <= a < 2^(bits-lz) unless a == 0
    f = z3.And(t >= 0, t <= bits)
    st.assume(f)
    st.assume(z3.Implies(a == 0, t == bits))
    st.ghost = dict(st.ghost)
    cs = []
    for k in range(bits):
        cs.append(z3.Implies(t == k, z3.And(a >= 1 << (bits - k - 1), a < 1 << (bits - k))))
    st.assume(z3.And(*cs))
    st.assume(z3.Implies(t == bits, a == 0))
    return [(st, t)]


@reg("int::rem_euclid", "int::div_euclid", "int::next_multiple_of", "int::is_multiple_of", "int::saturating_div")
def i_euclid(E, st, c, args, atys, dty):
    ty = int_ty(c, atys, atys[0])
    a, b = args
    if ty not in INT or INT[ty][1]:
        return None
    out = []
    for s, z in fork(E, st, Eq(b, 0)):
        if z:
            out.append((s, Eq(a, 0) if c.name == "is_multiple_of" else PANIC))
        elif c.name in ("rem_euclid", "div_euclid", "saturating_div"):
            out.append((s, fmod(a, b) if c.name == "rem_euclid" else fdiv(a, b)))
        elif c.name == "is_multiple_of":
            out.append((s, Eq(fmod(a, b), 0)))
        else:
            r = cdiv(a, b) * b
            out += [(s2, r if t else PANIC) for s2, t in fork(E, s, in_range(r, ty))]
    return out


@reg("int::is_zero")
def i_is_zero(E, st, c, args, atys, dty):
    return [(st, Eq(deref_all(E, st, args[0]), 0))]


@reg("int::is_power_of_two")
def i_p2(E, st, c, args, atys, dty):
    raise Unsupported("is_power_of_two")


@reg("int::min", "int::max")
def i_minmax(E, st, c, args, atys, dty):
    a, b = args
    return [(st, If(a <= b, a, b) if c.name == "min" else If(a >= b, a, b))]


@trait("Ord::min", "Ord::max")
def ord_minmax(E, st, c, args, atys, dty):
    if c.selfty not in INT:
        return None
    return i_minmax(E, st, c, args, atys, dty)


@reg("min", "max")
def f_minmax(E, st, c, args, atys, dty):
    if dty == "&Pubkey":
        # keys are compared byte by byte from the first one, as the numbers they are represented by
        a, b = [deref_all(E, st, x) for x in args]
        if isinstance(a, (Sym, Agg)) or isinstance(b, (Sym, Agg)):
            return None
        cell = E.fresh_name("key")
        st.heap[cell] = If(a <= b, a, b) if c.name == "min" else If(b >= a, b, a)
        return [(st, Ref(cell))]
    if isinstance(args[0], (Sym, Ref, Agg)):
        return None
    return i_minmax(E, st, c, args, atys, dty)


@trait("Ord::clamp")
def ord_clamp(E, st, c, args, atys, dty):
    a, lo, hi = args
    return [(s, If(a < lo, lo, If(a > hi, hi, a)) if t else PANIC) for s, t in fork(E, st, lo <= hi)]


ARITH = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Rem": "Rem", "BitAnd": "BitAnd", "BitOr": "BitOr",
         "BitXor": "BitXor", "Shl": "Shl", "Shr": "Shr"}


@trait("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr")
def op_trait(E, st, c, args, atys, dty):
    a, b = [deref_all(E, st, x) for x in args]
    ty = c.selfty.lstrip("&")
    if ty not in INT:
        return None
    op = c.trait
    if op in ("Shl", "Shr"):
        bits = INT[ty][0]
        if op == "Shr":
            r = If(b >= bits, 0, fdiv(a, pow2(b)))
        else:
            r = If(b >= bits, 0, wrap(a * pow2(b), ty))
        if ty in ("U256", "U512"):
            return [(st, r)]
        return [(s, r if t else PANIC) for s, t in fork(E, st, b < bits)]
    if op in ("Div", "Rem"):
        return [(s, PANIC if z else (fdiv(a, b) if op == "Div" else fmod(a, b))) for s, z in fork(E, st, Eq(b, 0))]
    if ty in ("U256", "U512"):
        # ruint operators wrap silently
        return [(st, E.arith(st, op, a, b, ty))]
    if op in ("Add", "Sub", "Mul"):
        r = a + b if op == "Add" else a - b if op == "Sub" else a * b
        return [(s, r if t else PANIC) for s, t in fork(E, st, in_range(r, ty))]
    return [(st, E.arith(st, op, a, b, ty))]


@trait("AddAssign", "SubAssign", "MulAssign", "DivAssign", "ShlAssign", "ShrAssign", "BitAndAssign", "BitOrAssign", "RemAssign", "BitXorAssign")
def opassign_trait(E, st, c, args, atys, dty):
    r = args[0]
    if not isinstance(r, Ref):
        return None
    a = E.load(st, r.cell, r.path)
    import copy
    c2 = parse_callee("<%s as %s>::x" % (c.selfty, c.trait.replace("Assign", "")))
    res = op_trait(E, st, c2, [a, args[1]], [c.selfty, None], c.selfty)
    if res is None:
        return None
    out = []
    for s, v in res:
        if v is PANIC:
            out.append((s, v))
        else:
            E.write_to(s, r.cell, list(r.path), v)
            out.append((s, UNIT))
    return out


@trait("Not::not")
def not_trait(E, st, c, args, atys, dty):
    if c.selfty.lstrip("&") == "bool":
        return [(st, Not(deref_all(E, st, args[0])))]
    if c.selfty in INT and not INT[c.selfty][1]:
        return [(st, lo_hi(c.selfty)[1] - args[0])]
    return None


def eq_values(E, st, a, b):
    a, b = deref_all(E, st, a), deref_all(E, st, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        return And(*[eq_values(E, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        if a.vname != b.vname:
            return False
        return And(*[eq_values(E, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, (Enum, Sym, Ite)) and isinstance(b, (Enum, Sym, Ite)):
        ta = a.ty if isinstance(a, (Enum, Sym)) else None
        tb = b.ty if isinstance(b, (Enum, Sym)) else None
        t = ta or tb
        d = E.prog.enum_def(t) if t else None
        if d:
            simple = generic_args(t)[0] not in ("Option", "Result") and all(
                not v[2] for v in E.prog.src.enums.get(generic_args(t)[0], [("", 0, None)]))
            if simple:
                return Eq(E.discriminant(st, a), E.discriminant(st, b))
        if isinstance(a, Sym) and isinstance(b, Sym) and t in E.prog.src.structs:
            fs = E.prog.src.structs[t]
            return And(*[eq_values(E, st, E.project(st, a, ("f", i, norm_type(ty))), E.project(st, b, ("f", i, norm_type(ty))))
                         for i, (n, ty) in enumerate(fs)])
        return None
    if isinstance(a, Agg) and isinstance(b, Sym) or isinstance(b, Agg) and isinstance(a, Sym):
        g, s = (a, b) if isinstance(a, Agg) else (b, a)
        if generic_args(s.ty)[0] in E.prog.src.structs:
            fs = E.prog.src.structs[generic_args(s.ty)[0]]
            r = [eq_values(E, st, g.fields[i], E.project(st, s, ("f", i, norm_type(ty)))) for i, (n, ty) in enumerate(fs)]
            return None if any(x is None for x in r) else And(*r)
        return None
    if isinstance(a, (Sym, Str, FnItem, Agg)) or isinstance(b, (Sym, Str, FnItem, Agg)):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and a.idx == b.idx and not a.over and not b.over:
            return True
        return None
    return Eq(a, b)


@trait("PartialEq::eq", "PartialEq::ne")
def partial_eq(E, st, c, args, atys, dty):
    base = c.selfty.lstrip("&")
    if base.startswith("Option"):
        out = []
        for s, a in variants(E, st, deref1(E, st, args[0])):
            for s2, b in variants(E, s, deref1(E, s, args[1])):
                r = eq_values(E, s2, a, b)
                if r is None:
                    r = E.fresh("eq", "bool")
                out.append((s2, r if c.name == "eq" else Not(r)))
        return out
    r = eq_values(E, st, args[0], args[1])
    if r is None:
        r = E.fresh("eq", "bool")
    return [(st, r if c.name == "eq" else Not(r))]


@trait("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def partial_ord(E, st, c, args, atys, dty):
    a, b = deref_all(E, st, args[0]), deref_all(E, st, args[1])
    if isinstance(a, (Sym, Ite, Enum)) or isinstance(b, (Sym, Ite, Enum)):
        ta = a.ty if isinstance(a, (Sym, Enum)) else ""
        if E.prog.enum_def(ta):
            a, b = E.discriminant(st, a), E.discriminant(st, b)
        else:
            return None
    if isinstance(a, Agg):
        return None
    return [(st, {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[c.name]())]


@trait("Ord::cmp", "PartialOrd::partial_cmp")
def ord_cmp(E, st, c, args, atys, dty):
    a, b = deref_all(E, st, args[0]), deref_all(E, st, args[1])
    if isinstance(a, (Sym, Ite, Enum, Agg)):
        return None
    v = E.cmp_value(a, b)
    return [(st, v if c.name == "cmp" else some(v))]


# ---------------------------------------------------------------- conversions

def conv_int(E, st, v, src, dst):
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        return If(v, 1, 0)
    return v


@trait("From::from", "Into::into")
def from_into(E, st, c, args, atys, dty):
    dst = c.selfty if c.trait == "From" else c.tgen[0] if c.tgen else dty
    src = c.tgen[0] if c.trait == "From" and c.tgen else c.selfty
    v = args[0]
    if dst in INT and (src in INT or src == "bool"):
        return [(st, conv_int(E, st, v, src, dst))]
    if dst in INT:
        # crate enum deriving IntoPrimitive
        if isinstance(v, (Enum, Sym, Ite)) and E.prog.enum_def(src):
            return [(st, E.discriminant(st, v))]
        return None
    if "Error" in (dst or "") or "Error" in (dty or ""):
        return [(st, ERR_VALUE)]
    if src == dst:
        return [(st, v)]
    return None


@reg("U256::from", "U512::from")
def ruint_from(E, st, c, args, atys, dty):
    v = args[0]
    ty = dty if dty in INT else c.selfty
    if isinstance(v, (Sym, Agg)):
        return None
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        v = If(v, 1, 0)
    src = atys[0]
    if src in INT and INT[src][0] <= INT[ty][0] and not INT[src][1]:
        return [(st, v)]
    return [(s, v if t else PANIC) for s, t in fork(E, st, in_range(v, ty))]


@reg("U256::from_limbs", "U512::from_limbs")
def ruint_limbs(E, st, c, args, atys, dty):
    a = args[0]
    if isinstance(a, Agg):
        return [(st, sum((x * (1 << (64 * i)) for i, x in enumerate(a.fields[1:], 1)), a.fields[0]))]
    return None


@reg("U256::to", "U512::to")
def ruint_to(E, st, c, args, atys, dty):
    if dty not in INT:
        return None
    return [(s, args[0] if t else PANIC) for s, t in fork(E, st, in_range(args[0], dty))]


@reg("U256::saturating_to")
def ruint_sat(E, st, c, args, atys, dty):
    hi = lo_hi(dty)[1]
    return [(st, If(args[0] > hi, hi, args[0]))]


@reg("U256::wrapping_to")
def ruint_wrapto(E, st, c, args, atys, dty):
    return [(st, wrap(args[0], dty))]


@trait("TryFrom::try_from", "TryInto::try_into")
def try_conv(E, st, c, args, atys, dty):
    dst = c.selfty if c.trait == "TryFrom" else c.tgen[0]
    src = (c.tgen[0] if c.tgen else None) if c.trait == "TryFrom" else c.selfty
    v = args[0]
    if dst in INT and src in INT:
        return [(s, ok(v) if t else err(ERR_VALUE)) for s, t in fork(E, st, in_range(v, dst))]
    if src == "Vec<u8>" and array_ty(dst) and isinstance(v, Agg) and v.kind == "borsh":
        return [(st, ok(v) if E.const_len(array_ty(dst)[1], st, None) == borsh_size(E, v.name) else err(v))]
    if "OptionalNonZeroPubkey" in (c.selfty, *(c.tgen or ())):
        a = Agg("struct", "OptionalNonZeroPubkey", (deref_all(E, st, v),))
        return [(st, ok(a)), (st.copy(), err(ERR_VALUE))]
    if c.trait == "TryInto":
        # `x.try_into()` runs `T::try_from(x)` of the crate
        f = E.prog.by_trait.get(("TryFrom", generic_args(dst)[0], "try_from"))
        if f:
            return [(st, Tail("fn", "<%s as TryFrom<%s>>::try_from" % (dst, src), [v]))]
    return None


@trait("FromPrimitive::from_u128", "FromPrimitive::from_u64")
def from_prim(E, st, c, args, atys, dty):
    if c.selfty not in INT:
        return None
    return [(s, some(args[0]) if t else NONE) for s, t in fork(E, st, in_range(args[0], c.selfty))]


@trait("ToPrimitive::to_u64", "ToPrimitive::to_u128")
def to_prim(E, st, c, args, atys, dty):
    v = deref1(E, st, args[0])
    return [(s, some(v) if t else NONE) for s, t in fork(E, st, in_range(v, c.name[3:]))]


@trait("Clone::clone", "ToOwned::to_owned")
def clone(E, st, c, args, atys, dty):
    return [(st, deref1(E, st, args[0]))]


@trait("Copy::copy")
def copy_(E, st, c, args, atys, dty):
    return [(st, deref1(E, st, args[0]))]


def default_of(E, st, ty):
    if ty in INT:
        return 0
    if ty == "bool":
        return False
    if ty == "Pubkey":
        return pubkey_const(E, "default")
    if ty.startswith("Option<"):
        return NONE
    at = array_ty(ty)
    if at and at[1]:
        n = E.const_len(at[1], st, None)
        return Agg("array", None, [default_of(E, st, at[0]) for _ in range(n)])
    if ty.startswith("(") and ty != "()":
        return Agg("tuple", None, [default_of(E, st, t) for t in split_top(ty[1:-1])])
    if ty == "()":
        return UNIT
    return None


def pubkey_const(E, name):
    return z3.Int("pubkey:" + name)


@trait("Default::default")
def default(E, st, c, args, atys, dty):
    v = default_of(E, st, c.selfty)
    if v is None and c.selfty in E.prog.src.idl_structs:
        vs = [default_of(E, st, norm_type(t)) for _, t in E.prog.src.structs[c.selfty]]
        v = Agg("struct", c.selfty, vs) if None not in vs else None
    if v is None:
        return None
    return [(st, v)]


# ---------------------------------------------------------------- pointers

@trait("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "AsMut::as_mut")
def deref_tr(E, st, c, args, atys, dty):
    r = args[0]
    if isinstance(r, Sym):
        r = E.deref(st, r)
    v = E.load(st, r.cell, r.path)
    if c.selfty.startswith("Vec<"):
        if isinstance(v, Agg):
            return [(st, Ref(r.cell, r.path, len(v.fields)))]
        if isinstance(v, Sym):
            return [(st, Ref(r.cell, r.path, E.vec_len(v)))]
        return None
    if c.selfty == "String" and c.name == "deref" and isinstance(v, Sym) and v.ty == "String":
        return [(st, r)]
    if c.selfty == "String" or c.selfty.startswith("[") or c.name in ("as_ref", "borrow", "as_mut"):
        return None
    if isinstance(v, Ref):
        return [(st, Ref(v.cell, v.path, v.meta, v.tag))]
    if isinstance(v, Sym):
        t = pointee(dty or "")
        if t is None:
            return None
        cell = "*" + v.name
        if cell not in st.heap:
            st.heap[cell] = E.make(cell, t, v.idx)
        return [(st, Ref(cell))]
    return None


def acct_cell(E, st, loader, ty):
    v = deref1(E, st, loader)
    if isinstance(v, Ref):
        v = deref_all(E, st, v)
    if not isinstance(v, Sym):
        raise Unsupported("account loader %r" % (v,))
    cell = "*" + v.name
    if cell not in st.heap:
        st.heap[cell] = E.make(cell, ty, v.idx)
    return cell


@reg("AccountLoader::load", "AccountLoader::load_mut", "AccountLoader::load_init")
def loader_load(E, st, c, args, atys, dty):
    g = generic_args(inner_ty(dty) or "")[1]
    ty = g[-1]
    cell = acct_cell(E, st, args[0], ty)
    s2 = st.copy()
    if c.name == "load_init":
        # a freshly created account: every byte zero
        st.heap[cell] = zeroed(E, st, ty)
        st.log.append(("load_init", cell, ty))
    return [(st, ok(Ref(cell))), (s2, err(ERR_VALUE))]


def zeroed(E, st, ty):
    if ty in INT:
        return 0
    if ty == "bool":
        return False
    if ty == "Pubkey":
        return pubkey_const(E, "default")
    at = array_ty(ty)
    if at and at[1]:
        n = E.const_len(at[1], st, None)
        return Agg("array", None, [zeroed(E, st, at[0]) for _ in range(n)])
    if ty in E.prog.src.structs:
        return Agg("struct", ty, [zeroed(E, st, norm_type(t)) for n, t in E.prog.src.structs[ty]])
    return E.fresh("zeroed", ty)


@trait("Key::key")
def key_of(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    if isinstance(v, Sym):
        return [(st, E.leaf("key(" + v.name + ")", "Pubkey", v.idx))]
    if is_z3(v):
        return [(st, v)]     # Pubkey itself
    return None


@reg("Pubkey::default")
def pk_default(E, st, c, args, atys, dty):
    return [(st, pubkey_const(E, "default"))]


@reg("Box::new", "Rc::new")
def box_new(E, st, c, args, atys, dty):
    return [(st, as_ref_value(E, st, args[0], "box"))]


@reg("exchange_malloc", "box_new")
def malloc(E, st, c, args, atys, dty):
    cell = E.fresh_name("heap")
    st.heap[cell] = Sym(cell, "?")
    return [(st, Ref(cell))]


# ---------------------------------------------------------------- iterators, vectors, slices

@trait("IntoIterator::into_iter")
def into_iter(E, st, c, args, atys, dty):
    v = args[0]
    if c.selfty.startswith(("Range<", "Rev<", "RangeInclusive<", "Enumerate<", "Take<", "Skip<", "Zip<", "Iter<", "StepBy<", "Windows<", "Copied<", "Cloned<", "Map<")):
        return [(st, v)]
    if isinstance(v, Ref) and c.selfty.startswith("&"):
        return slice_iter(E, st, c, args, atys, dty)
    if isinstance(v, (Agg, Sym)) and (c.selfty.startswith("[") or c.selfty.startswith("Vec<")):
        cell = E.fresh_name("into_iter")
        st.heap[cell] = v
        n = len(v.fields) if isinstance(v, Agg) else E.vec_len(v)
        return [(st, Agg("struct", "OwnIter", [Ref(cell, (), n), 0, n]))]
    return None


@reg("slice::iter", "slice::iter_mut", "Vec::iter")
def slice_iter(E, st, c, args, atys, dty):
    r = args[0]
    if isinstance(r, Sym):
        r = E.deref(st, r)
    n = r.meta
    if n is None:
        v = E.load(st, r.cell, r.path)
        n = len(v.fields) if isinstance(v, Agg) else E.vec_len(v) if v.ty.startswith("Vec") else E.const_len(array_ty(v.ty)[1], st, None)
    return [(st, Agg("struct", "SliceIter", [Ref(r.cell, r.path, n), 0, n]))]


@reg("slice::len", "Vec::len")
def slice_len(E, st, c, args, atys, dty):
    r = args[0]
    if isinstance(r, Sym):
        r = E.deref(st, r)
    if r.meta is not None:
        return [(st, r.meta)]
    v = E.load(st, r.cell, r.path)
    if isinstance(v, Agg):
        return [(st, len(v.fields))]
    if isinstance(v, Sym) and v.ty.startswith("Vec"):
        return [(st, E.vec_len(v))]
    at = array_ty(v.ty)
    if at and at[1]:
        return [(st, E.const_len(at[1], st, None))]
    return None


@reg("slice::is_empty", "Vec::is_empty")
def slice_is_empty(E, st, c, args, atys, dty):
    r = slice_len(E, st, c, args, atys, dty)
    return r and [(s, Eq(n, 0)) for s, n in r]


@reg("slice::get", "slice::first", "slice::last", "Vec::get")
def slice_get(E, st, c, args, atys, dty):
    r = args[0]
    if isinstance(r, Sym):
        r = E.deref(st, r)
    n = slice_len(E, st, c, [r], atys, dty)
    if n is None:
        return None
    n = n[0][1]
    if c.name == "get":
        i = args[1]
        if isinstance(i, Agg):
            return None
    else:
        i = 0 if c.name == "first" else n - 1
    return [(s, some(Ref(r.cell, tuple(r.path) + (("i", i),))) if t else NONE)
            for s, t in fork(E, st, And(i >= 0, i < n))]


@trait("Index::index", "IndexMut::index_mut")
def index(E, st, c, args, atys, dty):
    r, i = args
    if isinstance(i, Agg) and i.name == "RangeFrom" and isinstance(r, Ref) and r.cell.startswith("accounts@") and conc(i.fields[0]):
        k = int(r.cell.split("@")[1]) + i.fields[0]
        return [(s, E.anchor.accounts_cell(E, s, k) if t else PANIC) for s, t in fork(E, st, r.meta >= i.fields[0])]
    if isinstance(i, Agg) and i.name == "RangeFull" and isinstance(r, Ref):
        n = slice_len(E, st, c, [r], atys, dty)
        return n and [(st, Ref(r.cell, r.path, n[0][1]))]
    if isinstance(i, Agg) and i.name in ("RangeFrom", "Range", "RangeTo") and isinstance(r, Ref):
        n = slice_len(E, st, c, [r], atys, dty)
        v = E.load(st, r.cell, r.path)
        lo = 0 if i.name == "RangeTo" else i.fields[0]
        hi = n and (n[0][1] if i.name == "RangeFrom" else i.fields[-1])
        if n and isinstance(v, Agg) and conc(n[0][1]) and conc(lo) and conc(hi) and v.kind != "bytes" and 0 <= lo <= hi <= n[0][1]:
            cell = E.fresh_name("slice")
            st.heap[cell] = Agg("array", None, v.fields[lo:hi])
            return [(st, Ref(cell, (), hi - lo))]
        if n and isinstance(v, Sym) and v.ty == "Vec<u8>" and i.name != "RangeFrom" and conc(lo) and conc(hi) and 0 <= lo <= hi <= 64:
            cell = E.fresh_name("slice")
            st.heap[cell] = Agg("array", None, [E.project(st, v, ("i", k)) for k in range(lo, hi)])
            return [(s, Ref(cell, (), hi - lo) if t else PANIC) for s, t in fork(E, st, n[0][1] >= hi)]
        return None
    if isinstance(i, (Agg, Sym)):
        return None
    if isinstance(r, Sym):
        r = E.deref(st, r)
    n = slice_len(E, st, c, [r], atys, dty)
    if n is None:
        return None
    n = n[0][1]
    return [(s, Ref(r.cell, tuple(r.path) + (("i", i),)) if t else PANIC) for s, t in fork(E, st, And(i >= 0, i < n))]


def adaptor(name):
    def f(E, st, c, args, atys, dty):
        return [(st, Agg("struct", name, list(args)))]
    return f


for _n, _k in (("rev", "Rev"), ("skip", "Skip"), ("take", "Take"), ("zip", "Zip"), ("step_by", "StepBy"), ("copied", "Copied"), ("cloned", "Copied"), ("map", "Map")):
    BYTRAIT["Iterator::" + _n] = adaptor(_k)


@trait("Iterator::skip", "Iterator::take")
def it_skip(E, st, c, args, atys, dty):
    it, n = args
    if isinstance(it, Agg) and it.name in ("SliceIter", "OwnIter", "Windows"):
        r, a, b = it.fields
        m = If(a + n < b, a + n, b)
        return [(st, Agg("struct", it.name, [r, m, b] if c.name == "skip" else [r, a, m]))]
    if isinstance(it, Agg) and it.name == "Range":
        a, b = it.fields
        m = If(a + n < b, a + n, If(a < b, b, a))
        return [(st, Agg("struct", it.name, [m, b] if c.name == "skip" else [a, m]))]
    return [(st, Agg("struct", c.name.capitalize(), list(args)))]


@trait("Iterator::enumerate")
def it_enumerate(E, st, c, args, atys, dty):
    return [(st, Agg("struct", "Enumerate", [args[0], 0]))]


def it_next(E, st, it, back=False):
    """pure: returns [(state, item or None, iterator)]"""
    if isinstance(it, Sym) and generic_args(it.ty)[0] == "Range":
        t = inner_ty(it.ty)
        it = Agg("struct", "Range", [E.project(st, it, ("f", 0, t)), E.project(st, it, ("f", 1, t))])
    if not isinstance(it, Agg):
        raise Unsupported("next on %r" % (it,))
    k = it.name
    if k == "Range":
        a, b = it.fields
        out = []
        for s, t in fork(E, st, a < b):
            if not t:
                out.append((s, None, it))
            elif back:
                out.append((s, b - 1, Agg("struct", "Range", [a, b - 1])))
            else:
                out.append((s, a, Agg("struct", "Range", [a + 1, b])))
        return out
    if k == "RangeInclusive":
        a, b, over = it.fields
        out = []
        for s, t in fork(E, st, And(Not(over), a <= b)):
            if not t:
                out.append((s, None, it))
                continue
            for s2, last in fork(E, s, Eq(a, b)):
                out.append((s2, b if back else a, Agg("struct", k, [a, b, True] if last else [a, b - 1, over] if back else [a + 1, b, over])))
        return out
    if k == "Rev":
        return [(s, v, Agg("struct", "Rev", [i])) for s, v, i in it_next(E, st, it.fields[0], not back)]
    if k in ("SliceIter", "OwnIter"):
        r, a, b = it.fields
        out = []
        for s, t in fork(E, st, a < b):
            if not t:
                out.append((s, None, it))
                continue
            i = b - 1 if back else a
            ref = Ref(r.cell, tuple(r.path) + (("i", i),))
            v = ref if k == "SliceIter" else E.load(s, ref.cell, ref.path)
            out.append((s, v, Agg("struct", k, [r, a, b - 1] if back else [r, a + 1, b])))
        return out
    if k == "Windows":
        r, a, b = it.fields
        out = []
        for s, t in fork(E, st, a < b):
            if not t:
                out.append((s, None, it))
                continue
            i = b - 1 if back else a
            cell = E.fresh_name("window")
            s.heap[cell] = Agg("array", None, [E.load(s, r.cell, tuple(r.path) + (("i", i + j),)) for j in range(r.meta)])
            out.append((s, Ref(cell, (), r.meta), Agg("struct", k, [r, a, b - 1] if back else [r, a + 1, b])))
        return out
    if k == "Enumerate" and not back:
        inner, n = it.fields
        return [(s, None if v is None else Agg("tuple", None, [n, v]), Agg("struct", k, [i, n if v is None else n + 1]))
                for s, v, i in it_next(E, st, inner)]
    if k == "Skip" and not back:
        inner, n = it.fields
        states = [(st, inner)]
        if not conc(n):
            raise Unsupported("skip")
        for _ in range(n):
            states = [(s, i) for s0, i0 in states for s, v, i in it_next(E, s0, i0)]
        return [(s, v, Agg("struct", k, [i, 0])) for s0, i0 in states for s, v, i in it_next(E, s0, i0)]
    if k == "Take" and not back:
        inner, n = it.fields
        out = []
        for s, t in fork(E, st, Eq(n, 0)):
            if t:
                out.append((s, None, it))
            else:
                out += [(s2, v, Agg("struct", k, [i, n - 1])) for s2, v, i in it_next(E, s, inner)]
        return out
    if k == "Zip" and not back:
        out = []
        b = it.fields[1]
        for s, v, i in it_next(E, st, it.fields[0]):
            if v is None:
                out.append((s, None, Agg("struct", k, [i, b])))
                continue
            for s2, w, j in it_next(E, s, b):
                out.append((s2, None if w is None else Agg("tuple", None, [v, w]), Agg("struct", k, [i, j])))
        return out
    if k == "Copied":
        return [(s, None if v is None else deref1(E, s, v), Agg("struct", k, [i])) for s, v, i in it_next(E, st, it.fields[0], back)]
    raise Unsupported("iterator " + str(k))


@trait("Iterator::next", "DoubleEndedIterator::next_back")
def iter_next(E, st, c, args, atys, dty):
    r = args[0]
    it = E.load(st, r.cell, r.path)
    if isinstance(it, Agg) and it.name == "Map":
        out = []
        for s, v, i in it_next(E, st, it.fields[0], c.name == "next_back"):
            E.write_to(s, r.cell, list(r.path), Agg("struct", "Map", [i, it.fields[1]]))
            if v is None:
                out.append((s, NONE))
            else:
                out.append((s, call_fnval(E, s, it.fields[1], [v], lambda E_, s_, x: some(x))))
        return out
    out = []
    for s, v, i in it_next(E, st, it, c.name == "next_back"):
        E.write_to(s, r.cell, list(r.path), i)
        out.append((s, NONE if v is None else some(v)))
    return out


@reg("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def range_contains(E, st, c, args, atys, dty):
    r, x = deref_all(E, st, args[0]), deref_all(E, st, args[1])
    if not isinstance(r, Agg) or not (conc(x) or is_z3(x)):
        return None
    k = generic_args(c.selfty)[0]
    lo = [x >= r.fields[0]] if k in ("Range", "RangeInclusive", "RangeFrom") else []
    hi = [x < r.fields[-1]] if k in ("Range", "RangeTo") else [x <= r.fields[1 if k == "RangeInclusive" else 0]] if k != "RangeFrom" else []
    return [(st, And(*(lo + hi)))]


@reg("RangeInclusive::new")
def range_incl(E, st, c, args, atys, dty):
    return [(st, Agg("struct", "RangeInclusive", list(args) + [False]))]


@reg("RangeInclusive::start", "RangeInclusive::end")
def range_bound(E, st, c, args, atys, dty):
    r = deref_all(E, st, args[0])
    return [(st, as_ref_value(E, st, r.fields[0 if c.name == "start" else 1]))] if isinstance(r, Agg) else None


@reg("mem::replace", "mem::take", "replace", "take")
def mem_replace(E, st, c, args, atys, dty):
    r = args[0]
    if not isinstance(r, Ref):
        return None
    old = E.load(st, r.cell, r.path)
    E.write_to(st, r.cell, list(r.path), args[1] if c.name == "replace" else default_of(E, st, dty))
    return [(st, old)]


@reg("mem::swap", "swap")
def mem_swap(E, st, c, args, atys, dty):
    a, b = args
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return None
    x, y = E.load(st, a.cell, a.path), E.load(st, b.cell, b.path)
    E.write_to(st, a.cell, list(a.path), y)
    E.write_to(st, b.cell, list(b.path), x)
    return [(st, UNIT)]


_PRELUDE = []


def prelude():
    if not _PRELUDE:
        import os
        from .mir import Mir
        _PRELUDE.append(Mir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.mir"), "prelude"))
    return _PRELUDE[0]


def std_method(E, st, c, args, atys, dty):
    """a method of the standard library as prelude.rs defines it"""
    f = prelude().fns[generic_args(c.selfty)[0] + "_" + c.name][0].parse()
    sub = {}
    base, g = generic_args(c.selfty)
    if base in ("Option", "Result"):
        engine.unify(f.locals[f.args[0]], c.selfty, sub)
    if dty:
        engine.unify(f.ret, dty, sub)
    return [(st, Tail("prelude", f, list(args), sub))]


@trait("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::for_each", "Iterator::fold", "Iterator::try_fold", "Iterator::try_for_each")
def it_consume(E, st, c, args, atys, dty):
    """consumers of iterators run as the loops of prelude.rs"""
    if c.name in ("try_fold", "try_for_each") and not (dty or "").startswith("Result<"):
        return None
    f = prelude().fns[c.name][0].parse()
    it = args[0]
    if isinstance(it, Ref):
        v = E.load(st, it.cell, it.path)
        E.write_to(st, it.cell, list(it.path), Sym(E.fresh_name("consumed"), "?"))
        it = v
    sub = {"ItI": c.selfty}
    if dty:
        engine.unify(f.ret, dty, sub)
    return [(st, Tail("prelude", f, [it] + list(args[1:]), sub))]


@reg("slice::windows")
def windows(E, st, c, args, atys, dty):
    r = args[0]
    n = slice_len(E, st, c, [r], atys, dty)
    if n is None or not conc(args[1]) or not 1 <= args[1] <= 4 or not isinstance(r, Ref):
        return None
    k = args[1]
    m = n[0][1] - (k - 1)
    return [(st, Agg("struct", "Windows", [Ref(r.cell, r.path, k), 0, If(m > 0, m, 0)]))]


@reg("Vec::new", "Vec::with_capacity")
def vec_new(E, st, c, args, atys, dty):
    return [(st, Agg("array", None, []))]


def borsh_size(E, ty):
    """bytes of a serialised structure of integers"""
    if ty in INT:
        return INT[ty][0] // 8
    if ty == "bool":
        return 1
    if ty not in E.prog.src.structs or E.prog.src.hand_written("AnchorSerialize", ty) or E.prog.src.hand_written("AnchorDeserialize", ty):
        raise Unsupported("serialisation of %s" % ty)
    return sum(borsh_size(E, norm_type(t)) for _, t in E.prog.src.structs[ty])


def borsh_leaves(E, st, v, ty):
    if ty not in E.prog.src.structs:
        return [v]
    return [x for i, (n, t) in enumerate(E.prog.src.structs[ty]) for x in borsh_leaves(E, st, E.project(st, v, ("f", i, norm_type(t))), norm_type(t))]


@trait("AnchorSerialize::serialize", "BorshSerialize::serialize")
def borsh_write(E, st, c, args, atys, dty):
    """derived serialisation into an empty vector"""
    r = args[1]
    w = E.load(st, r.cell, r.path) if isinstance(r, Ref) else None
    if not (isinstance(w, Agg) and w.kind == "array" and not w.fields) or c.selfty not in E.prog.src.structs:
        return None
    borsh_size(E, c.selfty)
    v = deref_all(E, st, args[0])
    E.write_to(st, r.cell, list(r.path), Agg("borsh", c.selfty, borsh_leaves(E, st, v, c.selfty)))
    return [(st, ok(UNIT))]


@trait("AnchorDeserialize::try_from_slice", "BorshDeserialize::try_from_slice")
def borsh_read(E, st, c, args, atys, dty):
    """a structure read back from bytes that are exactly as long as it"""
    v = deref_all(E, st, args[0])
    n = borsh_size(E, c.selfty)
    if isinstance(v, Agg) and v.kind == "borsh" and v.name == c.selfty and all(t in INT for _, t in E.prog.src.structs[v.name]):
        return [(st, ok(Agg("struct", c.selfty, v.fields)))]
    at = array_ty(v.ty) if isinstance(v, Sym) else None
    if at and not v.over and not v.idx and "bool" not in [t for _, t in E.prog.src.structs[c.selfty]]:
        if E.const_len(at[1], st, None) != n:
            return [(st, err(ERR_VALUE))]
        return [(st, ok(Sym("borsh(%s)" % v.name, c.selfty)))]
    raise Unsupported("%s read from %r" % (c.selfty, v))


@reg("Vec::push")
def vec_push(E, st, c, args, atys, dty):
    r = args[0]
    v = E.load(st, r.cell, r.path)
    if not isinstance(v, Agg):
        return None
    E.write_to(st, r.cell, list(r.path), Agg("array", None, list(v.fields) + [args[1]]))
    return [(st, UNIT)]


@reg("slice::into_vec", "slice::to_vec")
def into_vec(E, st, c, args, atys, dty):
    v = deref_all(E, st, args[0])
    if isinstance(v, Agg):
        return [(st, v)]
    return None


# ---------------------------------------------------------------- panics, errors, logging

@reg("panic", "panic_fmt", "panic_const_div_by_zero", "panic_bounds_check", "unwrap_failed", "expect_failed", "begin_panic", "panic_explicit",
     "panic_display", "assert_failed", "slice_index_order_fail", "slice_end_index_len_fail")
def panic(E, st, c, args, atys, dty):
    return [(st, PANIC)]


@reg("Error::with_account_name", "Error::with_values", "Error::with_source", "Error::with_pubkeys")
def err_id(E, st, c, args, atys, dty):
    return [(st, ERR_VALUE)]


@reg("sol_log", "sol_log_data", "must_use")
def nolog(E, st, c, args, atys, dty):
    return None


@reg("id", "Program::id")
def prog_id(E, st, c, args, atys, dty):
    return None


# ---------------------------------------------------------------- anyhow

@reg("not", "__private::not")
def anyhow_not(E, st, c, args, atys, dty):
    return [(st, Not(args[0]))]


@trait("Context::context", "Context::with_context")
def anyhow_context(E, st, c, args, atys, dty):
    return [(s, ok(v.fields[0]) if v.vname in ("Ok", "Some") else err(ERR_VALUE)) for s, v in variants(E, st, args[0])]
