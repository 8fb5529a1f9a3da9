"""Contracts of the arithmetic layer: checked primitives, multiply-divide, shifts, square root, curve formulas."""
import z3

from ..core import FnContract, SpecFn, lemma_unit
from ..sym import (And, Eq, If, Implies, INT, Not, Or, U64MAX, U128MAX, U256MAX, as_int, cdiv, conc, fdiv, fmod, in_range, is_z3, lo_hi,
                   pow2)

UP, DOWN = 0, 1
Q128 = 1 << 128
Q64 = 1 << 64


def div_round(n, d, rnd):
    return If(Eq(rnd, UP), cdiv(n, d), fdiv(n, d))


# --------------------------------------------------------------- specification functions of the curve

def _base_dn(lo, hi, L):
    return fdiv(L * (hi - lo), lo * hi)


def _base_up(lo, hi, L):
    return cdiv(L * (hi - lo), lo * hi)


def _quote_dn(lo, hi, L):
    return fdiv(L * (hi - lo), Q128)


def _quote_up(lo, hi, L):
    return cdiv(L * (hi - lo), Q128)


def _ok3(lo, hi, L):
    return And(lo > 0, hi >= lo, L >= 0)


BASE_DN = SpecFn("BASE_DN", _base_dn, ["i"] * 3, lambda t, lo, hi, L: [
    Implies(_ok3(lo, hi, L), t >= 0), Implies(And(_ok3(lo, hi, L), Eq(lo, hi)), Eq(t, 0)), Implies(And(_ok3(lo, hi, L), Eq(L, 0)), Eq(t, 0)),
    Implies(_ok3(lo, hi, L), And(BASE_UP.f(lo_(lo), lo_(hi), lo_(L)) >= t, BASE_UP.f(lo_(lo), lo_(hi), lo_(L)) <= t + 1))])
BASE_UP = SpecFn("BASE_UP", _base_up, ["i"] * 3, lambda t, lo, hi, L: [
    Implies(_ok3(lo, hi, L), t >= 0), Implies(And(_ok3(lo, hi, L), Eq(lo, hi)), Eq(t, 0)), Implies(And(_ok3(lo, hi, L), Eq(L, 0)), Eq(t, 0)),
    Implies(And(_ok3(lo, hi, L), hi > lo, L > 0), t >= 1),
    Implies(_ok3(lo, hi, L), And(t >= BASE_DN.f(lo_(lo), lo_(hi), lo_(L)), t <= BASE_DN.f(lo_(lo), lo_(hi), lo_(L)) + 1))])
QUOTE_DN = SpecFn("QUOTE_DN", _quote_dn, ["i"] * 3, lambda t, lo, hi, L: [
    Implies(_ok3(lo, hi, L), t >= 0), Implies(And(_ok3(lo, hi, L), Eq(lo, hi)), Eq(t, 0)), Implies(And(_ok3(lo, hi, L), Eq(L, 0)), Eq(t, 0)),
    Implies(_ok3(lo, hi, L), And(QUOTE_UP.f(lo_(lo), lo_(hi), lo_(L)) >= t, QUOTE_UP.f(lo_(lo), lo_(hi), lo_(L)) <= t + 1))])
QUOTE_UP = SpecFn("QUOTE_UP", _quote_up, ["i"] * 3, lambda t, lo, hi, L: [
    Implies(_ok3(lo, hi, L), t >= 0), Implies(And(_ok3(lo, hi, L), Eq(lo, hi)), Eq(t, 0)), Implies(And(_ok3(lo, hi, L), Eq(L, 0)), Eq(t, 0)),
    Implies(And(_ok3(lo, hi, L), hi > lo, L > 0), t >= 1),
    Implies(_ok3(lo, hi, L), And(t >= QUOTE_DN.f(lo_(lo), lo_(hi), lo_(L)), t <= QUOTE_DN.f(lo_(lo), lo_(hi), lo_(L)) + 1))])


def lo_(x):
    return as_int(x)


def _nqi(p, L, a):
    return p + fdiv(a * Q128, L)


def _nbi(p, L, a):
    return If(Eq(a, 0), p, cdiv(L * p, L + a * p))


def _nqo(p, L, a):
    return p - cdiv(a * Q128, L)


def _nbo(p, L, a):
    return If(Eq(a, 0), p, cdiv(L * p, L - a * p))


NEXT_QIN = SpecFn("NEXT_QIN", _nqi, ["i"] * 3, lambda t, p, L, a: [
    Implies(And(L > 0, a >= 0), t >= p), Implies(And(L > 0, Eq(a, 0)), Eq(t, p))])
NEXT_BIN = SpecFn("NEXT_BIN", _nbi, ["i"] * 3, lambda t, p, L, a: [
    Implies(And(L > 0, p > 0, a >= 0), And(t <= p, t >= 1)), Implies(Eq(a, 0), Eq(t, p))])
NEXT_QOUT = SpecFn("NEXT_QOUT", _nqo, ["i"] * 3, lambda t, p, L, a: [
    Implies(And(L > 0, a >= 0), t <= p), Implies(And(L > 0, Eq(a, 0)), Eq(t, p))])
NEXT_BOUT = SpecFn("NEXT_BOUT", _nbo, ["i"] * 3, lambda t, p, L, a: [
    Implies(And(L > 0, p > 0, a >= 0, a * p < L), t >= p), Implies(Eq(a, 0), Eq(t, p))])

SPEC_MATH = [BASE_DN, BASE_UP, QUOTE_DN, QUOTE_UP, NEXT_QIN, NEXT_BIN, NEXT_QOUT, NEXT_BOUT]


def spec_fact_goals():
    """every fact attached to a specification function, proved from its definition"""
    out = []
    for s in SPEC_MATH:
        xs = [z3.Int("%s_%d" % (s.name, i)) for i in range(len(s.arg_tys))]
        t = z3.Int("%s_v" % s.name)
        # definitions of this function and of its sibling in the facts
        hyps = [t == s.defn(*xs)]
        subst = [(s.f(*xs), t)]
        sib = {"BASE_DN": BASE_UP, "BASE_UP": BASE_DN, "QUOTE_DN": QUOTE_UP, "QUOTE_UP": QUOTE_DN}.get(s.name)
        if sib is not None:
            u = z3.Int("%s_w" % s.name)
            hyps.append(u == sib.defn(*xs))
            subst.append((sib.f(*xs), u))
        if s.name.startswith(("BASE", "QUOTE")):
            # lo*hi > 0 follows from the guard
            lo, hi, L = xs
            hyps += [Implies(_ok3(lo, hi, L), lo * hi > 0), Implies(_ok3(lo, hi, L), L * (hi - lo) >= 0),
                     Implies(And(_ok3(lo, hi, L), hi > lo, L > 0), L * (hi - lo) > 0),
                     Implies(Eq(lo, hi), Eq(L * (hi - lo), 0)), Implies(Eq(L, 0), Eq(L * (hi - lo), 0))]
        if s.name.startswith(("BASE", "QUOTE")):
            out += [("%s products %d" % (s.name, i + 1), [], h) for i, h in enumerate(hyps[-5:])]
        for i, f in enumerate(s.facts(t, *xs)):
            out.append(("%s fact %d" % (s.name, i + 1), hyps, z3.substitute(f, *subst) if is_z3(f) else f))
    return out


def delta_pre(a):
    return True


# --------------------------------------------------------------- contracts

def _shl256(x, off):
    return x * pow2(off)


def delta_when(num, den, a, ty="u64"):
    pass


def _delta_base(a):
    return If(Eq(a.round, UP), BASE_UP(a.lo, a.hi, a.L), BASE_DN(a.lo, a.hi, a.L))


def _delta_quote(a):
    return If(Eq(a.round, UP), QUOTE_UP(a.lo, a.hi, a.L), QUOTE_DN(a.lo, a.hi, a.L))


def _rev_base(a):
    return [BASE_UP.reveal(a.lo, a.hi, a.L), BASE_DN.reveal(a.lo, a.hi, a.L)]


def _rev_quote(a):
    return [QUOTE_UP.reveal(a.lo, a.hi, a.L), QUOTE_DN.reveal(a.lo, a.hi, a.L)]


CON = {}


def add(c):
    CON[c.key] = c
    return c


add(FnContract("mul_div_u256", "x y d rnd", exact=True,
               when=lambda a: And(a.d > 0, div_round(a.x * a.y, a.d, a.rnd) <= U256MAX),
               result=lambda a: div_round(a.x * a.y, a.d, a.rnd)))
add(FnContract("mul_shr", "x y offset", result=lambda a: fdiv(a.x * a.y, pow2(a.offset)),
               when=lambda a: fdiv(a.x * a.y, pow2(a.offset)) <= U128MAX, exact=True))
add(FnContract("shl_div", "x y offset rnd", pre=lambda a: a.offset <= 128,
               when=lambda a: And(a.y > 0, div_round(a.x * pow2(a.offset), a.y, a.rnd) <= U128MAX),
               result=lambda a: div_round(a.x * pow2(a.offset), a.y, a.rnd)))
add(FnContract("shl_div_256", "x y offset", pre=lambda a: a.offset <= 128,
               when=lambda a: a.y > 0, result=lambda a: fdiv(a.x * pow2(a.offset), a.y)))
add(FnContract("safe_mul_div_cast_u128", "x y d rnd", exact=True,
               when=lambda a: And(a.d > 0, div_round(a.x * a.y, a.d, a.rnd) <= U128MAX),
               result=lambda a: div_round(a.x * a.y, a.d, a.rnd)))
for key in ("get_delta_amount_base_unsigned_unchecked", "get_delta_amount_base_unsigned_256", "get_delta_amount_base_unsigned"):
    add(FnContract(key, "lo hi L round", result=_delta_base, reveal=_rev_base,
                   when=lambda a: And(a.lo > 0, a.hi >= a.lo)))
for key in ("get_delta_amount_quote_unsigned_unchecked", "get_delta_amount_quote_unsigned_256", "get_delta_amount_quote_unsigned"):
    add(FnContract(key, "lo hi L round", result=_delta_quote, reveal=_rev_quote, when=lambda a: a.hi >= a.lo))
add(FnContract("get_initialize_amounts", "minp maxp p L",
               result=lambda a: (BASE_UP(a.p, a.maxp, a.L), QUOTE_UP(a.minp, a.p, a.L)),
               when=lambda a: And(a.p > 0, a.maxp >= a.p, a.p >= a.minp)))
add(FnContract("get_next_sqrt_price_from_quote_amount_out_rounding_down", "p L a", result=lambda a: NEXT_QOUT(a.p, a.L, a.a),
               reveal=lambda a: [NEXT_QOUT.reveal(a.p, a.L, a.a)], when=lambda a: And(a.L > 0, NEXT_QOUT(a.p, a.L, a.a) >= 0)))
add(FnContract("get_next_sqrt_price_from_base_amount_out_rounding_up", "p L a", result=lambda a: NEXT_BOUT(a.p, a.L, a.a),
               reveal=lambda a: [NEXT_BOUT.reveal(a.p, a.L, a.a)],
               when=lambda a: Or(Eq(a.a, 0), a.a * a.p < a.L)))
add(FnContract("get_next_sqrt_price_from_base_amount_in_rounding_up", "p L a", result=lambda a: NEXT_BIN(a.p, a.L, a.a),
               reveal=lambda a: [NEXT_BIN.reveal(a.p, a.L, a.a)]))
add(FnContract("get_next_sqrt_price_from_quote_amount_in_rounding_down", "p L a", result=lambda a: NEXT_QIN(a.p, a.L, a.a),
               reveal=lambda a: [NEXT_QIN.reveal(a.p, a.L, a.a)], when=lambda a: a.L > 0))
add(FnContract("get_next_sqrt_price_from_input", "p L a b4q",
               result=lambda a: If(a.b4q, NEXT_BIN(a.p, a.L, a.a), NEXT_QIN(a.p, a.L, a.a)), when=lambda a: And(a.p > 0, a.L > 0)))
add(FnContract("get_next_sqrt_price_from_output", "p L a b4q",
               result=lambda a: If(a.b4q, NEXT_QOUT(a.p, a.L, a.a), NEXT_BOUT(a.p, a.L, a.a)),
               when=lambda a: And(a.p > 0, a.L > 0, If(a.b4q, NEXT_QOUT(a.p, a.L, a.a) >= 0, Or(Eq(a.a, 0), a.a * a.p < a.L)))))

SAFE = []
SAFE_TYPES = ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128", "U256", "U512"]


def tdiv(x, y):
    q = fdiv(If(x >= 0, x, -x), If(y >= 0, y, -y))
    return If(Eq(x >= 0, y >= 0) if conc(x) and conc(y) else z3.simplify(as_int(x) >= 0) == z3.simplify(as_int(y) >= 0), q, -q)


def _safe(ty):
    bits, sg = INT[ty]
    out = []
    mk = lambda op, f, w: FnContract("%s::safe_%s" % (ty, op), "x y", result=lambda a: f(a.x, a.y), when=lambda a: w(a.x, a.y), exact=True)
    out.append(mk("add", lambda x, y: x + y, lambda x, y: in_range(x + y, ty)))
    out.append(mk("sub", lambda x, y: x - y, lambda x, y: in_range(x - y, ty)))
    out.append(mk("mul", lambda x, y: x * y, lambda x, y: in_range(x * y, ty)))
    if not sg:
        out.append(mk("div", lambda x, y: fdiv(x, y), lambda x, y: y > 0))
        out.append(mk("rem", lambda x, y: fmod(x, y), lambda x, y: y > 0))
    return out


for _t in SAFE_TYPES:
    SAFE += _safe(_t)
#: the primitives a caller relies on
