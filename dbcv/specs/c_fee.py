"""Contracts of the fee layer."""
import z3

from ..core import FnContract, SpecFn
from ..sym import (And, Eq, If, Iff, Implies, Max, Min, Ne, Not, Or, U64MAX, U128MAX, as_int, band_const, cdiv, conc, fdiv, fmod, is_z3, wrap)
from .c_math import CON as MATH, Q64, div_round

FEE_DEN = 10 ** 9
MAX_FEE = 990_000_000
MIN_FEE = 2_500_000
BPS = 10_000
LINEAR, EXPO, LIMITER = 0, 1, 2     # base fee modes
PROTOCOL_PCT, HOST_PCT = 20, 20

CON = {}


def add(c):
    CON[c.key] = c
    return c


# ---------------------------------------------------------------- fixed-point power

def _pow_square(sq):
    return fdiv(sq * sq, Q64)


def _pow_mul(res, sq, on):
    return If(on, fdiv(res * sq, Q64), res)


def _pow(base, exp):
    if conc(base) and not 0 <= base <= U128MAX:
        return 0            # never evaluated for a call that succeeds
    inv = base >= Q64
    sq = If(inv, fdiv(U128MAX, base), base)
    res = Q64
    for k in range(19):
        if k:
            sq = _pow_square(sq)
        res = _pow_mul(res, sq, band_const(exp, 1 << k, 32) > 0)
    return If(Eq(exp, 0), Q64, If(inv, fdiv(U128MAX, res), res))


POW = SpecFn("POW", _pow, ["i", "i"], lambda t, b, n: [Implies(And(b >= 0, b < Q64, n >= 0), And(t >= 0, t <= Q64))])


def _pow_opts(E):
    E.merge_fns.add("pow")


add(FnContract("pow", "base exp", result=lambda a: POW(a.base, a.exp), reveal=lambda a: [POW.reveal(a.base, a.exp)],
               pre=lambda a: a.exp >= 0, opts=_pow_opts))


def _exp(c, r, n):
    return fdiv(POW(Q64 - fdiv(r * Q64, BPS), n) * c, Q64)


#: exponential schedule: cliff * (1 - r/10000)^n in 64.64 fixed point
EXPFEE = SpecFn("EXPFEE", _exp, ["i"] * 3, lambda t, c, r, n: [
    Implies(And(c >= 0, r >= 1, r <= BPS, n >= 0), And(t >= 0, t <= c))])


def numerator(bps):
    return fdiv(bps * FEE_DEN, BPS)


add(FnContract("to_numerator", "bps den", result=lambda a: fdiv(a.bps * a.den, BPS)))
add(FnContract("get_fee_in_period", "c r n", result=lambda a: EXPFEE(a.c, a.r, a.n), when=lambda a: a.r <= BPS,
               reveal=lambda a: [EXPFEE.reveal(a.c, a.r, a.n)]))

# ---------------------------------------------------------------- scheduler


def sched_at(mode, c, r, period):
    return If(Eq(mode, LINEAR), c - r * period, EXPFEE(c, r, period))


def sched_when(mode, c, r, period):
    return And(Or(Eq(mode, LINEAR), Eq(mode, EXPO)), Implies(Eq(mode, LINEAR), c >= r * period), Implies(Eq(mode, EXPO), r <= BPS))


def sched_period(cur, act, freq, n):
    return Min(fdiv(cur - act, freq), n)


def sched(mode, c, n, freq, r, cur, act):
    return If(Eq(freq, 0), c, sched_at(mode, c, r, sched_period(cur, act, freq, n)))


add(FnContract("FeeScheduler::get_base_fee_numerator_by_period", "self period",
               result=lambda a: sched_at(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.reduction_factor,
                                         Min(a.period, a.self.number_of_period)),
               when=lambda a: sched_when(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.reduction_factor,
                                         Min(a.period, a.self.number_of_period))))
add(FnContract("FeeScheduler::get_base_fee_numerator", "self cur act",
               result=lambda a: sched(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.number_of_period,
                                      a.self.period_frequency, a.self.reduction_factor, a.cur, a.act),
               when=lambda a: Or(Eq(a.self.period_frequency, 0),
                                 And(a.cur >= a.act,
                                     sched_when(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.reduction_factor,
                                                sched_period(a.cur, a.act, a.self.period_frequency, a.self.number_of_period))))))

# ---------------------------------------------------------------- rate limiter

U256M = 1 << 256


def _rl_max_index(c, inc):
    return fdiv(MAX_FEE - c, numerator(inc))


def _rl_in(c, inc, x0, amount):
    """fee numerator for an amount that includes the fee"""
    i = numerator(inc)
    m = _rl_max_index(c, inc)
    a = fdiv(amount - x0, x0)
    b = fmod(amount - x0, x0)
    lo = x0 * (c + c * a + fdiv(i * a * (a + 1), 2)) + b * (c + i * (a + 1))
    hi = x0 * (c + c * m + fdiv(i * m * (m + 1), 2)) + ((a - m) * x0 + b) * MAX_FEE
    fin = lambda x: cdiv(cdiv(x, FEE_DEN) * FEE_DEN, amount)
    return If(amount <= x0, c, If(a < m, fin(lo), fin(hi)))


RL_IN = SpecFn("RL_IN", _rl_in, ["i"] * 4, lambda t, c, inc, x0, am: [
    t >= 0, Implies(am <= x0, Eq(t, c)),
    Implies(And(c >= 0, c <= MAX_FEE, x0 > 0, inc >= 0, numerator(inc) > 0), t >= c)])


def excl(num, amount):
    """amount left after the fee"""
    return amount - cdiv(amount * num, FEE_DEN)


def incl(num, amount):
    """smallest amount from which at least `amount` is left"""
    return cdiv(amount * FEE_DEN, FEE_DEN - num)


def rl_excl(c, inc, x0, amount):
    return excl(RL_IN(c, inc, x0, amount), amount)


def _isqrt(n):
    import math
    return math.isqrt(n)


class _Sqrt(SpecFn):
    def __call__(self, n):
        return super().__call__(n)


SQRT = SpecFn("ISQRT", _isqrt, ["i"], lambda t, n: [t >= 0, Implies(n >= 0, And(t * t <= n, n < (t + 1) * (t + 1)))])
add(FnContract("sqrt_u256", "n", result=lambda a: SQRT(a.n)))


def rl_checked(c, inc, x0):
    m = _rl_max_index(c, inc)
    full = (m + 1) * x0
    over = full > U64MAX
    incl_ = If(over, U64MAX, full)
    return rl_excl(c, inc, x0, incl_), incl_, over


def _rl_ex(c, inc, x0, ex):
    """fee numerator for an amount without the fee"""
    cex, cin, over = rl_checked(c, inc, x0)
    i = numerator(inc)
    y = 2 * FEE_DEN * x0 + i * x0 - 2 * c * x0
    z = 2 * ex * FEE_DEN * x0
    disc = wrap(y * y - 4 * i * z, "U256")
    base = fdiv(wrap(y - SQRT(disc), "U256"), 2 * i)
    rem = ex - rl_excl(c, inc, x0, base)
    mid = base + incl(c + i * fdiv(base, x0), rem)
    top = incl(MAX_FEE, ex - cex) + cin
    tot = If(ex < cex, mid, top)
    gen = cdiv((tot - ex) * FEE_DEN, tot)
    return If(ex <= rl_excl(c, inc, x0, x0), c, If(Eq(ex, cex), RL_IN(c, inc, x0, cin), gen))


RL_EX = SpecFn("RL_EX", _rl_ex, ["i"] * 4)


def _rl(a):
    s = a.self
    return s.cliff_fee_numerator, s.fee_increment_bps, s.reference_amount


add(FnContract("FeeRateLimiter::get_max_index", "self", result=lambda a: _rl_max_index(*_rl(a)[:2]),
               when=lambda a: And(a.self.cliff_fee_numerator <= MAX_FEE, numerator(a.self.fee_increment_bps) > 0)))
add(FnContract("FeeRateLimiter::get_fee_numerator_from_included_fee_amount", "self amount",
               result=lambda a: RL_IN(*_rl(a), a.amount), reveal=lambda a: [RL_IN.reveal(*_rl(a), a.amount)],
               when=lambda a: Or(a.amount <= a.self.reference_amount,
                                 And(a.self.reference_amount > 0, a.self.cliff_fee_numerator <= MAX_FEE,
                                     numerator(a.self.fee_increment_bps) > 0))))
add(FnContract("FeeRateLimiter::get_excluded_fee_amount", "self amount", result=lambda a: rl_excl(*_rl(a), a.amount),
               when=lambda a: rl_excl(*_rl(a), a.amount) >= 0))
add(FnContract("FeeRateLimiter::get_checked_amounts", "self", result=lambda a: rl_checked(*_rl(a)),
               when=lambda a: And(a.self.cliff_fee_numerator <= MAX_FEE, numerator(a.self.fee_increment_bps) > 0)))
add(FnContract("FeeRateLimiter::get_fee_numerator_from_excluded_fee_amount", "self ex", result=lambda a: RL_EX(*_rl(a), a.ex),
               reveal=lambda a: [RL_EX.reveal(*_rl(a), a.ex)],
               ensures=lambda a, r: [("never below the cliff fee beyond the reference amount", r >= a.self.cliff_fee_numerator)]))


def rl_zero(s):
    return And(Eq(s.reference_amount, 0), Eq(s.max_limiter_duration, 0), Eq(s.fee_increment_bps, 0))


B2Q, Q2B = 0, 1


def rl_applied(s, cur, act, dirn):
    return And(Not(rl_zero(s)), Eq(dirn, Q2B), cur <= act + s.max_limiter_duration)


add(FnContract("FeeRateLimiter::is_rate_limiter_applied", "self cur act dir", exact=True,
               result=lambda a: rl_applied(a.self, a.cur, a.act, a.dir)))

# ---------------------------------------------------------------- fee amounts

add(FnContract("PoolFeesConfig::get_excluded_fee_amount", "num amount",
               result=lambda a: (excl(a.num, a.amount), cdiv(a.amount * a.num, FEE_DEN)),
               when=lambda a: a.amount * a.num <= a.amount * FEE_DEN))
add(FnContract("PoolFeesConfig::get_included_fee_amount", "num amount",
               result=lambda a: (incl(a.num, a.amount), incl(a.num, a.amount) - a.amount),
               when=lambda a: a.num < FEE_DEN))


def split(fee, ref):
    prot = fdiv(fee * PROTOCOL_PCT, 100)
    refer = If(ref, fdiv(prot * HOST_PCT, 100), 0)
    return fee - prot, prot - refer, refer      # trading, protocol, referral


add(FnContract("PoolFeesConfig::split_fees", "self fee ref", exact=True, result=lambda a: split(a.fee, a.ref)))


def fee_on(num, amount, ref):
    fee = cdiv(amount * num, FEE_DEN)
    t, p, r = split(fee, ref)
    return {"amount": amount - fee, "trading_fee": t, "protocol_fee": p, "referral_fee": r}


add(FnContract("PoolFeesConfig::get_fee_on_amount", "self num amount ref", result=lambda a: fee_on(a.num, a.amount, a.ref),
               when=lambda a: a.amount * a.num <= a.amount * FEE_DEN))

# ---------------------------------------------------------------- dynamic fee


def variable_fee(d, v):
    x = v.volatility_accumulator * d.bin_step
    return If(Eq(d.initialized, 0), 0, cdiv(x * x * d.variable_fee_control, 10 ** 11))


add(FnContract("DynamicFeeConfig::get_variable_fee_numerator", "self v", result=lambda a: variable_fee(a.self, a.v)))


def total_fee(base, d, v):
    return Min(base + variable_fee(d, v), MAX_FEE)


add(FnContract("PoolFeesConfig::get_total_fee_numerator", "self base v", result=lambda a: total_fee(a.base, a.self.dynamic_fee, a.v)))


def limiter_of(b):
    """the base fee configuration read as a rate limiter"""
    class L:
        cliff_fee_numerator, fee_increment_bps, reference_amount, max_limiter_duration = (
            b.cliff_fee_numerator, b.first_factor, b.third_factor, b.second_factor)
    return L


def base_fee_included(b, cur, act, dirn, amount):
    L = limiter_of(b)
    c = b.cliff_fee_numerator
    return If(Eq(b.base_fee_mode, LIMITER), If(rl_applied(L, cur, act, dirn), RL_IN(c, b.first_factor, b.third_factor, amount), c),
              sched(b.base_fee_mode, c, b.first_factor, b.second_factor, b.third_factor, cur, act))


def base_fee_excluded(b, cur, act, dirn, amount):
    L = limiter_of(b)
    c = b.cliff_fee_numerator
    return If(Eq(b.base_fee_mode, LIMITER), If(rl_applied(L, cur, act, dirn), RL_EX(c, b.first_factor, b.third_factor, amount), c),
              sched(b.base_fee_mode, c, b.first_factor, b.second_factor, b.third_factor, cur, act))


def min_base_fee(b):
    c = b.cliff_fee_numerator
    return If(Eq(b.base_fee_mode, LIMITER), c, sched_at(b.base_fee_mode, c, b.third_factor, b.first_factor))


add(FnContract("PoolFeesConfig::get_total_fee_numerator_from_included_fee_amount", "self v cur act amount dir",
               result=lambda a: total_fee(base_fee_included(a.self.base_fee, a.cur, a.act, a.dir, a.amount), a.self.dynamic_fee, a.v),
               when=lambda a: a.self.base_fee.base_fee_mode <= LIMITER))
add(FnContract("PoolFeesConfig::get_total_fee_numerator_from_excluded_fee_amount", "self v cur act amount dir",
               result=lambda a: total_fee(base_fee_excluded(a.self.base_fee, a.cur, a.act, a.dir, a.amount), a.self.dynamic_fee, a.v),
               when=lambda a: a.self.base_fee.base_fee_mode <= LIMITER))
add(FnContract("PoolFeesConfig::get_min_base_fee_numerator", "self",
               result=lambda a: min_base_fee(a.self.base_fee), when=lambda a: a.self.base_fee.base_fee_mode <= LIMITER))


def fee_mode(mode, dirn, ref):
    q = Eq(mode, 0)         # collect in quote token; 1: output token
    return {"fees_on_input": And(q, Eq(dirn, Q2B)), "fees_on_base_token": And(Not(q), Eq(dirn, Q2B)), "has_referral": ref}


add(FnContract("FeeMode::get_fee_mode", "mode dir ref", exact=True, result=lambda a: fee_mode(a.mode, a.dir, a.ref),
               when=lambda a: a.mode <= 1))

# ---------------------------------------------------------------- volatility


def delta_bin(step, pa, pb):
    hi, lo = If(pa > pb, pa, pb), If(pa > pb, pb, pa)
    return 2 * fdiv(fdiv(hi * Q64, lo) - Q64, step)


DELTA_BIN = SpecFn("DELTA_BIN", delta_bin, ["i"] * 3, lambda t, s, a, b: [Implies(And(s > 0, a > 0, b > 0), t >= 0)])

add(FnContract("VolatilityTracker::get_delta_bin_id", "step a b", result=lambda a: DELTA_BIN(a.step, a.a, a.b),
               reveal=lambda a: [DELTA_BIN.reveal(a.step, a.a, a.b)],
               when=lambda a: And(a.step > 0, a.a > 0, a.b > 0)))


def vol_after(v, d, price):
    return Min(v.volatility_reference + DELTA_BIN(d.bin_step_u128, price, v.sqrt_price_reference) * BPS, d.max_volatility_accumulator)


add(FnContract("VolatilityTracker::update_volatility_accumulator", "self d price",
               effect=lambda a: {"self": {"volatility_accumulator": vol_after(a.self, a.d, a.price)}}))


def refs_after(v, d, price, now):
    el = Max(now - v.last_update_timestamp, 0)
    stale = el >= d.filter_period
    return {"sqrt_price_reference": If(stale, price, v.sqrt_price_reference),
            "volatility_reference": If(stale, If(el < d.decay_period, fdiv(v.volatility_accumulator * d.reduction_factor, BPS), 0),
                                       v.volatility_reference)}


add(FnContract("VolatilityTracker::update_references", "self d price now",
               effect=lambda a: {"self": refs_after(a.self, a.d, a.price, a.now)}))
add(FnContract("VirtualPool::update_pre_swap", "self config now",
               effect=lambda a: {"self": {"volatility_tracker." + k: If(Eq(a.config.pool_fees.dynamic_fee.initialized, 0),
                                                                       getattr(a.self.volatility_tracker, k), v)
                                          for k, v in refs_after(a.self.volatility_tracker, a.config.pool_fees.dynamic_fee,
                                                                 a.self.sqrt_price, a.now).items()}}))


def post_swap(v, d, old, new, now):
    off = Eq(d.initialized, 0)
    return {"volatility_accumulator": If(off, v.volatility_accumulator, vol_after(v, d, new)),
            "last_update_timestamp": If(And(Not(off), DELTA_BIN(d.bin_step_u128, old, new) > 0), now, v.last_update_timestamp)}


add(FnContract("VirtualPool::update_post_swap", "self config old now",
               effect=lambda a: {"self": {"volatility_tracker." + k: v for k, v in
                                          post_swap(a.self.volatility_tracker, a.config.pool_fees.dynamic_fee, a.old, a.self.sqrt_price,
                                                    a.now).items()}}))


# ---------------------------------------------------------------- the facts above, from the definitions

def _V(*names):
    return [z3.Int("L." + n) for n in names]


def spec_fact_goals():
    out = []
    sq, res, on = z3.Int("L.sq"), z3.Int("L.res"), z3.Bool("L.on")
    inv = And(sq >= 0, sq <= Q64, res >= 0, res <= Q64)
    out.append(("power: squaring keeps the factor in [0, 1]", [inv], And(_pow_square(sq) >= 0, _pow_square(sq) <= Q64)))
    out.append(("power: multiplying keeps the result in [0, 1]", [inv], And(_pow_mul(res, sq, on) >= 0, _pow_mul(res, sq, on) <= Q64)))
    # with base < 1 nothing is inverted and the 19 rounds above start from sq = base, res = 1
    c, r, n, b, p = _V("c", "r", "n", "b", "p")
    base = Q64 - fdiv(r * Q64, BPS)
    out.append(("power: base of the schedule is in [0, 1)", [r >= 1, r <= BPS], And(base >= 0, base < Q64)))
    out.append(("schedule never above the cliff", [c >= 0, p >= 0, p <= Q64], And(fdiv(p * c, Q64) >= 0, fdiv(p * c, Q64) <= c)))
    # rate limiter: fee numerator at least the cliff
    c, i, x0, am, a, b, m, X, F, t = _V("c", "i", "x0", "am", "a", "b", "m", "X", "F", "t")
    D = FEE_DEN
    dom = [c >= 0, c <= MAX_FEE, x0 > 0, i > 0, am > x0, am == x0 + a * x0 + b, a >= 0, b >= 0, b < x0]
    h = z3.Int("L.h")
    out.append(("rate limiter: marginal fees are not below the cliff (1)",
                [c >= 0, x0 > 0, i > 0, a >= 0, b >= 0, h >= 0, am == x0 + a * x0 + b],
                x0 * (c + c * a + h) + b * (c + i * (a + 1)) == c * am + x0 * h + b * (i * (a + 1))))
    out.append(("rate limiter: marginal fees are not below the cliff (2)",
                [x0 > 0, i > 0, a >= 0, b >= 0, h >= 0], And(x0 * h >= 0, b * (i * (a + 1)) >= 0)))
    out.append(("rate limiter: triangular number", [i > 0, a >= 0, i * a * (a + 1) >= 0], fdiv(i * a * (a + 1), 2) >= 0))
    out.append(("rate limiter: triangular product", [i > 0, a >= 0], i * a * (a + 1) >= 0))
    out.append(("rate limiter: beyond the last step (1)",
                [c >= 0, c <= MAX_FEE, x0 > 0, a >= m, m >= 0, b >= 0, h >= 0, am == x0 + a * x0 + b],
                x0 * (c + c * m + h) + ((a - m) * x0 + b) * MAX_FEE == c * am + x0 * h + ((a - m) * x0 + b) * (MAX_FEE - c)))
    out.append(("rate limiter: beyond the last step (2)", [x0 > 0, a >= m, b >= 0, h >= 0, c <= MAX_FEE],
                And(x0 * h >= 0, (a - m) * x0 >= 0)))
    out.append(("rate limiter: beyond the last step (3)", [X >= 0, c <= MAX_FEE], X * (MAX_FEE - c) >= 0))
    out.append(("rate limiter: rounding up keeps the bound (1)", [X >= c * am], cdiv(X, D) * D >= c * am))
    out.append(("rate limiter: rounding up keeps the bound (2)", [am > 0, F >= c * am, F >= 0, c >= 0], cdiv(F, am) >= c))
    # dynamic fee
    s, hi, lo = _V("step", "hi", "lo")
    out.append(("price ratio: at least one", [lo > 0, hi >= lo], fdiv(hi * Q64, lo) >= Q64))
    q = z3.Int("L.q")
    out.append(("price ratio: bins", [q >= Q64, s > 0], 2 * fdiv(q - Q64, s) >= 0))
    return out
