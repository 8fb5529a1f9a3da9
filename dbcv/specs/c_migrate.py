"""Contracts of the migration's computations: amounts handed over, initial price and liquidity, protocol fees, vesting of liquidity."""
import z3

from ..core import A, FnContract, Just, SpecFn, View
from ..engine import Sym, Unsupported
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, U128MAX, as_int, cdiv, fdiv
from .c_config import FIXED_BPS, MAX_PRICE, MIN_PRICE, quote_amount
from .c_fee import BPS, SQRT
from .c_math import BASE_DN, BASE_UP

CON = {}


def add(c):
    CON[c.key] = c
    return c


Q128 = 1 << 128
DEAD = 100 << 64

# ---------------------------------------------------------------- liquidity from amounts

L_BASE = SpecFn("L_BASE", lambda base, p: fdiv(base * p * MAX_PRICE, MAX_PRICE - p), ["i"] * 2,
                lambda t, base, p: [Implies(And(base >= 0, p >= 0, p < MAX_PRICE), t >= 0)])
L_QUOTE = SpecFn("L_QUOTE", lambda quote, p: fdiv(quote * Q128, p - MIN_PRICE), ["i"] * 2,
                 lambda t, quote, p: [Implies(And(quote >= 0, p > MIN_PRICE), t >= 0)])

add(FnContract("get_initial_liquidity_from_delta_base", "base max p", pre=lambda a: Eq(a.max, MAX_PRICE), result=lambda a: L_BASE(a.base, a.p),
               when=lambda a: a.p < MAX_PRICE, reveal=lambda a: [L_BASE.reveal(a.base, a.p)]))
add(FnContract("get_initial_liquidity_from_delta_quote", "quote min p", pre=lambda a: Eq(a.min, MIN_PRICE), result=lambda a: L_QUOTE(a.quote, a.p),
               when=lambda a: And(a.p > MIN_PRICE, L_QUOTE(a.quote, a.p) <= U128MAX), exact=True, reveal=lambda a: [L_QUOTE.reveal(a.quote, a.p)]))


def l_conc(base, quote, p):
    return Min(L_BASE(base, p), L_QUOTE(quote, p))


add(FnContract("calculate_concentrated_initial_liquidity", "base quote p", result=lambda a: l_conc(a.base, a.quote, a.p),
               when=lambda a: And(a.p > MIN_PRICE, a.p < MAX_PRICE)))


def comp_up(a, b):
    return SQRT(cdiv(b * Q128, a))


def comp_dn(a, b):
    return SQRT(fdiv(b * Q128, a))


COMP_PRICE = SpecFn("COMP_PRICE", comp_up, ["i"] * 2, lambda t, a, b: [Implies(And(a > 0, b >= 0), t >= 0)])
COMP_LIQ = SpecFn("COMP_LIQ", lambda a, b: comp_dn(a, b) * a, ["i"] * 2, lambda t, a, b: [Implies(And(a > 0, b >= 0), t >= 0)])
add(FnContract("calculate_compounding_initial_sqrt_price_and_liquidity", "a b", result=lambda a: (COMP_PRICE(a.a, a.b), COMP_LIQ(a.a, a.b)),
               reveal=lambda a: [COMP_PRICE.reveal(a.a, a.b), COMP_LIQ.reveal(a.a, a.b)],
               when=lambda a: And(a.a > 0, COMP_PRICE(a.a, a.b) >= MIN_PRICE, COMP_PRICE(a.a, a.b) <= MAX_PRICE)))
CP_BASE = SpecFn("CP_BASE", lambda q, p: cdiv(q * Q128, p * p), ["i"] * 2, lambda t, q, p: [Implies(And(q >= 0, p > 0), t >= 0)])
add(FnContract("get_constant_product_base_from_quote", "q p", result=lambda a: CP_BASE(a.q, a.p), when=lambda a: a.p > 0,
               reveal=lambda a: [CP_BASE.reveal(a.q, a.p)]))

# ---------------------------------------------------------------- the two kinds of migrated pool
# Each gives, from a base and a quote amount: the initial price, the liquidity to distribute and the liquidity left in the pool;
# the protocol's fee; the liquidity a second deposit adds; and the amounts to hand over, when the configuration is created (_1) and
# when the pool is migrated (_2).

CONC, COMP = "ConcentratedLiquidity", "CompoundingLiquidity"


def initial(kind, p, base, quote):
    if kind == CONC:
        return {"sqrt_price": p, "distributable_liquidity": l_conc(base, quote, p), "dead_liquidity": 0}
    return {"sqrt_price": COMP_PRICE(base, quote), "distributable_liquidity": COMP_LIQ(base, quote) - DEAD, "dead_liquidity": DEAD}


def initial_ok(kind, p, base, quote):
    if kind == CONC:
        return And(p > MIN_PRICE, p < MAX_PRICE)
    return And(base > 0, COMP_PRICE(base, quote) >= MIN_PRICE, COMP_PRICE(base, quote) <= MAX_PRICE, COMP_LIQ(base, quote) >= DEAD)


def protocol_fees(kind, p, base, quote, bps):
    q = fdiv(quote * bps, BPS)
    return (BASE_DN(p, MAX_PRICE, L_QUOTE(q, p)) if kind == CONC else fdiv(base * bps, BPS)), q


def second_liquidity(kind, p, base, quote, rb, rq, L):
    return l_conc(base, quote, p) if kind == CONC else Min(fdiv(base * L, rb), fdiv(quote * L, rq))


def amounts_1(kind, p, thr, pct):
    q = quote_amount(thr, pct)
    return (BASE_UP(p, MAX_PRICE, L_QUOTE(q, p)) if kind == CONC else CP_BASE(q, p)), q


def amounts_2(kind, base_thr, thr, pct, reserve):
    return (reserve if kind == CONC else base_thr), quote_amount(thr, pct)


for _k in (CONC, COMP):
    inside = lambda a, k=_k: And(a.self.migration_sqrt_price > MIN_PRICE, a.self.migration_sqrt_price < MAX_PRICE)
    add(FnContract(_k + "::get_initial_pool_information", "self base quote", result=lambda a, k=_k: initial(k, a.self.migration_sqrt_price, a.base, a.quote),
                   when=lambda a, k=_k: initial_ok(k, a.self.migration_sqrt_price, a.base, a.quote)))
    add(FnContract(_k + "::calculate_liquidity_delta", "self base quote rb rq L",
                   result=lambda a, k=_k: second_liquidity(k, a.self.migration_sqrt_price, a.base, a.quote, a.rb, a.rq, a.L),
                   when=lambda a, k=_k: And(a.self.migration_sqrt_price > MIN_PRICE, a.self.migration_sqrt_price < MAX_PRICE) if k == CONC else And(a.rb > 0, a.rq > 0)))
    add(FnContract(_k + "::get_included_protocol_fee_migration_amounts_1", "self thr pct",
                   result=lambda a, k=_k: amounts_1(k, a.self.migration_sqrt_price, a.thr, a.pct),
                   when=lambda a, k=_k: And(a.pct <= 100, a.self.migration_sqrt_price > (MIN_PRICE if k == CONC else 0))))
    add(FnContract(_k + "::get_included_protocol_fee_migration_amounts_2", "self base_thr thr pct reserve", exact=True,
                   result=lambda a, k=_k: amounts_2(k, a.base_thr, a.thr, a.pct, a.reserve),
                   when=lambda a, k=_k: And(a.pct <= 100, True if k == CONC else a.reserve >= a.base_thr)))
add(FnContract(CONC + "::get_migration_protocol_fees", "self base quote bps", result=lambda a: protocol_fees(CONC, a.self.migration_sqrt_price, a.base, a.quote, a.bps),
               when=lambda a: a.self.migration_sqrt_price > MIN_PRICE))
# the same function twice: as the trait's method, with a receiver, and without one
add(FnContract(COMP + "::get_migration_protocol_fees", "base quote bps", result=lambda a: protocol_fees(COMP, None, a.base, a.quote, a.bps)))


def near(p, base, quote):
    """initial price of a compounding pool, within 1% of the price on the curve"""
    c = COMP_PRICE(base, quote)
    return And(base > 0, c >= MIN_PRICE, c <= MAX_PRICE, COMP_LIQ(base, quote) > DEAD, (Max(p, c) - Min(p, c)) * 100 <= Max(p, c))


add(FnContract(COMP + "::validate_initial_pool_information", "base quote p", when=lambda a: near(a.p, a.base, a.quote)))

# ---------------------------------------------------------------- vesting of the liquidity


def vesting(v, total, now):
    """schedule of a locked position: what is not released in equal periods is released at the cliff"""
    after = fdiv(total * v.bps_per_period * v.number_of_periods, BPS)
    per = If(v.number_of_periods > 0, fdiv(after, Max(v.number_of_periods, 1)), 0)
    none = Eq(per, 0)
    n = If(none, 0, v.number_of_periods)
    cliff = now + If(none, Max(v.cliff_duration_from_migration_time, 1), v.cliff_duration_from_migration_time)
    return {"cliff_point": Just(cliff), "period_frequency": If(none, 0, v.frequency), "cliff_unlock_liquidity": total - per * n, "liquidity_per_period": per,
            "number_of_period": n}


add(FnContract("LiquidityVestingInfo::get_damm_v2_vesting_parameters", "self total now", result=lambda a: vesting(a.self, a.total, a.now),
               when=lambda a: And(vesting(a.self, a.total, a.now)["cliff_unlock_liquidity"] >= 0, a.self.bps_per_period * a.self.number_of_periods <= 65535)))


def unlocked(v, now):
    """liquidity released by a schedule (a dict as above) at a time"""
    cliff = v["cliff_point"].x
    per = Min(fdiv(now - cliff, Max(v["period_frequency"], 1)), v["number_of_period"])
    return If(now < cliff, 0, If(Eq(v["period_frequency"], 0), v["cliff_unlock_liquidity"], v["cliff_unlock_liquidity"] + per * v["liquidity_per_period"]))


FULL = U128MAX


def locked_bps(v, secs):
    """share of the liquidity, in basis points, that a vesting leaves locked after so many seconds"""
    total = fdiv(FULL * v.vesting_percentage, 100)
    return If(Eq(v.is_initialized, 0), 0, fdiv((total - unlocked(vesting(v, total, 0), secs)) * BPS, FULL))


add(FnContract("LiquidityVestingInfo::get_liquidity_locked_bps_at_n_seconds", "self secs", result=lambda a: locked_bps(a.self, a.secs)))


def total_locked_bps(c, secs):
    return locked_bps(c.partner_liquidity_vesting_info, secs) + locked_bps(c.creator_liquidity_vesting_info, secs) + \
        100 * c.partner_permanent_locked_liquidity_percentage + 100 * c.creator_permanent_locked_liquidity_percentage


add(FnContract("PoolConfig::get_total_liquidity_locked_bps_at_n_seconds", "self secs", result=lambda a: total_locked_bps(a.self, a.secs)))

# ---------------------------------------------------------------- the two positions

ITEM = "unlocked_liquidity permanent_locked_liquidity vested_liquidity".split()


def item_total(d):
    return d.unlocked_liquidity + d.permanent_locked_liquidity + d.vested_liquidity


def adjusted(d, L):
    """the second position's shares for the liquidity it really gets: first the unlocked part, then vested and locked in proportion"""
    v, p = d.liquidity_vesting_info.vesting_percentage, d.permanent_locked_liquidity_percentage
    free = Eq(v + p, 0)
    un = Min(L, d.unlocked_liquidity)
    ve = fdiv((L - un) * v, Max(v + p, 1))
    return {"unlocked_liquidity": If(free, L, un), "vested_liquidity": If(free, 0, ve), "permanent_locked_liquidity": If(free, 0, L - un - ve)}


add(FnContract("LiquidityDistributionItem::get_total_liquidity", "self", exact=True, result=lambda a: item_total(a.self), when=lambda a: item_total(a.self) <= U128MAX))
add(FnContract("LiquidityDistributionItem::get_total_locked_liquidity", "self", exact=True,
               result=lambda a: a.self.permanent_locked_liquidity + a.self.vested_liquidity,
               when=lambda a: a.self.permanent_locked_liquidity + a.self.vested_liquidity <= U128MAX))
add(FnContract("LiquidityDistributionItem::adjust_liquidity", "self L", effect=lambda a: {"self": adjusted(a.self, a.L)}))

# ---------------------------------------------------------------- the target configuration of a DAMM v2 migration


def pod(arr, ty):
    """an array of bytes seen as a plain struct"""
    r = arr.root()
    if r is None:
        raise Unsupported("bytes of a modified array")
    return View(arr.E, arr.st, Sym("pod(%s)" % r, ty), ty)


def v2_config_ok(d, option):
    """a target configuration has the chosen flat fee, the full price range, and starts by timestamp; any is accepted for customisable
    fees; only this program may create pools of it"""
    f = pod(d.pool_fees.base_fee.data, "PodAlignedFeeTimeScheduler")
    bps = fdiv(f.cliff_fee_numerator * BPS, 10 ** 9)
    flat = And(f.base_fee_mode <= 1, Eq(f.number_of_period, 0), Eq(f.period_frequency, 0), Eq(f.reduction_factor, 0),
               *[Implies(Eq(option, i), Eq(bps, b)) for i, b in enumerate(FIXED_BPS)])
    return And(Eq(d.pool_creator_authority, pool_authority_key(d._E)),
               Implies(Ne(option, 6), And(flat, Eq(d.sqrt_min_price, MIN_PRICE), Eq(d.sqrt_max_price, MAX_PRICE),
                                          Eq(d.vault_config_key, z3.Int("pubkey:default")), Eq(d.activation_type, 1))))


def pool_authority_key(E):
    from ..handlers import pda_term
    return pda_term(E, ("pool_authority",))


add(FnContract("validate_config_key", "d option", when=lambda a: v2_config_ok(a.d, a.option)))
