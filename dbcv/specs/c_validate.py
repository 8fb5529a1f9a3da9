"""Contracts of what a configuration is checked for when it is created."""
import z3

from .. import anchor
from ..core import Absent, Borsh, FnContract, Just, View, decided, opt_view
from ..engine import KNOWN_IDS
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, U128MAX, as_int, cdiv, fdiv
from ..loops import Unrolled
from .c_config import supply, MAX_PRICE, MIN_PRICE, U16MAX, CurveFold, base_sold, fold_tail, has_vesting, share, vest_total
from .c_fee import BPS, EXPFEE, FEE_DEN, LIMITER, MAX_FEE, MIN_FEE, RL_IN, min_base_fee, numerator, rl_zero, sched_at, sched_when
from .c_migrate import FULL, vesting

CON = {}


def add(c):
    CON[c.key] = c
    return c


U24 = (1 << 24) - 1
U32MAX = (1 << 32) - 1

# ---------------------------------------------------------------- fees of the curve

add(FnContract("FeeScheduler::get_min_base_fee_numerator", "self",
               result=lambda a: sched_at(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.reduction_factor, a.self.number_of_period),
               when=lambda a: sched_when(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.reduction_factor, a.self.number_of_period)))


def scheduler_ok(mode, c, n, freq, r):
    """all or none of the parameters are zero; both ends of the schedule lie within the fee bounds"""
    low = sched_at(mode, c, r, n)
    return And(Or(And(Eq(n, 0), Eq(freq, 0), Eq(r, 0)), And(n > 0, freq > 0, r > 0)), sched_when(mode, c, r, n), low >= MIN_FEE, low < FEE_DEN, c <= MAX_FEE)


add(FnContract("FeeScheduler::validate", "self collect activation",
               when=lambda a: scheduler_ok(a.self.fee_scheduler_mode, a.self.cliff_fee_numerator, a.self.number_of_period, a.self.period_frequency,
                                           a.self.reduction_factor)))


def limiter_ok(s, collect, activation):
    """only for fees in the quote token; all or none of the parameters are zero; duration, increment and fees within bounds"""
    i = numerator(s.fee_increment_bps)
    fee = lambda x: RL_IN(s.cliff_fee_numerator, s.fee_increment_bps, s.reference_amount, x)
    return And(Eq(collect, 0), s.cliff_fee_numerator >= MIN_FEE, s.cliff_fee_numerator <= MAX_FEE,
               Or(rl_zero(s), And(s.reference_amount > 0, s.max_limiter_duration > 0, s.fee_increment_bps > 0,
                                  s.max_limiter_duration <= If(Eq(activation, 0), 108000, 43200), i < FEE_DEN,
                                  fee(0) >= MIN_FEE, fee(U64MAX) <= MAX_FEE)))


add(FnContract("FeeRateLimiter::validate", "self collect activation", when=lambda a: limiter_ok(a.self, a.collect, a.activation)))


class Limiter:
    def __init__(self, b):
        self.cliff_fee_numerator, self.fee_increment_bps = b.cliff_fee_numerator, b.first_factor
        self.max_limiter_duration, self.reference_amount = b.second_factor, b.third_factor


def base_fee_ok(b, collect, activation):
    return And(b.base_fee_mode <= 2,
               Implies(Ne(b.base_fee_mode, LIMITER), scheduler_ok(b.base_fee_mode, b.cliff_fee_numerator, b.first_factor, b.second_factor, b.third_factor)),
               Implies(Eq(b.base_fee_mode, LIMITER), limiter_ok(Limiter(b), collect, activation)))


add(FnContract("BaseFeeParameters::validate", "self collect activation", when=lambda a: base_fee_ok(a.self, a.collect, a.activation)))


def dynamic_ok(d):
    return And(Eq(d.bin_step, 1), Eq(d.bin_step_u128, 1844674407370955), d.filter_period < d.decay_period, d.reduction_factor <= BPS,
               d.variable_fee_control <= U24, d.max_volatility_accumulator <= U24)


add(FnContract("DynamicFeeParameters::validate", "self", exact=True, when=lambda a: dynamic_ok(a.self)))


def fees_ok(f, collect, activation):
    d = opt_view(f, "dynamic_fee")
    return And(base_fee_ok(f.base_fee, collect, activation), Implies(d.given, dynamic_ok(d.x)))


add(FnContract("PoolFeeParameters::validate", "self collect activation", when=lambda a: fees_ok(a.self, a.collect, a.activation)))


def base_config(b):
    return {f: getattr(b, f) for f in "cliff_fee_numerator first_factor second_factor third_factor base_fee_mode".split()}


DYN = "bin_step filter_period decay_period reduction_factor bin_step_u128 max_volatility_accumulator variable_fee_control".split()


def dynamic_config(d):
    return dict({f: getattr(d, f) for f in DYN}, initialized=1)


def fees_config(f):
    d = opt_view(f, "dynamic_fee")
    return {"base_fee": base_config(f.base_fee), "dynamic_fee": {n: If(d.given, v, 0) for n, v in dynamic_config(d.x).items()}}


add(FnContract("PoolFeeParameters::to_pool_fees_config", "self", exact=True, result=lambda a: fees_config(a.self)))

# ---------------------------------------------------------------- fees of the migrated pool

NONE = """collect_fee_mode dynamic_fee pool_fee_bps compounding_fee_bps migrated_pool_base_fee_mode number_of_period sqrt_price_step_bps
scheduler_expiration_duration reduction_factor""".split()
STEPS = "number_of_period sqrt_price_step_bps scheduler_expiration_duration reduction_factor".split()
add(FnContract("MigratedPoolFeeValidator::is_none", "self", exact=True, result=lambda a: no_fee(a.self)))


def no_fee(v):
    return And(*[Eq(getattr(v, f), 0) for f in NONE])


def cap_fee(mode, c, r, n):
    """lowest fee of a schedule by market capitalisation (linear is mode 3, exponential 4)"""
    return If(Eq(mode, 3), c - r * n, EXPFEE(c, r, n))


def cap_ok(mode, c, n, step, expiry, r):
    low = cap_fee(mode, c, r, n)
    return And(Or(Eq(mode, 3), Eq(mode, 4)), r > 0, step > 0, expiry > 0, n > 0, Implies(Eq(mode, 3), c >= r * n), Implies(Eq(mode, 4), r <= BPS),
               low >= 100_000, low < FEE_DEN, c <= 990_000_000)


def inner(v):
    return getattr(v, "0")


add(FnContract("DammV2PodAlignedFeeMarketCapScheduler::get_min_base_fee_numerator", "self",
               result=lambda a: cap_fee(inner(a.self).base_fee_mode, inner(a.self).cliff_fee_numerator, inner(a.self).reduction_factor, inner(a.self).number_of_period),
               when=lambda a: And(Or(Eq(inner(a.self).base_fee_mode, 3), Eq(inner(a.self).base_fee_mode, 4)),
                                  Implies(Eq(inner(a.self).base_fee_mode, 3), inner(a.self).cliff_fee_numerator >= inner(a.self).reduction_factor * inner(a.self).number_of_period),
                                  Implies(Eq(inner(a.self).base_fee_mode, 4), inner(a.self).reduction_factor <= BPS))))
add(FnContract("DammV2PodAlignedFeeMarketCapScheduler::validate", "self",
               when=lambda a: cap_ok(inner(a.self).base_fee_mode, inner(a.self).cliff_fee_numerator, inner(a.self).number_of_period,
                                     inner(a.self).sqrt_price_step_bps, inner(a.self).scheduler_expiration_duration, inner(a.self).reduction_factor)))


def migrated_ok(v):
    """fee between 0.1% and 10%; compounded share only when compounding; modes known; schedule by market capitalisation valid, others
    without parameters"""
    m = v.migrated_pool_base_fee_mode
    flat = And(*[Eq(getattr(v, f), 0) for f in STEPS])
    return And(v.pool_fee_bps >= 10, v.pool_fee_bps <= 1000, v.collect_fee_mode <= 2, v.dynamic_fee <= 1,
               If(Eq(v.collect_fee_mode, 2), And(v.compounding_fee_bps > 0, v.compounding_fee_bps <= BPS), Eq(v.compounding_fee_bps, 0)),
               Ne(m, 2), m <= 4, If(m <= 1, flat, cap_ok(m, numerator(v.pool_fee_bps), v.number_of_period, v.sqrt_price_step_bps,
                                                        v.scheduler_expiration_duration, v.reduction_factor)))


add(FnContract("MigratedPoolFeeValidator::validate", "self", when=lambda a: migrated_ok(a.self)))
CAP = "number_of_period sqrt_price_step_bps scheduler_expiration_duration reduction_factor".split()
add(FnContract("MigratedPoolFeeValidator::new", "fee bps cap mode", exact=True,
               result=lambda a: dict({f: getattr(a.fee, f) for f in "collect_fee_mode dynamic_fee pool_fee_bps".split()}, compounding_fee_bps=a.bps,
                                     migrated_pool_base_fee_mode=a.mode, **{f: getattr(a.cap, f) for f in CAP})))

# ---------------------------------------------------------------- vesting of the migrated liquidity

LOCK_MAX = 3600 * 24 * 365 * 2


def lock_ok(cliff, n, freq, per, unlock, now, most):
    """a lock that DAMM v2 accepts: it locks something, its cliff is not in the past, its periods are not empty, and it ends in time"""
    return And(cliff >= now, Or(cliff > now, n > 0), Implies(n > 0, And(freq > 0, per > 0)), cliff - now + freq * n <= most, unlock + per * n > 0)


def _lock(a):
    c = opt_view(a.v, "cliff_point")
    return lock_ok(If(c.given, c.x, a.now), a.v.number_of_period, a.v.period_frequency, a.v.liquidity_per_period, a.v.cliff_unlock_liquidity, a.now, a.most)


add(FnContract("validate_vesting_parameters", "v now most", when=_lock))
INFO = "vesting_percentage bps_per_period number_of_periods cliff_duration_from_migration_time frequency".split()


def info_zero(i):
    return And(*[Eq(getattr(i, f), 0) for f in INFO])


add(FnContract("LiquidityVestingInfoParams::is_zero", "self", exact=True, result=lambda a: info_zero(a.self)))


def info_ok(i, now):
    v = vesting(i, share(FULL, i.vesting_percentage), now)
    return Or(info_zero(i), And(lock_ok(v["cliff_point"].x, v["number_of_period"], v["period_frequency"], v["liquidity_per_period"], v["cliff_unlock_liquidity"],
                                        now, LOCK_MAX), v["cliff_unlock_liquidity"] >= 0, i.bps_per_period * i.number_of_periods <= U16MAX))


def info_config(i):
    return dict({f: getattr(i, f) for f in INFO}, is_initialized=If(info_zero(i), 0, 1))


add(FnContract("LiquidityVestingInfoParams::validate", "self now", when=lambda a: info_ok(a.self, a.now)))
add(FnContract("LiquidityVestingInfoParams::to_liquidity_vesting_info", "self", exact=True, result=lambda a: info_config(a.self)))

# ---------------------------------------------------------------- supply


def with_buffer(swap, curve, start):
    """base tokens for swaps, with a quarter more, but no more than the whole curve gives"""
    return Min(swap + fdiv(swap * 25, 100), base_sold(curve, start, MAX_PRICE))


add(FnContract("PoolConfig::get_swap_amount_with_buffer", "swap start curve", result=lambda a: with_buffer(a.swap, a.curve, a.start)))

# ---------------------------------------------------------------- the whole configuration


def account(view):
    """name of the account a view is of"""
    return anchor.ident(view._E, view._st, view._v)


class Extensions:
    """extensions of a token 2022 mint, by number"""

    def __init__(self, acct):
        self.name, self.at = "extensions(%s)" % acct, z3.Function("extensions(%s)[].discr" % acct, z3.IntSort(), z3.IntSort())

    def root(self):
        return self.name

    def length(self):
        return z3.Int("len(%s)" % self.name)

    def __getitem__(self, k):
        return self.at(as_int(k))


def owner(mint):
    return z3.Int("owner(%s)" % account(mint))


#: 1 if no extension is other than metadata pointer (18) and token metadata (19)
HARMLESS = CurveFold("HARMLESS", lambda l, k, s, params: ([], And(Ne(l[k], 18), Ne(l[k], 19))), lambda s: 1, {}, lambda s: 0)


def supported_mint(mint):
    return Or(Eq(owner(mint), KNOWN_IDS["token::ID"]),
              And(Ne(z3.Int("key(%s)" % account(mint)), KNOWN_IDS["native_mint_2022"]), Eq(HARMLESS.rest(Extensions(account(mint)), 0, [], []), 1)))


def point_ok(curve, k, start):
    lo = If(Eq(k, 0), start, curve[k - 1].sqrt_price) if not isinstance(k, int) else start if k == 0 else curve[k - 1].sqrt_price
    return And(curve[k].sqrt_price > lo, curve[k].liquidity > 0)


#: 1 if every point has a greater price than the one before (the first: than the start price), and liquidity
ASCENDING = CurveFold("ASCENDING", lambda curve, k, s, params: ([], Not(point_ok(curve, k, params[0]))), lambda s: 1, {}, lambda s: 0)
SHARES = """partner_liquidity_percentage partner_permanent_locked_liquidity_percentage creator_liquidity_percentage
creator_permanent_locked_liquidity_percentage""".split()


def curve_ok(c):
    n = c.curve.length()
    last = c.curve[n - 1].sqrt_price
    return And(c.sqrt_start_price >= MIN_PRICE, c.sqrt_start_price < MAX_PRICE, n > 0, n <= 16, Eq(ASCENDING.value(c.curve, [], [c.sqrt_start_price]), 1),
               last <= MAX_PRICE)


def migrated(c):
    """what the fee of the migrated pool is described by"""
    class V:
        pass
    v = V()
    for f in "collect_fee_mode dynamic_fee pool_fee_bps".split():
        setattr(v, f, getattr(c.migrated_pool_fee, f))
    for f in CAP:
        setattr(v, f, getattr(c.migrated_pool_market_cap_fee_scheduler_params, f))
    v.compounding_fee_bps, v.migrated_pool_base_fee_mode = c.compounding_fee_bps, c.migrated_pool_base_fee_mode
    return v


def config_ok(c, mint, now):
    v1, custom, mf = Eq(c.migration_option, 0), Eq(c.migration_fee_option, 6), migrated(c)
    pi, ci = c.partner_liquidity_vesting_info, c.creator_liquidity_vesting_info
    fee = c.migration_fee
    return [("quote mint supported", supported_mint(mint)), ("activation type", c.activation_type <= 1),
            ("pool fees", fees_ok(c.pool_fees, c.collect_fee_mode, c.activation_type)),
            ("creator's fee share", c.creator_trading_fee_percentage <= 100),
            ("migration fee", And(fee.fee_percentage <= 99, If(Eq(fee.fee_percentage, 0), Eq(fee.creator_fee_percentage, 0), fee.creator_fee_percentage <= 100))),
            ("collect fee mode", c.collect_fee_mode <= 1), ("migration option", c.migration_option <= 1), ("migration fee option", c.migration_fee_option <= 6),
            ("token type", c.token_type <= 1), ("update authority", c.token_update_authority <= 4), ("decimals", And(c.token_decimal >= 6, c.token_decimal <= 9)),
            ("DAMM v1 takes plain tokens, a fixed fee and no vesting",
             Implies(v1, And(Eq(c.token_type, 0), Eq(owner(mint), KNOWN_IDS["token::ID"]), Not(custom), no_fee(mf), info_zero(pi), info_zero(ci)))),
            ("DAMM v2 takes a valid fee and valid vesting",
             Implies(Not(v1), And(If(custom, migrated_ok(mf), no_fee(mf)), info_ok(pi, now), info_ok(ci, now)))),
            ("liquidity shares add up", Eq(sum(getattr(c, f) for f in SHARES) + pi.vesting_percentage + ci.vesting_percentage, 100)),
            ("threshold", c.migration_quote_threshold > 0),
            ("vesting", Implies(has_vesting(c.locked_vesting), And(c.locked_vesting.frequency > 0, vest_total(c.locked_vesting) > 0, vest_total(c.locked_vesting) <= U64MAX))),
            ("pool creation fee", Or(Eq(c.pool_creation_fee, 0), And(c.pool_creation_fee >= 1_000_000, c.pool_creation_fee <= 100_000_000_000))),
            ("curve", curve_ok(c))]


add(FnContract("is_supported_quote_mint", "mint", result=lambda a: supported_mint(a.mint),
               tail=lambda a: fold_tail([HARMLESS], Extensions(account(a.mint)), [], [])))
add(FnContract("ConfigParameters::validate", "self mint now", ensures=lambda a, r: config_ok(a.self, a.mint, a.now),
               tail=lambda a: fold_tail([ASCENDING], a.self.curve, [], [a.self.sqrt_start_price])))

# ---------------------------------------------------------------- fees handed to the migrated pool

DYNAMIC = {"bin_step": 1, "bin_step_u128": 1844674407370955, "filter_period": 10, "decay_period": 120, "reduction_factor": 5000,
           "max_volatility_accumulator": 14460000}


def control(n):
    """variable fee control that caps the dynamic fee at a fifth of the base fee"""
    v = fdiv(n * 20, 100) * 100_000_000_000 - 99_999_999_999
    return v, fdiv(v, 209091600000000)


add(FnContract("calculate_dynamic_fee_params", "n", exact=True, when=lambda a: And(control(a.n)[0] >= 0, control(a.n)[1] <= U32MAX),
               result=lambda a: dict(DYNAMIC, variable_fee_control=control(a.n)[1])))


def schedule(c):
    """the stored schedule by market capitalisation"""
    E, st = c._E, c._st
    ty = "MigratedPoolMarketCapFeeSchedulerParams"
    i, t = E.prog.src.field_index("PoolConfig", "migrated_pool_base_fee_bytes")
    return View(E, st, E.make("borsh(%s)" % E.project(st, c._v, ("f", i, t)).name, ty), ty)


def pool_fee(c):
    m, n = c.migrated_pool_base_fee_mode, numerator(c.migrated_pool_fee_bps)
    if decided(m <= 1):
        low = n
        data = Borsh("BorshFeeTimeScheduler", {"cliff_fee_numerator": n, "number_of_period": 0, "period_frequency": 0, "reduction_factor": 0, "base_fee_mode": m})
    else:
        s = schedule(c)
        low = cap_fee(m, n, s.reduction_factor, s.number_of_period)
        data = Borsh("BorshFeeMarketCapScheduler", dict({f: getattr(s, f) for f in CAP}, cliff_fee_numerator=n, base_fee_mode=m))
    v, k = control(low)
    if decided(And(Eq(c.migrated_dynamic_fee, 1), v >= 0, k <= U32MAX)):
        dyn = Just(dict(DYNAMIC, variable_fee_control=k))
    else:
        dyn = Absent()
    return {"base_fee": {"data": data}, "compounding_fee_bps": c.migrated_compounding_fee_bps, "padding": 0, "dynamic_fee": dyn}


add(FnContract("PoolConfig::build_damm_v2_pool_fee_params", "self", result=lambda a: pool_fee(a.self),
               when=lambda a: And(a.self.migrated_dynamic_fee <= 1, Or(a.self.migrated_pool_base_fee_mode <= 1, Eq(a.self.migrated_pool_base_fee_mode, 3),
                                                                      Eq(a.self.migrated_pool_base_fee_mode, 4)))))

# ---------------------------------------------------------------- what is stored

VESTING = "amount_per_period cliff_duration_from_migration_time frequency number_of_period cliff_unlock_amount".split()
add(FnContract("LockedVestingParams::to_locked_vesting_config", "self", exact=True, result=lambda a: {f: getattr(a.self, f) for f in VESTING}))
add(FnContract("LockedVestingConfig::to_locked_vesting_params", "self", exact=True, result=lambda a: {f: getattr(a.self, f) for f in VESTING}))
add(FnContract("get_token_program_flags", "mint", exact=True, result=lambda a: If(Eq(owner(a.mint), KNOWN_IDS["token::ID"]), 0, 1)))
add(FnContract("get_token_program_from_flag", "flag", exact=True, when=lambda a: a.flag <= 1,
               result=lambda a: If(Eq(a.flag, 0), KNOWN_IDS["token::ID"], KNOWN_IDS["token_2022::ID"])))
SAME = """creator_trading_fee_percentage token_update_authority collect_fee_mode migration_option activation_type token_decimal token_type
quote_token_flag partner_permanent_locked_liquidity_percentage partner_liquidity_percentage creator_permanent_locked_liquidity_percentage
creator_liquidity_percentage migration_fee_option swap_base_amount migration_quote_threshold migration_base_threshold migration_sqrt_price
sqrt_start_price fixed_token_supply_flag pre_migration_token_supply post_migration_token_supply migrated_pool_fee_bps migrated_collect_fee_mode
migrated_dynamic_fee pool_creation_fee migrated_pool_base_fee_mode migrated_compounding_fee_bps""".split()
KEYS = "quote_mint fee_claimer leftover_receiver".split()
INIT = """self quote_mint fee_claimer leftover_receiver pool_fees creator_trading_fee_percentage token_update_authority migration_fee collect_fee_mode
migration_option activation_type token_decimal token_type quote_token_flag partner_permanent_locked_liquidity_percentage partner_liquidity_percentage
creator_permanent_locked_liquidity_percentage creator_liquidity_percentage locked_vesting migration_fee_option swap_base_amount
migration_quote_threshold migration_base_threshold migration_sqrt_price sqrt_start_price fixed_token_supply_flag pre_migration_token_supply
post_migration_token_supply migrated_pool_fee_bps migrated_collect_fee_mode migrated_dynamic_fee pool_creation_fee partner_liquidity_vesting_info
creator_liquidity_vesting_info migrated_pool_base_fee_mode migrated_compounding_fee_bps cap curve first_swap"""
VINFO = "is_initialized vesting_percentage bps_per_period number_of_periods frequency cliff_duration_from_migration_time".split()
POINTS = 20


def at(curve, i, f, old):
    n = curve.length()
    if isinstance(n, int):
        return getattr(curve[i], f) if i < n else old
    return If(i < n, getattr(curve[i], f), old)


def stored(a, old=None):
    d = {f: getattr(a, f) for f in SAME + KEYS}
    d["version"] = 0
    for n, v in flatten("pool_fees", fees_config(a.pool_fees)):
        d[n] = v
    d["migration_fee_percentage"], d["creator_migration_fee_percentage"] = a.migration_fee.fee_percentage, a.migration_fee.creator_fee_percentage
    for f in VESTING:
        d["locked_vesting_config." + f] = getattr(a.locked_vesting, f)
    for who in ("partner", "creator"):
        for f in VINFO:
            n = who + "_liquidity_vesting_info"
            d[n + "." + f] = getattr(getattr(a, n), f)
    d["migrated_pool_base_fee_bytes"] = Borsh("MigratedPoolMarketCapFeeSchedulerParams", {f: getattr(a.cap, f) for f in CAP})
    d["enable_first_swap_with_min_fee"] = a.first_swap
    for i in range(POINTS):
        for f in ("sqrt_price", "liquidity"):
            d["curve[%d].%s" % (i, f)] = at(a.curve, i, f, getattr(a.self.curve[i], f) if old is None else old)
    return d


def flatten(path, v):
    return [x for n, y in v.items() for x in flatten(path + "." + n, y)] if isinstance(v, dict) else [(path, v)]


def unrolled(E):
    E.loop_handler = Unrolled()


add(FnContract("PoolConfig::init", INIT, effect=lambda a: {"self": stored(a)}, when=lambda a: a.curve.length() <= POINTS, opts=unrolled))

# ---------------------------------------------------------------- supply minted for a pool


def points(c):
    """the stored points: those before the first without liquidity"""
    out = []
    for k in range(POINTS):
        if decided(Eq(c.curve[k].liquidity, 0)):
            break
        out.append(c.curve[k])
    return out


class Points(list):
    def length(self):
        return len(self)


def initial_supply(c):
    if decided(Eq(c.fixed_token_supply_flag, 1)):
        return c.pre_migration_token_supply
    return supply(with_buffer(c.swap_base_amount, Points(points(c)), c.sqrt_start_price), c.migration_base_threshold, c.locked_vesting_config)


add(FnContract("PoolConfig::get_initial_base_supply", "self", result=lambda a: initial_supply(a.self), opts=unrolled))

# ------------------------------------------------------------------ creating a pool

add(FnContract("BaseFeeConfig::validate_min_base_fee", "self", when=lambda a: And(a.self.base_fee_mode <= LIMITER, min_base_fee(a.self) >= MIN_FEE)))
UPDATERS, MINTERS = (0, 2, 3, 4), (3, 4)      # who keeps an authority: 0, 3 the creator; 2, 4 the partner
for _n, _who in (("update", UPDATERS), ("mint", MINTERS)):
    add(FnContract("TokenAuthorityOption::get_%s_authority" % _n, "self creator partner", exact=True,
                   result=lambda a: If(Or(Eq(a.self, 0), Eq(a.self, 3)), a.creator, a.partner),
                   when=lambda a, w=_who: Or(*[Eq(a.self, k) for k in w])))
