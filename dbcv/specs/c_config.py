"""Contracts of the configuration's own computations: migration amounts, fee and liquidity splits, vesting, supply."""
import z3

from ..core import A, FnContract, SpecFn, View
from ..sym import (And, Eq, If, Iff, Implies, Max, Min, Ne, Not, Or, U64MAX, U128MAX, as_int, cdiv, conc, fdiv, fmod, is_z3, wrap)
from .c_fee import BPS, LIMITER, POW
from ..engine import Unsupported
from ..loops import Tail
from .c_math import BASE_DN, BASE_UP, CON as MATH, NEXT_QIN, QUOTE_UP

CON = {}
#: contracts whose functions cannot be called by the replay harness (they read the runtime)
NO_REPLAY = {"get_current_point"}


def add(c):
    CON[c.key] = c
    return c


MIN_PRICE = 4295048016
MAX_PRICE = 79226673521066979257578248091
U16MAX = 65535

# ---------------------------------------------------------------- time, units

SLOT, TIME = z3.Int("clock.0"), z3.Int("clock.4")


def point(ty):
    return If(Eq(ty, 0), SLOT, wrap(TIME, "u64"))


add(FnContract("get_current_point", "ty", result=lambda a: point(a.ty), when=lambda a: a.ty <= 1))
add(FnContract("to_bps", "num den", exact=True, result=lambda a: fdiv(a.num * BPS, a.den),
               when=lambda a: And(a.den > 0, a.num * BPS <= U128MAX, fdiv(a.num * BPS, a.den) <= U64MAX)))
add(FnContract("to_numerator", "bps den", exact=True, result=lambda a: fdiv(a.bps * a.den, BPS),
               when=lambda a: And(a.bps * a.den <= U128MAX, fdiv(a.bps * a.den, BPS) <= U64MAX)))
add(FnContract("validate_fee_fraction", "num den", exact=True, when=lambda a: And(a.den > 0, a.num < a.den)))

# ---------------------------------------------------------------- base fee

add(FnContract("BaseFeeConfig::get_fee_rate_limiter", "self", exact=True, when=lambda a: Eq(a.self.base_fee_mode, LIMITER),
               result=lambda a: {"cliff_fee_numerator": a.self.cliff_fee_numerator, "reference_amount": a.self.third_factor,
                                 "max_limiter_duration": a.self.second_factor, "fee_increment_bps": a.self.first_factor}))

# ---------------------------------------------------------------- the pool's base fees

add(FnContract("VirtualPool::get_protocol_and_trading_base_fee", "self", exact=True,
               result=lambda a: a.self.partner_base_fee + a.self.protocol_base_fee + a.self.creator_base_fee,
               when=lambda a: a.self.partner_base_fee + a.self.protocol_base_fee + a.self.creator_base_fee <= U64MAX))

# ---------------------------------------------------------------- vesting of base tokens

VEST = "amount_per_period cliff_duration_from_migration_time frequency number_of_period cliff_unlock_amount".split()


def vest_total(v):
    return v.cliff_unlock_amount + v.amount_per_period * v.number_of_period


def has_vesting(v):
    return Not(And(*[Eq(getattr(v, f), 0) for f in VEST]))


add(FnContract("LockedVestingParams::get_total_amount", "self", exact=True, result=lambda a: vest_total(a.self), when=lambda a: vest_total(a.self) <= U64MAX))
add(FnContract("LockedVestingParams::has_vesting", "self", exact=True, result=lambda a: has_vesting(a.self)))
add(FnContract("LockedVestingParams::validate", "self", exact=True,
               when=lambda a: Implies(has_vesting(a.self), And(a.self.frequency > 0, vest_total(a.self) > 0, vest_total(a.self) <= U64MAX))))

# ---------------------------------------------------------------- quote of the migration, fees

def quote_amount(thr, pct):
    return cdiv(thr * (100 - pct), 100)


add(FnContract("PoolConfig::get_migration_quote_amount", "thr pct", exact=True, when=lambda a: a.pct <= 100,
               result=lambda a: {"quote_amount": quote_amount(a.thr, a.pct), "fee": a.thr - quote_amount(a.thr, a.pct)}))


def migration_fee(c):
    fee = c.migration_quote_threshold - quote_amount(c.migration_quote_threshold, c.migration_fee_percentage)
    cr = fdiv(fee * c.creator_migration_fee_percentage, 100)
    return fee - cr, cr


add(FnContract("PoolConfig::get_migration_fee_distribution", "self", exact=True,
               when=lambda a: And(a.self.migration_fee_percentage <= 100, migration_fee(a.self)[0] >= 0),
               result=lambda a: {"partner_migration_fee": migration_fee(a.self)[0], "creator_migration_fee": migration_fee(a.self)[1]}))


def creation_fee(c):
    p = fdiv(c.pool_creation_fee * 10, 100)
    return p, c.pool_creation_fee - p


add(FnContract("PoolConfig::split_pool_creation_fee", "self", exact=True, result=lambda a: creation_fee(a.self)))
add(FnContract("MigrationFee::validate", "self", exact=True,
               when=lambda a: And(a.self.fee_percentage <= 99, If(Eq(a.self.fee_percentage, 0), Eq(a.self.creator_fee_percentage, 0),
                                                                  a.self.creator_fee_percentage <= 100))))
FIXED_BPS = [25, 30, 100, 200, 400, 600]
add(FnContract("MigrationFeeOption::validate_base_fee", "self bps", exact=True,
               when=lambda a: And(*[Implies(Eq(a.self, i), Eq(a.bps, b)) for i, b in enumerate(FIXED_BPS)])))

# ---------------------------------------------------------------- supply

def burnable(c, left):
    return If(Eq(c.fixed_token_supply_flag, 1), Min(c.pre_migration_token_supply - c.post_migration_token_supply, left), left)


add(FnContract("PoolConfig::get_burnable_amount_post_migration", "self left", exact=True, result=lambda a: burnable(a.self, a.left),
               when=lambda a: Implies(Eq(a.self.fixed_token_supply_flag, 1), a.self.pre_migration_token_supply >= a.self.post_migration_token_supply)))


def supply(swap, base, v):
    return swap + base + vest_total(v)


add(FnContract("PoolConfig::get_total_token_supply", "swap base v", exact=True, result=lambda a: supply(a.swap, a.base, a.v),
               when=lambda a: supply(a.swap, a.base, a.v) <= U64MAX))

# ---------------------------------------------------------------- liquidity

def share(l, pct):
    return fdiv(l * pct, 100)


def liquidity_split(c, l):
    """shares of the migrated liquidity, as {party: {kind: amount}}"""
    p = {"unlocked_liquidity": share(l, c.partner_liquidity_percentage),
         "permanent_locked_liquidity": share(l, c.partner_permanent_locked_liquidity_percentage),
         "vested_liquidity": share(l, c.partner_liquidity_vesting_info.vesting_percentage)}
    q = {"permanent_locked_liquidity": share(l, c.creator_permanent_locked_liquidity_percentage),
         "vested_liquidity": share(l, c.creator_liquidity_vesting_info.vesting_percentage)}
    q["unlocked_liquidity"] = l - p["unlocked_liquidity"] - p["permanent_locked_liquidity"] - p["vested_liquidity"] - q["permanent_locked_liquidity"] - \
        q["vested_liquidity"]
    return {"partner": p, "creator": q}


def _split_result(a):
    d = liquidity_split(a.self, a.l)
    for who in d:
        d[who]["permanent_locked_liquidity_percentage"] = getattr(a.self, who + "_permanent_locked_liquidity_percentage")
        d[who]["liquidity_vesting_info"] = getattr(a.self, who + "_liquidity_vesting_info") if is_z3(a.l) else None
    return d


add(FnContract("PoolConfig::get_liquidity_distribution", "self l", result=_split_result, when=lambda a: liquidity_split(a.self, a.l)["creator"]["unlocked_liquidity"] >= 0))

# ---------------------------------------------------------------- curve: base sold up to a price, price at which a quote amount is reached

class CurveFold:
    """A function of a curve given as a list of points, defined by recursion from the first point.  On a list of known length it is
    computed; on one of unknown length it is an opaque function of what remains of the list, unfolded where the proof needs it."""

    def __init__(self, name, step, finish, roles, stop=None):
        self.name, self.step, self.finish, self.roles, self.stop = name, step, finish, roles, stop or finish

    def rest(self, curve, k, s, params):
        root = curve.root()
        if root is None:
            raise Unsupported("%s of a modified curve" % self.name)
        xs = [as_int(x) for x in [k] + list(s) + list(params)]
        t = z3.Function("%s@%s" % (self.name, root), *([z3.IntSort()] * (len(xs) + 1)))(*xs)
        return t

    def unfold(self, curve, k, s, params):
        s1, over = self.step(curve, k, s, params)
        end = as_int(k) >= as_int(curve.length())
        return [Eq(self.rest(curve, k, s, params), If(end, self.finish(s), If(over, self.stop(s1), self.rest(curve, as_int(k) + 1, s1, params))))]

    def value(self, curve, s, params):
        n = len(curve) if isinstance(curve, list) else curve.length()
        if not isinstance(n, int):
            return self.rest(curve, 0, s, params)
        def go(k, s):
            if k >= n:
                return self.finish(s)
            s1, over = self.step(curve, k, s, params)
            if conc(over):
                return self.stop(s1) if over else go(k + 1, s1)
            return If(over, self.stop(s1), go(k + 1, s1))
        return go(0, s)


def fold_tail(folds, curve, s, params):
    roles = folds[0].roles
    val = lambda k, S: {f.name: f.rest(curve, k, [S[r] for r in roles], params) for f in folds}
    return Tail(roles, dict(zip(roles, s)), val, lambda k, S: [x for f in folds for x in f.unfold(curve, k, [S[r] for r in roles], params)],
                lambda: val(0, dict(zip(roles, s))))


def _base_step(curve, k, s, params):
    start, stop = params
    lo = (start if k == 0 else curve[k - 1].sqrt_price) if isinstance(k, int) else If(Eq(k, 0), start, curve[k - 1].sqrt_price)
    c, L = curve[k].sqrt_price, curve[k].liquidity
    return [s[0] + BASE_UP(lo, Min(c, stop), L)], c > stop


BASE_SOLD = CurveFold("BASE_SOLD", _base_step, lambda s: s[0], {"total": "Uint<256, 4>"})


def _price_step(curve, k, s, params):
    p, left = s
    c, L = curve[k].sqrt_price, curve[k].liquidity
    mx = QUOTE_UP(p, c, L)
    part = mx > left
    return [If(part, NEXT_QIN(p, L, left), c), If(part, 0, left - mx)], part


PRICE_AT = CurveFold("PRICE_AT", _price_step, lambda s: s[0], {"price": "u128", "left": "u64"})
PRICE_LEFT = CurveFold("PRICE_LEFT", _price_step, lambda s: s[1], {"price": "u128", "left": "u64"})


def base_sold(curve, start, stop):
    return BASE_SOLD.value(curve, [0], [start, stop])


add(FnContract("get_base_token_for_swap", "start stop curve", result=lambda a: base_sold(a.curve, a.start, a.stop),
               tail=lambda a: fold_tail([BASE_SOLD], a.curve, [0], [a.start, a.stop])))
add(FnContract("get_migration_threshold_price", "thr start curve", result=lambda a: PRICE_AT.value(a.curve, [a.start, a.thr], []),
               ensures=lambda a, r: [("threshold reached", Eq(PRICE_LEFT.value(a.curve, [a.start, a.thr], []), 0))],
               tail=lambda a: fold_tail([PRICE_AT, PRICE_LEFT], a.curve, [a.start, a.thr], [])))


def supply_goals():
    """The base tokens a curve gives up to a price do not decrease with the price (induction over the points, from the last), so what is
    set aside for swaps covers the swaps up to the migration price, and the minted supply covers swaps, migration and vesting."""
    V = lambda n: z3.Int("Y." + n)
    out = []
    lo, h1, h2, L, n1, d1, n2, d2, c2 = (V(x) for x in "lo h1 h2 L n1 d1 n2 d2 c2".split())
    seg = [lo > 0, L >= 0, lo <= h1, h1 <= h2]
    out.append(("a longer segment gives no less (1)", seg, L * (h1 - lo) * h2 <= L * (h2 - lo) * h1))
    out.append(("a longer segment gives no less (2)", [d1 > 0, d2 > 0, n1 * d2 <= n2 * d1, c2 * d1 < n1, n2 <= c2 * d2], z3.BoolVal(False)))
    out.append(("a longer segment gives no less (3)", [d1 > 0, V("x") < cdiv(n1, d1)], V("x") * d1 < n1))
    out.append(("a longer segment gives no less (4)", [d2 > 0], n2 <= cdiv(n2, d2) * d2))
    # (1)-(4) give BASE_UP(lo, h1, L) <= BASE_UP(lo, h2, L)
    b1, b2 = BASE_UP.defn(lo, h1, L), BASE_UP.defn(lo, h2, L)
    out.append(("a longer segment gives no less (definition)", seg + [L > 0], And(Eq(b1, cdiv(L * (h1 - lo), lo * h1)), Eq(b2, cdiv(L * (h2 - lo), lo * h2)))))
    out.append(("a segment gives something", seg[:3], b1 >= 0))
    # induction step; R1, R2: what BASE_SOLD is from the next point on, up to stop 1 and stop 2
    s1, s2, c, p1, p2, R1, R2, g1, g2 = (V(x) for x in "s1 s2 c p1 p2 R1 R2 g1 g2".split())
    step = lambda s, p, g, R, end: If(end, s, If(c > p, s + g, R))
    end = z3.Bool("Y.end")
    hyp = [lo > 0, lo <= c, lo <= p1, p1 <= p2, s1 <= s2, g1 >= 0, g2 >= 0, Implies(Min(c, p1) <= Min(c, p2), g1 <= g2), R1 >= s1 + g1, R2 >= s2 + g2,
           Implies(And(c <= p1, s1 + g1 <= s2 + g2), R1 <= R2)]
    out.append(("at least what was counted before", hyp, step(s1, p1, g1, R1, end) >= s1))
    out.append(("a greater stop gives no less", hyp, step(s1, p1, g1, R1, end) <= step(s2, p2, g2, R2, end)))
    swap, top, base, vest = (V(x) for x in ("swap", "top", "base", "vest"))
    buf = Min(swap + fdiv(swap * 25, 100), top)
    out.append(("the buffer covers the swaps, and no more than the curve can give", [swap >= 0, swap <= top], And(buf >= swap, buf <= top)))
    out.append(("the supply covers swaps, migration and vesting", [swap >= 0, swap <= top, base >= 0, vest >= 0], buf + base + vest >= swap + base + vest))
    return out
