"""Creating a configuration."""
import z3

from ..core import CheckContract, View
from ..engine import KNOWN_IDS
from ..handlers import Handler
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, wrap
from .c_config import MAX_PRICE, PRICE_AT, PRICE_LEFT, TIME, base_sold, supply
from .c_migrate import COMP, CONC, amounts_1, near, protocol_fees, total_locked_bps
from .c_validate import config_ok, info_config, owner, stored, with_buffer
from .h_admin import no_init

H = {}


def add(h):
    H[h.name] = h
    return h


DAY, MIN_LOCKED, FEE_BPS = 86400, 1000, 20


class Given:
    """what PoolConfig is made from"""

    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


class Info:
    def __init__(self, d):
        self.__dict__.update(d)


def create(x):
    E = x.E
    P = View(E, x.s0, E.make("ix.0", "ConfigParameters"), "ConfigParameters")
    mint = View(E, x.st, x.ctx.fields[x.fields["quote_mint"][0]], "Mint")
    now = wrap(TIME, "u64")
    kind = COMP if x.case.startswith("compounding") else CONC
    fixed = x.case.endswith("fixed supply")
    thr, pct, start, curve = P.migration_quote_threshold, P.migration_fee.fee_percentage, P.sqrt_start_price, P.curve
    price = PRICE_AT.value(curve, [start, thr], [])
    sold = base_sold(curve, start, price)
    base, quote = amounts_1(kind, price, thr, pct)
    guards = list(config_ok(P, mint, now))
    guards += [("the threshold is reached on the curve, below the greatest price", And(Eq(PRICE_LEFT.value(curve, [start, thr], []), 0), price < MAX_PRICE)),
               ("something is sold and something migrated", And(sold > 0, sold <= U64MAX, base > 0, base <= U64MAX))]
    if kind == COMP:
        fb, fq = protocol_fees(COMP, None, base, quote, FEE_BPS)
        guards.append(("a compounding pool opens near the migration price", Implies(Eq(P.migration_option, 1), near(price, base - fb, quote - fq))))
    if fixed:
        ts = View(E, x.s0, E.make("ix.0.14#Some.0", "TokenSupplyParams"), "TokenSupplyParams")
        before, after = ts.pre_migration_token_supply, ts.post_migration_token_supply
        v = P.locked_vesting
        guards += [("leftover goes to somebody", Ne(x.key("leftover_receiver"), x.default_key)),
                   ("supply after the migration covers swaps, migration and vesting", And(supply(sold, base, v) <= after, after <= before)),
                   ("supply before the migration covers them with the buffer", supply(with_buffer(sold, curve, start), base, v) <= before)]
    else:
        before = after = 0
    fee = P.migrated_pool_fee
    a = Given(P, quote_mint=x.key("quote_mint"), fee_claimer=x.key("fee_claimer"), leftover_receiver=x.key("leftover_receiver"),
              quote_token_flag=If(Eq(owner(mint), KNOWN_IDS["token::ID"]), 0, 1), swap_base_amount=sold, migration_base_threshold=base,
              migration_sqrt_price=price, fixed_token_supply_flag=1 if fixed else 0, pre_migration_token_supply=before, post_migration_token_supply=after,
              migrated_pool_fee_bps=fee.pool_fee_bps, migrated_collect_fee_mode=fee.collect_fee_mode, migrated_dynamic_fee=fee.dynamic_fee,
              migrated_compounding_fee_bps=P.compounding_fee_bps, cap=P.migrated_pool_market_cap_fee_scheduler_params,
              first_swap=If(P.enable_first_swap_with_min_fee, 1, 0),
              partner_liquidity_vesting_info=Info(info_config(P.partner_liquidity_vesting_info)),
              creator_liquidity_vesting_info=Info(info_config(P.creator_liquidity_vesting_info)))
    c = Given(a)
    guards.append(("a tenth of the liquidity stays locked for a day", total_locked_bps(c, DAY) >= MIN_LOCKED))
    return dict(guards=guards, inits={"config": stored(a, 0)}, skip=no_init)


def access(x):
    return [("the configuration's key signed", x.signer("config")), ("the payer signed", x.signer("payer")),
            ("the quote mint is a mint", x.typed("quote_mint"))]


COMPOUNDING = Or(z3.Int("ix.0.2") == 0, z3.Int("ix.0.18.0") == 2)
FIXED = z3.Int("ix.0.14.discr") == 1
CASES = {"%s, %s" % (k, s): [COMPOUNDING if k == "compounding" else Not(COMPOUNDING), FIXED if s == "fixed supply" else Not(FIXED)]
         for k in ("compounding", "concentrated") for s in ("fixed supply", "open supply")}
h = add(Handler("create_config", access, create, cases=CASES, weight=10))
h.extra["access"] = {"handle_create_config": CheckContract("handle_create_config", "ctx params", record=[])}
