"""All contracts, all units, and the units each property rests on."""
from . import core
from .core import Unit, lemma_unit
from . import handlers
from .specs import c_config, c_enum, c_fee, c_math, c_migrate, c_pool, c_sdk, c_sqrt, c_swap, c_tx, c_validate, h_admin, h_config, h_fees, h_init, h_migrate, h_swap

CONTRACTS = {}
for m in (c_enum, c_math, c_fee, c_swap, c_pool, c_config, c_migrate, c_validate):
    CONTRACTS.update(m.CON)

WEIGHT = {"pow": 60, "FeeRateLimiter::get_fee_numerator_from_excluded_fee_amount": 20, "sqrt_u256": 15}
UNITS = {}


def add(u):
    u.weight = WEIGHT.get(u.name, u.weight)
    UNITS[u.name] = u


def contract_unit(key, con, deps=()):
    def run(ctx, res):
        core.verify_contract(ctx, con, CONTRACTS, res, budget=240)
    u = Unit(key, run, deps=deps)
    u.cons = [con]
    return u


SPECIAL = {"sqrt_u256"}
for k, c in c_math.CON.items():
    add(contract_unit(k, c, ["lemma:curve formulas"]))
for k, c in c_fee.CON.items():
    if k not in SPECIAL:
        add(contract_unit(k, c, ["lemma:fee formulas"]))
def safe_unit(ty):
    def run(ctx, res):
        for con in c_math._safe(ty):
            if ctx.prog.find(con.key) is None and ty in ("i32", "usize", "U512", "u8", "u16"):
                continue
            core.verify_contract(ctx, con, {}, res, budget=60)
            if res.unsupported:
                return
    u = Unit("checked arithmetic on " + ty, run)
    u.cons = c_math._safe(ty)
    return u


for ty in c_math.SAFE_TYPES:
    add(safe_unit(ty))
u = c_sqrt.unit()
u.cons = [c_fee.CON["sqrt_u256"]]
add(u)
for k, c in c_pool.CON.items():
    add(contract_unit(k, c))
for k, c in c_config.CON.items():
    u = contract_unit(k, c)
    if k in c_config.NO_REPLAY:
        u.cons = []
    add(u)
def sdk_unit(key, con):
    def run(ctx, res):
        core.verify_contract(ctx, con, dict(CONTRACTS, **c_sdk.SWAPS), res, budget=240)
    u = Unit(key, run)
    u.cons = []
    return u


for k, c in c_enum.CON.items():
    u = contract_unit(k, c)
    u.cons = []
    add(u)
for k, c in c_migrate.CON.items():
    add(contract_unit(k, c))
for k, c in c_validate.CON.items():
    add(contract_unit(k, c))
for k, c in c_sdk.CON.items():
    add(sdk_unit(k, c))
for n in c_swap.WALKS:
    u = c_swap.walk_unit(n)
    u.deps = ("lemma:curve formulas", "lemma:walk formulas", "lemma:walk steps")
    u.weight = 8
    u.cons = [c_swap.WALKCON[n]]
    add(u)
add(lemma_unit("curve formulas", c_math.spec_fact_goals))
add(lemma_unit("walk formulas", c_swap.walk_lemma_goals))
add(lemma_unit("walk steps", c_swap.walk_machine_goals))
add(lemma_unit("fee formulas", c_fee.spec_fact_goals))
add(lemma_unit("payouts", h_fees.payout_goals))
add(lemma_unit("supply", c_config.supply_goals))

for k, m in h_migrate.METHODS.items():
    add(handlers.method_unit(m, dict(CONTRACTS, **h_migrate.OPAQUE)))
for u in c_tx.UNITS:
    add(u)
HANDLERS = {}
for m in (h_fees, h_admin, h_config, h_init, h_migrate, h_swap):
    HANDLERS.update(m.H)
for n, h in HANDLERS.items():
    for part in ("access", "effects"):
        if getattr(h, part):
            for u in handlers.units(h, part, CONTRACTS):
                u.weight = h.weight
                add(u)


def effects(*names):
    return [u for u in UNITS for n in names if u == n + ": effects" or u.startswith(n + ": effects [")]


def access(*names):
    return [u for u in UNITS for n in names if u == n + ": access" or u.startswith(n + ": access [")]


SAFE_UNITS = ["checked arithmetic on " + t for t in c_math.SAFE_TYPES]
CURVE = ["get_delta_amount_base_unsigned", "get_delta_amount_quote_unsigned", "get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output",
         "get_initialize_amounts"]


class Prop:
    sdk = False
    note = None

    def __init__(self, pid, units):
        self.pid, self.units = pid, units


PROPS = {}


def prop(pid, *units):
    PROPS[pid] = Prop(pid, [x for u in units for x in (u if isinstance(u, list) else [u])])


W = [w.fn for w in c_swap.WALKS.values()]
prop("C01", CURVE)
prop("C02", SAFE_UNITS, "mul_div_u256", "mul_shr", "shl_div", "shl_div_256", "safe_mul_div_cast_u128", "sqrt_u256", "pow")
prop("C03", W)
prop("C04", [k for k in c_pool.CON if "get_swap_result" in k])
prop("C05", "VirtualPool::apply_swap_result")
prop("C06", "PoolFeesConfig::split_fees", "PoolFeesConfig::get_fee_on_amount", "PoolFeesConfig::get_included_fee_amount",
     "PoolFeesConfig::get_excluded_fee_amount", "FeeMode::get_fee_mode")
prop("C07", "PoolFeesConfig::get_total_fee_numerator_from_included_fee_amount", "PoolFeesConfig::get_total_fee_numerator_from_excluded_fee_amount",
     "PoolFeesConfig::get_min_base_fee_numerator")
prop("C08", [k for k in c_fee.CON if k.startswith("FeeRateLimiter")])
prop("C09", "VirtualPool::update_pre_swap", "VirtualPool::update_post_swap", "PoolFeesConfig::get_total_fee_numerator")

CLAIMS = ["claim_trading_fee", "claim_creator_trading_fee", "claim_protocol_fee", "zap_protocol_fee"]
SURPLUS = ["partner_withdraw_surplus", "creator_withdraw_surplus", "claim_protocol_fee"]
ONCE = ["withdraw_migration_fee", "claim_partner_pool_creation_fee", "claim_protocol_pool_creation_fee"]
LP = ["migration_meteora_damm_create_metadata", "migrate_meteora_damm_lock_lp_token", "migrate_meteora_damm_claim_lp_token"]
prop("C10", effects("swap", "swap2"))
prop("C11", effects(*CLAIMS), "lemma:payouts")
prop("C12", effects(*SURPLUS), "lemma:payouts")
prop("C13", effects(*ONCE), "lemma:payouts")
MIGRATE = ["migrate_meteora_damm", "migration_damm_v2"]
METHODS = list(h_migrate.METHODS)
FEE_SPLIT = ["PoolConfig::get_migration_quote_amount", "PoolConfig::get_migration_fee_distribution", "PoolConfig::split_pool_creation_fee",
             "ConcentratedLiquidity::get_migration_protocol_fees", "CompoundingLiquidity::get_migration_protocol_fees"]
AMOUNTS = [k for k in c_migrate.CON if "migration_amounts" in k] + ["get_initial_liquidity_from_delta_quote", "get_constant_product_base_from_quote"]
prop("C14", FEE_SPLIT, effects("withdraw_migration_fee", *MIGRATE), "lemma:payouts")
prop("C15", effects("withdraw_leftover", "migration_damm_v2_create_metadata", *MIGRATE), access("withdraw_leftover", *MIGRATE), METHODS,
     [k for k in c_migrate.CON if k not in FEE_SPLIT + AMOUNTS], "PoolConfig::get_burnable_amount_post_migration", "PoolConfig::get_total_token_supply",
     "PoolConfig::get_liquidity_distribution", "MigrationFeeOption::validate_base_fee", "to_bps", "PoolConfig::build_damm_v2_pool_fee_params",
     "calculate_dynamic_fee_params")
prop("C16", effects(*LP), access(*LP))
prop("C17", effects("create_locker"), access("create_locker"))
prop("C20", "get_base_token_for_swap", "get_migration_threshold_price", AMOUNTS, "PoolConfig::get_migration_quote_amount",
     "calculate_compounding_initial_sqrt_price_and_liquidity", "CompoundingLiquidity::validate_initial_pool_information", "sqrt_u256")
prop("C22", effects(*[n for n, h in HANDLERS.items() if h.effects]))
prop("C21", access(*[n for n, h in HANDLERS.items() if h.access]))
prop("C23", effects("transfer_pool_creator"), access("transfer_pool_creator"))
prop("C24", list(c_sdk.CON), effects("swap2"), "VirtualPool::update_pre_swap", "VolatilityTracker::update_references")
PROPS["C24"].sdk = True
VALIDATE = ["FeeScheduler::get_min_base_fee_numerator", "FeeScheduler::validate", "FeeRateLimiter::validate", "BaseFeeParameters::validate",
            "DynamicFeeParameters::validate", "PoolFeeParameters::validate", "MigratedPoolFeeValidator::is_none", "MigratedPoolFeeValidator::new",
            "MigratedPoolFeeValidator::validate", "DammV2PodAlignedFeeMarketCapScheduler::get_min_base_fee_numerator",
            "DammV2PodAlignedFeeMarketCapScheduler::validate", "validate_vesting_parameters", "LiquidityVestingInfoParams::is_zero",
            "LiquidityVestingInfoParams::validate", "MigrationFee::validate", "LockedVestingParams::validate", "is_supported_quote_mint",
            "ConfigParameters::validate", "to_numerator", "validate_fee_fraction"]
STORE = ["PoolFeeParameters::to_pool_fees_config", "LiquidityVestingInfoParams::to_liquidity_vesting_info", "LockedVestingParams::to_locked_vesting_config",
         "get_token_program_flags", "PoolConfig::init"]
prop("C18", VALIDATE, STORE, effects("create_config"), access("create_config"), "PoolConfig::get_total_liquidity_locked_bps_at_n_seconds",
     "LiquidityVestingInfo::get_liquidity_locked_bps_at_n_seconds", list(c_enum.CON))
prop("C19", "get_base_token_for_swap", "get_migration_threshold_price", "PoolConfig::get_swap_amount_with_buffer", "PoolConfig::get_total_token_supply",
     "PoolConfig::get_initial_base_supply", "PoolConfig::get_burnable_amount_post_migration", "LockedVestingParams::get_total_amount",
     "LockedVestingParams::has_vesting", "LockedVestingConfig::to_locked_vesting_params", "lemma:supply", effects("create_config"))
INIT = ["initialize_virtual_pool_with_spl_token", "initialize_virtual_pool_with_token2022"]
prop("C25", c_tx.SINGLE, c_tx.FIRST, effects("swap", "swap2"))
prop("C26", effects("create_locker", "migrate_meteora_damm_lock_lp_token", INIT[0], *MIGRATE), METHODS)
prop("C27", effects(*INIT), access(*INIT), "BaseFeeConfig::validate_min_base_fee", "TokenAuthorityOption::get_update_authority",
     "TokenAuthorityOption::get_mint_authority", "TokenAuthorityOption::try_from", "PoolConfig::get_initial_base_supply",
     "PoolConfig::get_total_liquidity_locked_bps_at_n_seconds")
