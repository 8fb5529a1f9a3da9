"""Migration: vesting escrow, LP tokens, migration metadata, the DAMM v1 migration."""
import z3

from ..handlers import Handler, Method, Opaque, Step, token
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, fdiv, fmod, wrap
from .c_config import TIME, FIXED_BPS, MAX_PRICE, MIN_PRICE, burnable, liquidity_split
from .c_migrate import COMP, CONC, adjusted, amounts_2, initial, protocol_fees, second_liquidity, v2_config_ok, vesting
from .h_admin import CREATED, DAMM_V1, LOCKED, POST, PRE, no_init
from .h_fees import complete, from_pool, genuine

H = {}


def add(h):
    H[h.name] = h
    return h


def cpi(x, name, program, accounts, args):
    return ("cpi", name, x.key(program)) + tuple(x.key(a) for a in accounts) + tuple(args) + (True,)


def authority(x):
    return [("authority is the pool authority address", Eq(x.key("pool_authority"), x.pda("pool_authority")))]


def guarded(x, name="pool_authority", until=None, since=0):
    """the authority lent to another program is intact afterwards (from the call number `since` to before the call `until`)"""
    (l0, o0, d0), (l1, o1, d1) = x.runtime(name, x.calls_before(until) if until else None, since)
    return [("the authority's lamports do not shrink", l1 >= l0), ("the authority keeps its owner", Eq(o0, o1)), ("the authority keeps its size", Eq(d0, d1))]


def flash(x):
    """what the call consumed of the authority's lamports is paid back by the payer"""
    return ("sol", x.key("payer"), x.key("pool_authority"), Max(x.lamports("pool_authority") - x.lamports_after(1, "pool_authority"), 0), False)


# ------------------------------------------------------------------ vesting escrow

def locker(x):
    p, c = x.before("virtual_pool"), x.before("config")
    v, t = c.locked_vesting_config, p.finish_curve_timestamp
    cliff = Min(t + v.cliff_duration_from_migration_time, U64MAX)
    accts = "base escrow base_mint escrow_token pool_authority base_vault creator token_program system_program locker_event_authority locker_program".split()
    args = [t, cliff, v.frequency, v.cliff_unlock_amount, v.amount_per_period, v.number_of_period, 2, 1, "None"]
    return dict(state={"virtual_pool": {"migration_progress": LOCKED}},
                guards=[("only right after the curve completed", Eq(p.migration_progress, POST))] + guarded(x),
                log=[cpi(x, "create_vesting_escrow_v2", "locker_program", accts, args), flash(x)])


add(Handler("create_locker", lambda x: genuine(x, "virtual_pool") + authority(x) + [
    ("recipient is the pool's creator", Eq(x.before("virtual_pool").creator, x.key("creator"))),
    ("vault is the pool's base vault", Eq(x.before("virtual_pool").base_vault, x.key("base_vault"))),
    ("mint is the pool's base mint", Eq(x.before("virtual_pool").base_mint, x.key("base_mint"))),
    ("escrow base is the pool's own", Eq(x.key("base"), x.pda("base_locker", x.key("virtual_pool")))),
    ("locker program", Eq(x.key("locker_program"), x.const("locker::ID")))], locker))


# ------------------------------------------------------------------ migration metadata

def metadata_account(x):
    return Eq(x.key("migration_metadata"), x.pda("meteora", x.key("virtual_pool")))


add(Handler("migration_meteora_damm_create_metadata",
            lambda x: genuine(x, "virtual_pool") + [("metadata has the address of the pool", metadata_account(x))],
            lambda x: dict(guards=[("the pool migrates to DAMM v1", Eq(x.before("config").migration_option, DAMM_V1))], skip=no_init,
                           inits={"migration_metadata": {"virtual_pool": x.key("virtual_pool"), "partner": x.before("config").fee_claimer}})))


# ------------------------------------------------------------------ LP tokens

def lp_access(x):
    m = x.before("migration_metadata")
    return genuine(x, "virtual_pool", False) + authority(x) + [
        ("migration metadata is genuine", x.typed("migration_metadata")), ("migration metadata is this pool's", Eq(m.virtual_pool, x.key("virtual_pool"))),
        ("LP mint is the recorded one", Eq(m.lp_mint, x.key("lp_mint")))]


def source_ok(x, name):
    return [("LP tokens come from the authority's associated token account",
             Eq(x.key(name), x.ata(x.key("pool_authority"), x.before("migration_metadata").lp_mint, x.const("token::ID"))))]


def lp_owner(x):
    p, m = x.before("virtual_pool"), x.before("migration_metadata")
    return Eq(x.key("owner"), m.partner), Eq(x.key("owner"), p.creator)


def lp_release(x, amount, flag):
    """(conditions, amount, flag changes) of a claim or lock by partner, creator, or both in one person"""
    m = x.before("migration_metadata")
    pa, cr = lp_owner(x)
    P, C = getattr(m, "partner_" + amount), getattr(m, "creator_" + amount)
    fp, fc = getattr(m, "partner_" + flag), getattr(m, "creator_" + flag)
    total = If(pa, P, 0) + If(cr, C, 0)
    guards = [("the pool has been migrated", Eq(x.before("virtual_pool").migration_progress, CREATED)),
              ("owner is the partner or the creator", Or(pa, cr)),
              ("partner's share not released before", Implies(pa, Ne(fp, 1))), ("creator's share not released before", Implies(cr, Ne(fc, 1))),
              ("there is something to release", total > 0)]
    return guards, total, {"partner_" + flag: If(pa, 1, fp), "creator_" + flag: If(cr, 1, fc)}


def lock_lp(x):
    g, total, flags = lp_release(x, "locked_liquidity", "locked_status")
    accts = "pool lp_mint lock_escrow pool_authority source_tokens escrow_vault token_program a_vault b_vault a_vault_lp b_vault_lp a_vault_lp_mint b_vault_lp_mint".split()
    return dict(state={"migration_metadata": flags}, guards=g + guarded(x), log=[cpi(x, "lock", "amm_program", accts, [total])])


add(Handler("migrate_meteora_damm_lock_lp_token", lambda x: lp_access(x) + source_ok(x, "source_tokens") + [
    ("lock escrow belongs to the owner", Eq(x.foreign("lock_escrow", ".1", "Pubkey"), x.key("owner"))),
    ("lock escrow is of the migrated pool", Eq(x.foreign("lock_escrow", ".0", "Pubkey"), x.key("pool"))),
    ("lock escrow is a genuine escrow account", x.typed("lock_escrow")),
    ("AMM program", Eq(x.key("amm_program"), x.const("dynamic_amm::ID")))], lock_lp))


def claim_lp(x):
    g, total, flags = lp_release(x, "liquidity", "claim_status")
    return dict(state={"migration_metadata": flags}, guards=g, log=[cpi(x, "transfer", "token_program", ["source_token", "destination_token", "pool_authority"], [total])])


add(Handler("migrate_meteora_damm_claim_lp_token", lambda x: lp_access(x) + source_ok(x, "source_token") + [
    ("destination is the owner's associated token account", Eq(x.key("destination_token"), x.ata(x.key("owner"), x.before("migration_metadata").lp_mint, x.const("token::ID")))),
    ("destination still belongs to the owner", Eq(x.token("destination_token")[1], x.key("owner"))),
    ("program is the token program", x.is_program("token_program"))], claim_lp))


# ------------------------------------------------------------------ the DAMM v1 migration

def base_fees(p):
    return p.partner_base_fee + p.protocol_base_fee + p.creator_base_fee


def burn(x, mint, amount):
    """what is left over is burnt; -> (conditions, log entries)"""
    happens = x.called("burn")
    return [("leftover is burnt exactly if there is any", Eq(amount > 0, happens))], \
        [cpi(x, "burn", "token_program" if "token_program" in x.fields else "token_base_program", [mint, "base_vault", "pool_authority"], [amount])] if happens else []


CREATE_V1 = """pool damm_config lp_mint token_a_mint token_b_mint a_vault b_vault a_token_vault b_token_vault a_vault_lp_mint b_vault_lp_mint
a_vault_lp b_vault_lp base_vault quote_vault virtual_pool_lp protocol_token_a_fee protocol_token_b_fee pool_authority rent mint_metadata metadata_program
vault_program token_program associated_token_program system_program""".split()


def migrate_v1(x):
    p, c, d = x.before("virtual_pool"), x.before("config"), lambda path, ty: x.foreign("damm_config", path, ty)
    fees = base_fees(p)
    base, quote = amounts_2(COMP, c.migration_base_threshold, c.migration_quote_threshold, c.migration_fee_percentage, x.token("base_vault")[2] - fees)
    fb, fq = protocol_fees(COMP, None, base, quote, p.protocol_liquidity_migration_fee_bps)
    left = x.reloaded("base_vault") - fees - fb
    g, burnt = burn(x, "token_a_mint", burnable(c, left))
    lp = x.token_amount("virtual_pool_lp", 1)
    s = liquidity_split(c, lp)
    meta = {"lp_mint": x.key("lp_mint")}
    for who in ("partner", "creator"):
        meta[who + "_locked_liquidity"] = s[who]["permanent_locked_liquidity"]
        meta[who + "_liquidity"] = s[who]["unlocked_liquidity"]
    bps = fdiv(d(".0.0", "u64") * 10000, d(".0.1", "u64"))
    none = [(0, "u64", ".1"), (0, "u64", ".5"), (x.default_key, "Pubkey", ".2")]
    guards = [("only after the vesting is set up", Eq(p.migration_progress, LOCKED)), ("the curve is complete", complete(p, c)),
              ("the configuration migrates to DAMM v1", Eq(c.migration_option, DAMM_V1)),
              ("the target pool's fee is the one chosen", And(*[Implies(Eq(c.migration_fee_option, i), Eq(bps, b)) for i, b in enumerate(FIXED_BPS)])),
              ("only this program creates pools of the target configuration", Eq(d(".3", "Pubkey"), x.key("pool_authority"))),
              ("the target pool starts at once, without partner fee and vault restriction", And(*[Eq(d(path, ty), v) for v, ty, path in none])),
              ("the vault holds the fees and the migrated amount", x.token("base_vault")[2] - fees >= base),
              ("fees left behind are covered", left >= 0)]
    return dict(state={"virtual_pool": {"protocol_migration_base_fee_amount": fb, "protocol_migration_quote_fee_amount": fq, "is_migrated": 1,
                                        "migration_progress": CREATED}, "migration_metadata": meta},
                guards=guards + g + guarded(x, until="burn"),
                log=[cpi(x, "initialize_permissionless_constant_product_pool_with_config2", "amm_program", CREATE_V1, [base - fb, quote - fq, "None"]),
                     flash(x)] + burnt,
                # neither the burn nor the lamport transfer reaches the LP token account
                env=[Eq(x.token_amount("virtual_pool_lp", k), lp) for k in range(1, 4)])


add(Handler("migrate_meteora_damm", lambda x: genuine(x, "virtual_pool") + authority(x) + [
    ("migration metadata is genuine", x.typed("migration_metadata")),
    ("migration metadata is this pool's", Eq(x.before("migration_metadata").virtual_pool, x.key("virtual_pool"))),
    ("base vault is the pool's", Eq(x.before("virtual_pool").base_vault, x.key("base_vault"))),
    ("quote vault is the pool's", Eq(x.before("virtual_pool").quote_vault, x.key("quote_vault"))),
    ("target configuration is a genuine one", x.typed("damm_config")),
    ("AMM program", Eq(x.key("amm_program"), x.const("dynamic_amm::ID"))),
    ("program is the token program", x.is_program("token_program")), ("payer signed", x.signer("payer"))], migrate_v1))


# ------------------------------------------------------------------ leftover of a fixed supply

def leftover(x):
    p, c = x.before("virtual_pool"), x.before("config")
    left = x.token("base_vault")[2] - base_fees(p) - p.protocol_migration_base_fee_amount
    return dict(state={"virtual_pool": {"is_withdraw_leftover": 1}},
                guards=[("the pool has been migrated", Eq(p.migration_progress, CREATED)), ("the supply is fixed", Eq(c.fixed_token_supply_flag, 1)),
                        ("not withdrawn before", Eq(p.is_withdraw_leftover, 0)), ("unclaimed fees stay in the vault", left >= 0)],
                log=[token(x.key("base_vault"), x.key("base_mint"), x.key("token_base_account"), x.key("pool_authority"), left)],
                events=[("EvtWithdrawLeftover", x.key("virtual_pool"), x.key("leftover_receiver"), left)])


add(Handler("withdraw_leftover", lambda x: genuine(x, "virtual_pool") + from_pool(x, "virtual_pool", quote=False) + [
    ("receiver is the configuration's leftover receiver", Eq(x.before("config").leftover_receiver, x.key("leftover_receiver"))),
    ("vault holds the base token", Eq(x.token("base_vault")[0], x.key("base_mint"))),
    ("paid to the receiver's associated token account", Eq(x.key("token_base_account"), x.ata(x.key("leftover_receiver"), x.key("base_mint"), x.key("token_base_program")))),
    ("that account still belongs to the receiver", Eq(x.token("token_base_account")[1], x.key("leftover_receiver")))], leftover))


# ------------------------------------------------------------------ the DAMM v2 migration

METHODS = {}


def method(m):
    METHODS[m.key] = m
    return m


CTX2 = "MigrateDammV2Ctx::"
CREATE_V2 = """pool_authority first_position_nft_mint first_position_nft_account pool_authority {0}# damm_pool_authority pool first_position base_mint
quote_mint token_a_vault token_b_vault base_vault quote_vault token_base_program token_quote_program token_2022_program system_program
damm_event_authority amm_program"""


def paid_back(x):
    k = x.calls_before("!sol")
    return ("sol", x.key("payer"), x.key("pool_authority"), Max(x.lamports("pool_authority") - x.lamports_after(k, "pool_authority"), 0), False)


def keys(x, names, **other):
    return [other["other"] if n == "#" else x.key(n) for n in names.split()]


def create_v2(x):
    a = x.a
    custom = x.called("initialize_pool_with_dynamic_config")
    name = "initialize_pool_with_dynamic_config" if custom else "initialize_pool"
    if custom:
        # collected in the quote token / in both tokens / compounded
        mode = If(Eq(a.mode, 0), 1, If(Eq(a.mode, 1), 0, 2))
        params = x.opaque("PoolConfig::build_damm_v2_pool_fee_params(%s)" % x.cell("config"), "PoolFeeParameters__damm_v2") + [
            MIN_PRICE, MAX_PRICE, False, a.liquidity, a.price, 1, mode, "None"]
    else:
        params = [a.liquidity, a.price, "None"]
    accts = keys(x, CREATE_V2.format("pool_authority " if custom else ""), other=x.akey("pool_config"))
    return dict(guards=[("customised fees exactly if chosen", Eq(Eq(a.option, 6), custom))] + guarded(x),
                log=[tuple(["cpi", name, x.key("amm_program")] + accts + params + [True]), paid_back(x)])


method(Method(CTX2 + "create_pool", "self pool_config liquidity price bump option mode config", create_v2,
              lambda a, acc, cell: [acc("pool_config"), a.liquidity, a.price, a.option, a.mode, cell("config")]))

LOCK = "bps_per_period number_of_periods cliff_duration_from_migration_time frequency".split()


def lock_v2(x):
    a = x.a
    d = a.item
    v = vesting(d.liquidity_vesting_info, d.vested_liquidity, a.now)
    perm, vest = x.called("permanent_lock_position"), x.called("lock_inner_position")
    accts = [x.key("amm_program"), x.key("pool"), x.akey("position"), x.akey("nft"), x.key("pool_authority"), x.key("damm_event_authority"), x.key("amm_program")]
    log = []
    if perm:
        log.append(tuple(["cpi", "permanent_lock_position"] + accts + [d.permanent_locked_liquidity, True]))
    if vest:
        log.append(tuple(["cpi", "lock_inner_position"] + accts + ["Some", v["cliff_point"].x, v["period_frequency"], v["cliff_unlock_liquidity"],
                                                                  v["liquidity_per_period"], v["number_of_period"], True]))
    return dict(guards=[("locked for ever exactly if there is such liquidity", Eq(d.permanent_locked_liquidity > 0, perm)),
                        ("vested exactly if there is such liquidity", Eq(d.vested_liquidity > 0, vest))] + guarded(x), log=log + [paid_back(x)])


def lock_record(p, v, info, position, nft, now):
    return [p, v] + [getattr(info, f) for f in LOCK] + [position, nft, now]


method(Method(CTX2 + "lock_liquidity_position", "self item position nft now", lock_v2,
              lambda a, acc, cell: lock_record(a.item.permanent_locked_liquidity, a.item.vested_liquidity, a.item.liquidity_vesting_info, acc("position"),
                                               acc("nft"), a.now)))
method(Method(CTX2 + "set_authority_for_position", "self nft owner bump",
              lambda x: dict(log=[("cpi", "set_authority", x.key("token_2022_program"), x.key("pool_authority"), x.akey("nft"), "AccountOwner", "Some", x.a.owner, True)]),
              lambda a, acc, cell: [acc("nft"), a.owner]))


def second_v2(x):
    a = x.a
    s = ["second_position", "second_position_nft_account", "second_position_nft_mint"]
    pos, nft, mint = [x.opt_key(n) for n in s]
    one = [x.key("amm_program"), x.key("pool_authority"), mint, nft, x.key("pool"), pos, x.key("damm_pool_authority"), x.key("payer")]
    one += keys(x, "token_2022_program system_program damm_event_authority amm_program") + [False]
    two = [x.key("amm_program"), x.key("pool"), pos] + keys(x, "base_vault quote_vault token_a_vault token_b_vault base_mint quote_mint") + [nft]
    two += keys(x, "pool_authority token_base_program token_quote_program damm_event_authority amm_program") + [a.liquidity, U64MAX, U64MAX, True]
    return dict(guards=guarded(x, since=1), log=[tuple(["cpi", "create_position"] + one), tuple(["cpi", "add_liquidity"] + two)])


method(Method(CTX2 + "create_second_position", "self liquidity", second_v2, lambda a, acc, cell: [a.liquidity]))
OPAQUE = {"PoolConfig::build_damm_v2_pool_fee_params": Opaque("PoolConfig::build_damm_v2_pool_fee_params", "self")}
STEPS = {k: Step(m) for k, m in METHODS.items()}


def migrate_v2(x):
    p, c = x.before("virtual_pool"), x.before("config")
    m, price = c.migrated_collect_fee_mode, c.migration_sqrt_price
    fees = base_fees(p)
    b0, q0 = x.token("base_vault")[2], x.token("quote_vault")[2]
    now = wrap(TIME, "u64")

    def kind(f):
        """by kind of the migrated pool"""
        u, v = f(COMP), f(CONC)
        w = lambda s, t: {k: w(s[k], t[k]) for k in s} if isinstance(s, dict) else tuple(map(w, s, t)) if isinstance(s, tuple) else If(Eq(m, 2), s, t)
        return w(u, v)

    base, quote = kind(lambda k: amounts_2(k, c.migration_base_threshold, c.migration_quote_threshold, c.migration_fee_percentage, b0 - fees))
    fb, fq = kind(lambda k: protocol_fees(k, price, base, quote, p.protocol_liquidity_migration_fee_bps))
    pool = kind(lambda k: initial(k, price, base - fb, quote - fq))
    s = liquidity_split(c, pool["distributable_liquidity"])
    tot = lambda d: d["unlocked_liquidity"] + d["permanent_locked_liquidity"] + d["vested_liquidity"]
    first = tot(s["partner"]) > tot(s["creator"])      # the larger share goes first
    one = {k: If(first, s["partner"][k], s["creator"][k]) for k in s["partner"]}
    other = {k: If(first, s["creator"][k], s["partner"][k]) for k in s["partner"]}
    info = {w: getattr(c, w + "_liquidity_vesting_info") for w in ("partner", "creator")}
    locked = {w: getattr(c, w + "_permanent_locked_liquidity_percentage") for w in ("partner", "creator")}

    class Info:
        """vesting of the first or the second position"""

        def __init__(self, swap):
            self.swap = swap

        def __getattr__(self, f):
            a, b = getattr(info["partner"], f), getattr(info["creator"], f)
            return If(first, b, a) if self.swap else If(first, a, b)

    class Item:
        def __init__(self, shares, vesting, locked):
            self.__dict__.update(shares)
            self.liquidity_vesting_info, self.permanent_locked_liquidity_percentage = vesting, locked

    # first position: pool, lock of what is to be locked, hand-over
    steps = [k.split("::")[1] for k in x.steps()]
    handed = [i for i, k in enumerate(steps) if k == "set_authority_for_position"]
    locks = [i for i, k in enumerate(steps) if k == "lock_liquidity_position"]
    cut = handed[0] if handed else len(steps)
    lock1, lock2 = any(i < cut for i in locks), any(i > cut for i in locks)
    second = "create_second_position" in steps
    n1 = x.key("first_position_nft_account")
    log = [("step", CTX2 + "create_pool", x.extra_key(0), tot(one) + pool["dead_liquidity"], pool["sqrt_price"], c.migration_fee_option, m, x.cellname("config"))]
    guards = [("first position is locked exactly if part of it is", Eq(one["permanent_locked_liquidity"] + one["vested_liquidity"] > 0, lock1))]
    if lock1:
        log.append(tuple(["step", CTX2 + "lock_liquidity_position"] + lock_record(one["permanent_locked_liquidity"], one["vested_liquidity"], Info(False),
                                                                                  x.key("first_position"), n1, now)))
    log.append(("step", CTX2 + "set_authority_for_position", n1, If(first, c.fee_claimer, p.creator)))
    # second position: what the first one left
    lb, lq = base - fb - (b0 - x.reloaded("base_vault")), quote - fq - (q0 - x.reloaded("quote_vault"))
    d = x.found("pool", "Pool")
    L = kind(lambda k: second_liquidity(k, price, lb, lq, d.token_a_amount, d.token_b_amount, d.liquidity))
    guards += [("what was deposited is no more than what was there to migrate", And(lb >= 0, lq >= 0)),
               ("second position exactly if liquidity is left for it", Eq(L > 0, second))]
    order = ["create_pool"] + ["lock_liquidity_position"] * lock1 + ["set_authority_for_position"]
    if second:
        two = adjusted(Item(other, Info(True), If(first, locked["creator"], locked["partner"])), L)
        n2 = x.opt_key("second_position_nft_account")
        log.append(("step", CTX2 + "create_second_position", L))
        guards.append(("second position is locked exactly if part of it is", Eq(two["permanent_locked_liquidity"] + two["vested_liquidity"] > 0, lock2)))
        if lock2:
            log.append(tuple(["step", CTX2 + "lock_liquidity_position"] + lock_record(two["permanent_locked_liquidity"], two["vested_liquidity"], Info(True),
                                                                                      x.opt_key("second_position"), n2, now)))
        log.append(("step", CTX2 + "set_authority_for_position", n2, If(first, p.creator, c.fee_claimer)))
        order += ["create_second_position"] + ["lock_liquidity_position"] * lock2 + ["set_authority_for_position"]
    guards.append(("in this order", steps == order))
    g, burnt = burn(x, "base_mint", burnable(c, x.reloaded("base_vault", 2) - fees - fb))
    t = x.extra(0, "Config")
    guards += [("stage", Eq(p.migration_progress, 2)), ("curve is complete", p.quote_reserve >= c.migration_quote_threshold),
               ("the pool migrates to DAMM v2", Eq(c.migration_option, 1)), ("target configuration is a genuine one", x.extra_typed(0, "Config")),
               ("target configuration is an accepted one", v2_config_ok(t, c.migration_fee_option)),
               ("target pool is a genuine one", x.typed_as("pool", "Pool"))]
    return dict(state={"virtual_pool": {"is_migrated": 1, "migration_progress": CREATED, "protocol_migration_base_fee_amount": fb,
                                        "protocol_migration_quote_fee_amount": fq}}, guards=guards + g, log=log + burnt)


MODE, SECOND = z3.Int("*acct2.33"), z3.Int("acct8.discr")


def _light(E):
    E.light, E.prune_ms = 200, 100


h = Handler("migration_damm_v2", lambda x: genuine(x, "virtual_pool") + authority(x) + [
    ("vaults are the pool's", And(Eq(x.key("base_vault"), x.before("virtual_pool").base_vault), Eq(x.key("quote_vault"), x.before("virtual_pool").quote_vault))),
    ("AMM program", Eq(x.key("amm_program"), x.const("damm_v2::ID"))), ("payer signed", x.signer("payer"))], migrate_v2, opts=_light,
            cases={"%s, %s mint given" % (n, o): [c, d] for n, c in (("concentrated", MODE != 2), ("compounding", MODE == 2))
                   for o, d in (("second", SECOND == 1), ("no second", SECOND == 0))}, budget=400, weight=60)
h.split_access = True
h.extra = {"effects": STEPS, "access": STEPS}
add(h)
add(Handler("migration_damm_v2_create_metadata", None, lambda x: dict(guards=[("nothing is done", len(x.st.log) == 0)])))      # does nothing any more
