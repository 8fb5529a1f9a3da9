"""Administrative instructions, metadata, creator transfer, leftover."""
from ..handlers import Handler, SYSTEM_INIT, token
from ..sym import And, Eq, If, Implies, Min, Ne, Not, Or, fdiv, fmod
from .h_fees import bit, complete, creator, from_pool, genuine

H = {}


def add(h):
    H[h.name] = h
    return h


ADMINS = ("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi", "DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX")


def admin(x):
    from ..engine import b58
    return [("admin signed", x.signer("signer")), ("signer is one of the program's admins", Or(*[Eq(x.key("signer"), b58(a)) for a in ADMINS]))]


def no_init(a):
    """CPIs that only create the account being initialised"""
    return a[0] == "cpi" and a[1][0] in SYSTEM_INIT


def strings(x):
    return {"name": x.string("0.1"), "website": x.string("0.2"), "logo": x.string("0.3")}


add(Handler("create_operator_account",
            lambda x: admin(x) + [("operator account has the address of the whitelisted key", Eq(x.key("operator"), x.pda("operator", x.key("whitelisted_address"))))],
            lambda x: dict(guards=[("permission names existing operations only", And(x.ix(0, "u128") > 0, x.ix(0, "u128") < 4))],
                           inits={"operator": {"whitelisted_address": x.key("whitelisted_address"), "permission": x.ix(0, "u128")}},
                           skip=no_init)))
add(Handler("close_operator_account", lambda x: admin(x) + [("operator account is genuine", x.typed("operator"))],
            lambda x: dict(log=[("close", x.key("operator"), x.key("rent_receiver"))])))
add(Handler("close_claim_protocol_fee_operator", lambda x: admin(x) + [("operator account is genuine", x.typed("claim_fee_operator"))],
            lambda x: dict(log=[("close", x.key("claim_fee_operator"), x.key("rent_receiver"))])))
add(Handler("create_partner_metadata",
            lambda x: [("fee claimer signed", x.signer("fee_claimer")),
                       ("metadata has the address of the fee claimer", Eq(x.key("partner_metadata"), x.pda("partner_metadata", x.key("fee_claimer"))))],
            lambda x: dict(skip=no_init, state={"partner_metadata": dict({"fee_claimer": x.key("fee_claimer")}, **strings(x))})))
add(Handler("create_virtual_pool_metadata",
            lambda x: genuine(x, "virtual_pool", False) + creator(x, "virtual_pool") + [
                ("metadata has the address of the pool", Eq(x.key("virtual_pool_metadata"), x.pda("virtual_pool_metadata", x.key("virtual_pool"))))],
            lambda x: dict(skip=no_init, state={"virtual_pool_metadata": dict({"virtual_pool": x.key("virtual_pool")}, **strings(x))})))


# ------------------------------------------------------------------ creator transfer

PRE, POST, LOCKED, CREATED = 0, 1, 2, 3
DAMM_V1 = 0


def transfer_creator(x):
    p, c = x.before("virtual_pool"), x.before("config")
    prog = p.migration_progress
    m = x.extra(0, "MeteoraDammMigrationMetadata")
    settled = [("the migration metadata is genuine", x.extra_typed(0, "MeteoraDammMigrationMetadata")),
               ("the migration metadata is this pool's", Eq(m.virtual_pool, x.key("virtual_pool")))]
    for amount, flag, what in (("partner_locked_liquidity", "partner_locked_status", "locked"), ("creator_locked_liquidity", "creator_locked_status", "locked"),
                               ("creator_liquidity", "creator_claim_status", "claimed"), ("partner_liquidity", "partner_claim_status", "claimed")):
        settled.append(("%s has been %s" % (amount, what), Or(Eq(getattr(m, amount), 0), Eq(getattr(m, flag), 1))))
    v1 = And(Eq(prog, CREATED), Eq(c.migration_option, DAMM_V1))
    return dict(state={"virtual_pool": {"creator": x.key("new_creator")}},
                guards=[("only before the curve completes or after migration", Or(Eq(prog, PRE), Eq(prog, CREATED))),
                        ("the creator changes", Ne(x.key("new_creator"), x.key("creator")))] +
                       [(a, Implies(v1, b)) for a, b in settled],
                events=[("EvtUpdatePoolCreator", x.key("virtual_pool"), x.key("creator"), x.key("new_creator"))])


add(Handler("transfer_pool_creator", lambda x: genuine(x, "virtual_pool") + creator(x, "virtual_pool"), transfer_creator))


# ------------------------------------------------------------------ leftover

def leftover(x):
    p, c = x.before("virtual_pool"), x.before("config")
    kept = p.partner_base_fee + p.protocol_base_fee + p.creator_base_fee + p.protocol_migration_base_fee_amount
    amount = x.token("base_vault")[2] - kept
    return dict(state={"virtual_pool": {"is_withdraw_leftover": 1}},
                guards=[("the pool has been migrated", Eq(p.migration_progress, CREATED)), ("the token supply is fixed", Eq(c.fixed_token_supply_flag, 1)),
                        ("not withdrawn before", Eq(p.is_withdraw_leftover, 0))],
                log=[token(x.key("base_vault"), x.key("base_mint"), x.key("token_base_account"), x.key("pool_authority"), amount)],
                events=[("EvtWithdrawLeftover", x.key("virtual_pool"), x.key("leftover_receiver"), amount)])


add(Handler("withdraw_leftover", lambda x: genuine(x, "virtual_pool") + from_pool(x, "virtual_pool", quote=False) + [
    ("receiver is the config's leftover receiver", Eq(x.before("config").leftover_receiver, x.key("leftover_receiver"))),
    ("tokens go to the receiver's associated token account",
     Eq(x.key("token_base_account"), x.ata(x.key("leftover_receiver"), x.key("base_mint"), x.key("token_base_program")))),
    ("and that account still belongs to the receiver", Eq(x.token("token_base_account")[1], x.key("leftover_receiver")))], leftover))
