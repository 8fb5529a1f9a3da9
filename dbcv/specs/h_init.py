"""Creating a pool."""
from .. import anchor
from ..core import decided
from ..handlers import Handler, Opaque
from ..sym import And, Eq, If, Max, Or
from .c_config import point
from .c_fee import LIMITER, MIN_FEE, min_base_fee
from .c_migrate import total_locked_bps
from .h_admin import no_init
from .h_config import DAY, FEE_BPS, MIN_LOCKED
from .h_migrate import guarded

H = {}
SPL, TOKEN_2022 = 0, 1
CREATOR, IMMUTABLE, PARTNER, CREATOR_MINT, PARTNER_MINT = range(5)
SUPPLY = "PoolConfig::get_initial_base_supply"


def update_authority(x, c):
    """key, or None when nobody may change the metadata"""
    o = c.token_update_authority
    if decided(Eq(o, IMMUTABLE)):
        return None
    return If(Or(Eq(o, CREATOR), Eq(o, CREATOR_MINT)), x.key("creator"), c.fee_claimer)


def mint_authority(x, c):
    o = c.token_update_authority
    if decided(Or(Eq(o, CREATOR_MINT), Eq(o, PARTNER_MINT))):
        return If(Eq(o, CREATOR_MINT), x.key("creator"), c.fee_claimer)
    return None


def opt(k):
    return ["None"] if k is None else ["Some", k]


def create(kind):
    def effects(x):
        c = x.before("config")
        K = x.key
        auth, mint, payer, tp = K("pool_authority"), K("base_mint"), K("payer"), K("token_program")
        supply = x.E.leaf("%s(%s)" % (SUPPLY, x.cellname("config")), "u64")
        now = point(c.activation_type)
        guards = [("a tenth of the liquidity stays locked for a day", total_locked_bps(c, DAY) >= MIN_LOCKED),
                  ("the base fee never falls below the least fee", And(c.pool_fees.base_fee.base_fee_mode <= LIMITER, min_base_fee(c.pool_fees.base_fee) >= MIN_FEE)),
                  ("the configuration is for this kind of token", Eq(c.token_type, kind)),
                  ("there is such a token authority option", c.token_update_authority <= PARTNER_MINT)]
        upd, mnt = update_authority(x, c), mint_authority(x, c)
        name, symbol, uri = [repr(x.string("0.%d" % i)) for i in range(3)]
        log = [("cpi", "initialize_mint2", tp, mint, c.token_decimal, auth, "None", False),
               ("cpi", "initialize_account3", tp, K("base_vault"), mint, auth, False),
               ("cpi", "initialize_account3", K("token_quote_program"), K("quote_vault"), K("quote_mint"), auth, False),
               ("cpi", "mint_to", tp, mint, K("base_vault"), auth, supply, True),
               ("cpi", "set_authority", tp, auth, mint, "MintTokens", *opt(mnt), True)]
        if kind == SPL:
            mp = K("metadata_program")
            log += [("cpi", "CreateMetadataAccountV3", mp, name, symbol, uri, 0, "None", "None", "None", upd is not None, K("mint_metadata"), mint, auth,
                     payer, K("system_program"), auth, False, True),
                    ("cpi", "UpdateMetadataAccountV2", mp, K("mint_metadata"), K("system_program") if upd is None else upd, auth, True)]
            since = x.calls_before("CreateMetadataAccountV3")
            guards += guarded(x, until="mint_to", since=since)
        else:
            who = K("creator")
            log += [("cpi", "metadata_pointer_initialize", tp, tp, mint, "Some", auth, "Some", mint, False),
                    ("cpi", "token_metadata_initialize", tp, tp, mint, who, auth, mint, name, symbol, uri, True),
                    ("cpi", "set_authority", tp, auth, mint, "MetadataPointer", *opt(upd), True),
                    ("cpi", "token_metadata_update_authority", tp, tp, mint, who, K("system_program"), *opt(upd), True)]
            _, (lam, _, size) = x.runtime("base_mint", x.calls_before("token_metadata_initialize") + 1)
            log.append(("sol", payer, mint, Max(anchor.RENT(size) - lam, 0), False))
        log.append(("sol", payer, K("pool"), c.pool_creation_fee, False))
        pool = {"config": K("config"), "creator": K("creator"), "base_mint": mint, "base_vault": K("base_vault"), "quote_vault": K("quote_vault"),
                "sqrt_price": c.sqrt_start_price, "pool_type": kind, "activation_point": now, "base_reserve": supply,
                "protocol_liquidity_migration_fee_bps": FEE_BPS}
        return dict(guards=guards, inits={"pool": pool}, log=log, skip=no_init,
                    events=[("EvtInitializePool", K("pool"), K("config"), K("creator"), mint, kind, now)])
    return effects


def access(x):
    c = x.before("config")
    a, b = x.key("base_mint"), x.key("quote_mint")
    out = [("%s signed" % n, x.signer(n)) for n in ("creator", "base_mint", "payer")]
    return out + [("the configuration is genuine", x.typed("config")), ("the quote mint is a mint", x.typed_as("quote_mint", "Mint")),
                  ("the quote mint is the configuration's", Eq(c.quote_mint, b)),
                  ("authority is the pool authority address", Eq(x.key("pool_authority"), x.pda("pool_authority"))),
                  ("the pool has the address of its configuration and mints", Eq(x.key("pool"), x.pda("pool", x.key("config"), If(a >= b, a, b), If(a >= b, b, a)))),
                  ("the base vault has its address", Eq(x.key("base_vault"), x.pda("token_vault", a, x.key("pool")))),
                  ("the quote vault has its address", Eq(x.key("quote_vault"), x.pda("token_vault", b, x.key("pool"))))]


for _n, _k in (("initialize_virtual_pool_with_spl_token", SPL), ("initialize_virtual_pool_with_token2022", TOKEN_2022)):
    h = Handler(_n, access, create(_k), weight=6)
    for p in ("access", "effects"):
        h.extra[p] = {SUPPLY: Opaque(SUPPLY, "self")}
    H[_n] = h
