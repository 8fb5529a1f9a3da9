"""Instructions that pay out fees and surplus: who may call them, what they pay, what they record."""
from ..handlers import Handler, token
from ..sym import And, Eq, If, Implies, Min, Ne, Not, Or, fdiv, fmod

H = {}


def add(h):
    H[h.name] = h
    return h


def bit(x, i):
    return Eq(fmod(fdiv(x, 1 << i), 2), 1)


def set_bit(x, i):
    """x with bit i set"""
    return If(bit(x, i), x, x + (1 << i))


# ------------------------------------------------------------------ shared parts

def operator_role(x, perm):
    o = x.before("operator")
    return [("operator account is a genuine Operator account", x.typed("operator")),
            ("signer signed", x.signer("signer")),
            ("signer is the operator's whitelisted address", Eq(o.whitelisted_address, x.key("signer"))),
            ("operator holds the permission", bit(o.permission, perm))]


def genuine(x, pool="pool", config=True):
    out = [("pool is a genuine VirtualPool account", x.typed(pool))]
    if config:
        out += [("config is a genuine PoolConfig account", x.typed("config")),
                ("config is the pool's config", Eq(x.before(pool).config, x.key("config")))]
    return out


def from_pool(x, pool, base=True, quote=True, config=True, base_mint=None):
    """the vaults paid from are the pool's own and the authority is the program's"""
    p = x.before(pool)
    out = [("authority is the pool authority address", Eq(x.key("pool_authority"), x.pda("pool_authority")))]
    if base:
        out += [("base vault is the pool's", Eq(x.key("base_vault"), p.base_vault)),
                ("base mint is the pool's", Eq(x.key("base_mint"), p.base_mint))]
    if quote:
        out += [("quote vault is the pool's", Eq(x.key("quote_vault"), p.quote_vault)),
                ("quote mint is the quote vault's", Eq(x.token("quote_vault")[0], x.key("quote_mint")))]
        if config:
            out += [("quote mint is the config's", Eq(x.before("config").quote_mint, x.key("quote_mint")))]
    return out


def partner(x, who="fee_claimer"):
    return [("fee claimer signed", x.signer(who)), ("signer is the config's fee claimer", Eq(x.before("config").fee_claimer, x.key(who)))]


def creator(x, pool):
    return [("creator signed", x.signer("creator")), ("signer is the pool's creator", Eq(x.before(pool).creator, x.key("creator")))]


# ------------------------------------------------------------------ trading fees

def trading_claim(side, outs):
    def effects(x):
        p = x.before("pool")
        b, q = getattr(p, side + "_base_fee"), getattr(p, side + "_quote_fee")
        ab, aq = Min(b, x.ix(0)), Min(q, x.ix(1))
        a = x.key("pool_authority")
        return dict(state={"pool": {side + "_base_fee": b - ab, side + "_quote_fee": q - aq}},
                    log=[token(x.key("base_vault"), x.key("base_mint"), x.key(outs[0]), a, ab),
                         token(x.key("quote_vault"), x.key("quote_mint"), x.key(outs[1]), a, aq)],
                    events=[("EvtClaimTradingFee" if side == "partner" else "EvtClaimCreatorTradingFee", x.key("pool"), ab, aq)])
    return effects


add(Handler("claim_trading_fee", lambda x: genuine(x) + partner(x) + from_pool(x, "pool"),
            trading_claim("partner", ("token_a_account", "token_b_account"))))
add(Handler("claim_creator_trading_fee", lambda x: genuine(x, config=False) + creator(x, "pool") + from_pool(x, "pool", config=False),
            trading_claim("creator", ("token_a_account", "token_b_account"))))


# ------------------------------------------------------------------ protocol fees

def protocol_base(p, limit):
    f = Min(p.protocol_base_fee, limit)
    m = Min(p.protocol_migration_base_fee_amount, limit - f)
    return f + m, {"protocol_base_fee": p.protocol_base_fee - f, "protocol_migration_base_fee_amount": p.protocol_migration_base_fee_amount - m}


def complete(p, c):
    return p.quote_reserve >= c.migration_quote_threshold


def total_surplus(p, c):
    return p.quote_reserve - c.migration_quote_threshold


def shared_surplus(p, c):
    """what partner and creator get together"""
    return fdiv(total_surplus(p, c) * 80, 100)


def protocol_quote(p, c, limit):
    f = Min(p.protocol_quote_fee, limit)
    m = Min(p.protocol_migration_quote_fee_amount, limit - f)
    due = And(Eq(p.is_protocol_withdraw_surplus, 0), complete(p, c))
    s = If(due, total_surplus(p, c) - shared_surplus(p, c), 0)
    return f + m + s, {"protocol_quote_fee": p.protocol_quote_fee - f,
                       "protocol_migration_quote_fee_amount": p.protocol_migration_quote_fee_amount - m,
                       "is_protocol_withdraw_surplus": If(due, 1, p.is_protocol_withdraw_surplus)}


def claim_protocol(x):
    p, c = x.before("pool"), x.before("config")
    b, sb = protocol_base(p, x.ix(0))
    q, sq = protocol_quote(p, c, x.ix(1))
    a, t = x.key("pool_authority"), x.const("treasury::ID")
    tb = x.ata(t, x.key("base_mint"), x.key("token_base_program"))
    tq = x.ata(t, x.key("quote_mint"), x.key("token_quote_program"))
    return dict(state={"pool": dict(sb, **sq)},
                log=[token(x.key("base_vault"), x.key("base_mint"), x.key("token_base_account"), a, b),
                     token(x.key("quote_vault"), x.key("quote_mint"), x.key("token_quote_account"), a, q)],
                guards=[("base fees go to the treasury's token account", Implies(b > 0, Eq(x.key("token_base_account"), tb))),
                        ("quote fees go to the treasury's token account", Implies(q > 0, Eq(x.key("token_quote_account"), tq))),
                        ("that account is still the treasury's (base)", Implies(b > 0, Eq(x.token_owner("token_base_account"), t))),
                        ("that account is still the treasury's (quote)", Implies(q > 0, Eq(x.token_owner("token_quote_account"), t)))],
                events=[("EvtClaimProtocolFee", x.key("pool"), b, q)])


add(Handler("claim_protocol_fee", lambda x: genuine(x) + operator_role(x, 0) + from_pool(x, "pool"), claim_protocol))


def zap_access(x):
    p, c = x.before("pool"), x.before("config")
    base = Eq(x.key("token_mint"), p.base_mint)
    return genuine(x) + operator_role(x, 1) + [
        ("authority is the pool authority address", Eq(x.key("pool_authority"), x.pda("pool_authority"))),
        ("mint is one of the pool's two tokens", Or(base, Eq(x.key("token_mint"), c.quote_mint))),
        ("vault is the pool's vault for that token", Eq(x.key("token_vault"), If(base, p.base_vault, p.quote_vault))),
        ("mint belongs to the given token program", Eq(x.owner("token_mint"), x.key("token_program"))),
        ("sysvar is the instructions sysvar", Eq(x.key("sysvar_instructions"), x.const("instructions::ID"))),
        ("receiver is the signer's associated token account", Eq(x.key("receiver_token"), x.ata(x.key("signer"), x.key("token_mint"), x.key("token_program")))),
        ("receiver is owned by the signer", Eq(x.token_owner("receiver_token"), x.key("signer")))]


def zap(x):
    p, c = x.before("pool"), x.before("config")
    base = Eq(x.key("token_mint"), p.base_mint)
    b, sb = protocol_base(p, x.ix(0))
    q, sq = protocol_quote(p, c, x.ix(0))
    amount = If(base, b, q)
    t = x.const("treasury::ID")
    flag = If(base, c.quote_token_flag, p.pool_type)
    prog = If(Eq(flag, 0), x.const("spl_token::ID"), x.const("spl_token_2022::ID"))
    other = x.ata(t, If(base, c.quote_mint, p.base_mint), prog)
    state = {k: If(base, v, getattr(p, k)) for k, v in sb.items()}
    state.update({k: If(base, getattr(p, k), v) for k, v in sq.items()})
    return dict(state={"pool": state},
                log=[token(x.key("token_vault"), x.key("token_mint"), x.key("receiver_token"), x.key("pool_authority"), amount)],
                guards=[("something is withdrawn", amount > 0), ("SOL and USDC are not zapped", Not(x.in_const("MINTS_DISALLOWED_TO_ZAP_OUT", x.key("token_mint"))))],
                checks=[("validate_zap_out_to_treasury", amount, x.own, x.key("receiver_token"), x.data("receiver_token"),
                         x.data("sysvar_instructions"), t, other)])


add(Handler("zap_protocol_fee", zap_access, zap))


# ------------------------------------------------------------------ surplus

def surplus(side, pool="virtual_pool"):
    def effects(x):
        p, c = x.before(pool), x.before("config")
        both = shared_surplus(p, c)
        cr = fdiv(both * c.creator_trading_fee_percentage, 100)
        amount = cr if side == "creator" else both - cr
        flag = "is_%s_withdraw_surplus" % side
        return dict(state={pool: {flag: 1}},
                    guards=[("the curve is complete", complete(p, c)), ("not withdrawn before", Eq(getattr(p, flag), 0))],
                    log=[token(x.key("quote_vault"), x.key("quote_mint"), x.key("token_quote_account"), x.key("pool_authority"), amount)],
                    events=[("EvtPartnerWithdrawSurplus" if side == "partner" else "EvtCreatorWithdrawSurplus", x.key(pool), amount)])
    return effects


add(Handler("partner_withdraw_surplus", lambda x: genuine(x, "virtual_pool") + partner(x) + from_pool(x, "virtual_pool", base=False), surplus("partner")))
add(Handler("creator_withdraw_surplus", lambda x: genuine(x, "virtual_pool") + creator(x, "virtual_pool") + from_pool(x, "virtual_pool", base=False),
            surplus("creator")))


# ------------------------------------------------------------------ migration fee

def migration_fee(c):
    """(total, creator's share) of the migration fee"""
    thr = c.migration_quote_threshold
    q = -fdiv(-(thr * (100 - c.migration_fee_percentage)), 100)
    total = thr - q
    return total, fdiv(total * c.creator_migration_fee_percentage, 100)


def withdraw_migration_access(x):
    p, c = x.before("virtual_pool"), x.before("config")
    return genuine(x, "virtual_pool") + from_pool(x, "virtual_pool", base=False) + [
        ("sender signed", x.signer("sender")),
        ("flag is partner or creator", Or(Eq(x.ix(0, "u8"), 0), Eq(x.ix(0, "u8"), 1))),
        ("sender is the party the flag names", Eq(x.key("sender"), If(Eq(x.ix(0, "u8"), 0), c.fee_claimer, p.creator)))]


def withdraw_migration(x):
    p, c = x.before("virtual_pool"), x.before("config")
    part = Eq(x.ix(0, "u8"), 0)
    total, cr = migration_fee(c)
    s = p.migration_fee_withdraw_status
    amount = If(part, total - cr, cr)
    return dict(state={"virtual_pool": {"migration_fee_withdraw_status": If(part, set_bit(s, 2), set_bit(s, 1))}},
                guards=[("the curve is complete", complete(p, c)),
                        ("this party has not withdrawn before", Not(If(part, bit(s, 2), bit(s, 1))))],
                log=[token(x.key("quote_vault"), x.key("quote_mint"), x.key("token_quote_account"), x.key("pool_authority"), amount)],
                events=[("EvtWithdrawMigrationFee", x.key("virtual_pool"), amount, x.ix(0, "u8"))])


add(Handler("withdraw_migration_fee", withdraw_migration_access, withdraw_migration))


# ------------------------------------------------------------------ pool creation fee

def creation_split(c):
    prot = fdiv(c.pool_creation_fee * 10, 100)
    return prot, c.pool_creation_fee - prot


def rent_kept(x, pool, amount):
    return [("the pool account stays rent exempt", x.lamports(pool) - amount >= x.rent(x.space("VirtualPool")))]


def partner_creation(x):
    p, c = x.before("pool"), x.before("config")
    amount = creation_split(c)[1]
    return dict(state={"pool": {"creation_fee_bits": set_bit(p.creation_fee_bits, 1)}},
                guards=[("not claimed before", Not(bit(p.creation_fee_bits, 1))), ("there is a fee", amount > 0)] + rent_kept(x, "pool", amount),
                log=[("lamports-", x.key("pool"), amount), ("lamports+", x.key("fee_receiver"), amount)],
                events=[("EvtPartnerClaimPoolCreationFee", x.key("pool"), x.key("fee_claimer"), amount, x.key("fee_receiver"))])


add(Handler("claim_partner_pool_creation_fee", lambda x: genuine(x) + partner(x), partner_creation))


def protocol_creation(x):
    p, c = x.before("pool"), x.before("config")
    due = Not(bit(p.creation_fee_bits, 0))
    l = p.legacy_creation_fee_bits
    legacy = And(bit(l, 0), Not(bit(l, 1)))
    amount = If(due, creation_split(c)[0], 0) + If(legacy, 10_000_000, 0)
    return dict(state={"pool": {"creation_fee_bits": set_bit(p.creation_fee_bits, 0), "legacy_creation_fee_bits": If(legacy, set_bit(l, 1), l)}},
                guards=[(a, Implies(amount > 0, b)) for a, b in rent_kept(x, "pool", amount)],
                log=[("lamports-", x.key("pool"), amount), ("lamports+", x.key("treasury"), amount)],
                events=[("EvtClaimPoolCreationFee", x.key("pool"), x.key("treasury"), amount)])


add(Handler("claim_protocol_pool_creation_fee", lambda x: genuine(x) + operator_role(x, 0) +
            [("receiver is the treasury", Eq(x.key("treasury"), x.const("treasury::ID")))], protocol_creation))


# ------------------------------------------------------------------ lemmas: the shares add up, nothing is paid twice

class Rec:
    def __init__(self, tag):
        self.tag = tag

    def __getattr__(self, n):
        import z3
        return z3.Int("L.%s.%s" % (self.tag, n))


def payout_goals():
    import z3
    out = []
    p, c = Rec("p"), Rec("c")
    ok = [p.quote_reserve >= c.migration_quote_threshold, c.migration_quote_threshold >= 0, c.creator_trading_fee_percentage >= 0,
          c.creator_trading_fee_percentage <= 100]
    both, tot = shared_surplus(p, c), total_surplus(p, c)
    cr = fdiv(both * c.creator_trading_fee_percentage, 100)
    prot = protocol_quote(p, c, z3.IntVal(0))[0]
    due = [Eq(p.is_protocol_withdraw_surplus, 0), p.protocol_quote_fee >= 0, p.protocol_migration_quote_fee_amount >= 0]
    out.append(("surplus: shares are not negative", ok + due, And(cr >= 0, both - cr >= 0, prot >= 0)))
    out.append(("surplus: partner, creator and protocol shares add up to the surplus", ok + due, Eq(cr + (both - cr) + prot, tot)))
    out.append(("surplus: the protocol's share is paid once",
                ok + [Eq(p.is_protocol_withdraw_surplus, 1), p.protocol_quote_fee >= 0, p.protocol_migration_quote_fee_amount >= 0], Eq(prot, 0)))
    total, mc = migration_fee(c)
    dom = [c.migration_quote_threshold >= 0, c.migration_fee_percentage >= 0, c.migration_fee_percentage <= 99,
           c.creator_migration_fee_percentage >= 0, c.creator_migration_fee_percentage <= 100]
    out.append(("migration fee: shares are not negative and do not exceed the threshold", dom,
                And(total >= 0, total <= c.migration_quote_threshold, mc >= 0, mc <= total)))
    pc, rest = creation_split(c)
    out.append(("creation fee: shares are not negative and add up", [c.pool_creation_fee >= 0], And(pc >= 0, rest >= 0, Eq(pc + rest, c.pool_creation_fee))))
    s = z3.Int("L.bits")
    for i, o in ((0, 1), (1, 0), (2, 1), (1, 2)):
        out.append(("claim bits: setting bit %d sets it and keeps bit %d" % (i, o), [s >= 0, s < 256],
                    And(bit(set_bit(s, i), i), Eq(bit(set_bit(s, i), o), bit(s, o)), set_bit(s, i) < 256)))
    lim = z3.Int("L.limit")
    f, sb = protocol_base(p, lim)
    nn = [p.protocol_base_fee >= 0, p.protocol_migration_base_fee_amount >= 0, lim >= 0]
    out.append(("protocol claim: within the limit, and what is paid leaves the counters", nn,
                And(f <= lim, f >= 0, Eq(f, p.protocol_base_fee + p.protocol_migration_base_fee_amount - sb["protocol_base_fee"] -
                                         sb["protocol_migration_base_fee_amount"]), sb["protocol_base_fee"] >= 0, sb["protocol_migration_base_fee_amount"] >= 0)))
    return out
