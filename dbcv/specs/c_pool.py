"""Swap results, the pool's state change on a swap, and the small state helpers."""
from ..core import A, FnContract
from ..sym import (And, Eq, If, Iff, Implies, Max, Min, Ne, Not, Or, U64MAX, U128MAX, as_int, cdiv, conc, fdiv, fmod, is_z3)
from .c_fee import (B2Q, FEE_DEN, Q2B, base_fee_excluded, base_fee_included, excl, fee_on, incl, min_base_fee, post_swap, split, total_fee)
from .c_swap import WALKCON

CON = {}


def add(c):
    CON[c.key] = c
    return c


def fee_num(a, which, amount):
    """fee numerator of a swap: the schedule's minimum for an eligible first swap, else base fee + dynamic fee, capped"""
    f = a.config.pool_fees
    base = base_fee_included if which == "included" else base_fee_excluded
    return If(a.first, min_base_fee(f.base_fee),
              total_fee(base(f.base_fee, a.point, a.self.activation_point, a.dir, amount), f.dynamic_fee, a.self.volatility_tracker))


def walk(a, kind, amount):
    """the walk in the direction of the trade, as (left, price, total)"""
    b = A(self=a.self, config=a.config, amount=amount)
    q = A(self=a.self, config=a.config, amount=amount, stop=a.config.migration_sqrt_price)
    if kind == "out":
        q = b
    key = {"in": "amount_left", "out": "amount_in"}[kind]

    def get(d):
        c = WALKCON[("b2q_" if d == B2Q else "q2b_") + kind]
        r = c.res(b if d == B2Q else q)
        return (r.get("amount_left", 0), r["next_sqrt_price"], r["output_amount"] if kind == "in" else r["amount_in"])
    if conc(a.dir):
        return get(a.dir)
    x, y = get(B2Q), get(Q2B)
    return tuple(If(Eq(a.dir, B2Q), u, v) for u, v in zip(x, y))


def result2(left, incl_in, excl_in, out, price, fees):
    t, p, r = fees
    return {"amount_left": left, "included_fee_input_amount": incl_in, "excluded_fee_input_amount": excl_in, "output_amount": out,
            "next_sqrt_price": price, "trading_fee": t, "protocol_fee": p, "referral_fee": r}


def sel(c, x, y):
    return tuple(If(c, u, v) for u, v in zip(x, y))


def exact_in(a):
    n = fee_num(a, "included", a.amount)
    fi, ref = a.mode.fees_on_input, a.mode.has_referral
    f1 = cdiv(a.amount * n, FEE_DEN)
    x = If(fi, a.amount - f1, a.amount)
    left, price, total = walk(a, "in", x)
    f2 = cdiv(total * n, FEE_DEN)
    fee = If(fi, f1, f2)
    return left, result2(0, a.amount, x, If(fi, total, total - f2), price, split(fee, ref))


def partial(a):
    n = fee_num(a, "included", a.amount)
    fi, ref = a.mode.fees_on_input, a.mode.has_referral
    f1 = cdiv(a.amount * n, FEE_DEN)
    x0 = If(fi, a.amount - f1, a.amount)
    left, price, total = walk(a, "in", x0)
    x = x0 - left
    n2 = fee_num(a, "excluded", x)
    inc2 = Min(incl(n2, x), a.amount)
    filled = Eq(left, 0)
    used = If(filled, a.amount, If(fi, inc2, x))         # never more than offered
    f2 = cdiv(total * n, FEE_DEN)
    fee = If(fi, If(filled, f1, inc2 - x), f2)
    return result2(left, used, x, If(fi, total, total - f2), price, split(fee, ref))


def exact_out(a):
    fi, ref = a.mode.fees_on_input, a.mode.has_referral
    n1 = fee_num(a, "excluded", a.amount)
    want = If(fi, a.amount, incl(n1, a.amount))
    _, price, need = walk(a, "out", want)
    n2 = fee_num(a, "excluded", need)
    inc = incl(n2, need)
    fee = If(fi, inc - need, incl(n1, a.amount) - a.amount)
    return result2(0, If(fi, inc, need), need, a.amount, price, split(fee, ref))


def _opts(E):
    pass


ARGS = "self config amount mode dir point first"
add(FnContract("VirtualPool::get_swap_result_from_exact_input", ARGS, result=lambda a: exact_in(a)[1], when=lambda a: Eq(exact_in(a)[0], 0)))
def within(a, r):
    """ "fees are inside what goes in, or inside what the curve pays" is C06; here: no more is taken than was offered"""
    return [("no more is taken than was offered", r["included_fee_input_amount"] <= a.amount),
            ("what reaches the curve and the fees on the input make up what is taken",
             Implies(a.mode.fees_on_input, Eq(r["excluded_fee_input_amount"] + r["trading_fee"] + r["protocol_fee"] + r["referral_fee"],
                                              r["included_fee_input_amount"])))]


add(FnContract("VirtualPool::get_swap_result_from_partial_input", ARGS, result=partial, ensures=within))
add(FnContract("VirtualPool::get_swap_result_from_exact_output", ARGS, result=exact_out,
               when=lambda a: exact_out(a)["next_sqrt_price"] <= a.config.migration_sqrt_price))

add(FnContract("SwapResult2::get_swap_result", "self", exact=True, result=lambda a: {
    "actual_input_amount": a.self.excluded_fee_input_amount, "output_amount": a.self.output_amount, "next_sqrt_price": a.self.next_sqrt_price,
    "trading_fee": a.self.trading_fee, "protocol_fee": a.self.protocol_fee, "referral_fee": a.self.referral_fee}))


def creator_share(pct, fee):
    return fdiv(fee * pct, 100)


add(FnContract("PoolConfig::split_partner_and_creator_fee", "self fee",
               result=lambda a: {"partner_fee": a.fee - creator_share(a.self.creator_trading_fee_percentage, a.fee),
                                 "creator_fee": creator_share(a.self.creator_trading_fee_percentage, a.fee)},
               when=lambda a: creator_share(a.self.creator_trading_fee_percentage, a.fee) <= a.fee))

add(FnContract("PoolMetrics::accumulate_fee", "self p t base", effect=lambda a: {"self": {
    "total_protocol_base_fee": a.self.total_protocol_base_fee + If(a.base, a.p, 0),
    "total_trading_base_fee": a.self.total_trading_base_fee + If(a.base, a.t, 0),
    "total_protocol_quote_fee": a.self.total_protocol_quote_fee + If(a.base, 0, a.p),
    "total_trading_quote_fee": a.self.total_trading_quote_fee + If(a.base, 0, a.t)}}))


def applied(a):
    """the pool after a swap"""
    s, r, m = a.self, a.res, a.mode
    creator = creator_share(a.config.creator_trading_fee_percentage, r.trading_fee)
    partner = r.trading_fee - creator
    b = m.fees_on_base_token
    out = r.output_amount + If(m.fees_on_input, 0, r.trading_fee + r.protocol_fee + r.referral_fee)
    sell = Eq(a.dir, B2Q)
    ch = {"sqrt_price": r.next_sqrt_price, "has_swap": 1,
          "base_reserve": If(sell, s.base_reserve + r.actual_input_amount, s.base_reserve - out),
          "quote_reserve": If(sell, s.quote_reserve - out, s.quote_reserve + r.actual_input_amount)}
    for who, x in (("partner", partner), ("protocol", r.protocol_fee), ("creator", creator)):
        ch[who + "_base_fee"] = getattr(s, who + "_base_fee") + If(b, x, 0)
        ch[who + "_quote_fee"] = getattr(s, who + "_quote_fee") + If(b, 0, x)
    M = s.metrics
    for k, x in (("protocol", r.protocol_fee), ("trading", r.trading_fee)):
        ch["metrics.total_%s_base_fee" % k] = getattr(M, "total_%s_base_fee" % k) + If(b, x, 0)
        ch["metrics.total_%s_quote_fee" % k] = getattr(M, "total_%s_quote_fee" % k) + If(b, 0, x)
    for k, v in post_swap(s.volatility_tracker, a.config.pool_fees.dynamic_fee, s.sqrt_price, r.next_sqrt_price, a.now).items():
        ch["volatility_tracker." + k] = v
    return ch


add(FnContract("VirtualPool::apply_swap_result", "self config res mode dir now", effect=lambda a: {"self": applied(a)}))
