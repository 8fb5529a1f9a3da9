"""The swap instructions."""
import z3

from ..core import A, CheckContract, FnContract
from ..engine import Unsupported
from ..handlers import Handler, token
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, as_bool, as_int, wrap
from . import c_pool, c_swap
from .c_config import SLOT, TIME, has_vesting, point, vest_total
from .c_fee import B2Q, LIMITER, Q2B, fee_mode, limiter_of, refs_after, rl_applied
from .h_admin import LOCKED, POST

H = {}


def add(h):
    H[h.name] = h
    return h


class Over:
    """a struct view with some fields replaced"""

    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


SINGLE, FIRST = "validate_single_swap_instruction", "validate_contain_initialize_pool_ix_and_no_cpi"
EXACT_IN, PARTIAL, EXACT_OUT = 0, 1, 2
MODES = {"exact in": (EXACT_IN, lambda m: Eq(m, 0)), "partial fill": (PARTIAL, lambda m: Eq(m, 1)),
         "exact out": (EXACT_OUT, lambda m: And(Ne(m, 0), Ne(m, 1)))}
SELLS = z3.Int("***acct3.0") == z3.Int("key(acct7)")     # the mint of the input account is the base mint


def base_fees(p):
    return p.partner_base_fee + p.protocol_base_fee + p.creator_base_fee


def swap(mode_of, a0, a1):
    def effects(x):
        p, c = x.before("pool"), x.before("config")
        mode, sell = mode_of(x)
        d = B2Q if sell else Q2B
        ref = x.present("referral_token_account")
        now, pt = wrap(TIME, "u64"), point(c.activation_type)
        m = fee_mode(c.collect_fee_mode, d, ref)
        # before the swap: the volatility reference
        vt, dyn = p.volatility_tracker, c.pool_fees.dynamic_fee
        pre = {k: If(Eq(dyn.initialized, 0), getattr(vt, k), v) for k, v in refs_after(vt, dyn, p.sqrt_price, now).items()}
        q = Over(p, volatility_tracker=Over(vt, **pre))
        # may this be the creator's cheaper first swap?
        cand = And(Eq(c.enable_first_swap_with_min_fee, 1), Eq(p.has_swap, 0))
        first = And(cand, z3.Bool("accepts:%s#0" % FIRST))
        a = A(self=q, config=c, amount=x.ix(*a0), mode=A(**m), dir=d, point=pt, first=first)
        lim = x.ix(*a1)
        guards = [("the amount is positive", x.ix(*a0) > 0), ("the curve was not complete", p.quote_reserve < c.migration_quote_threshold)]
        r = opaque({EXACT_IN: "exact_input", PARTIAL: "partial_input", EXACT_OUT: "exact_output"}[mode], a)
        if mode in (EXACT_IN, PARTIAL):
            guards += [("at least the minimum goes out", r["output_amount"] >= lim)]
        else:
            guards += [("at most the maximum goes in", r["included_fee_input_amount"] <= lim),
                       ("mode is one of the three", Eq(x.ix("0.2", "u8"), EXACT_OUT))]
        # pool afterwards
        res = A(actual_input_amount=r["excluded_fee_input_amount"], **{k: r[k] for k in "output_amount next_sqrt_price trading_fee protocol_fee referral_fee".split()})
        after = c_pool.applied(A(self=q, config=c, res=res, mode=a.mode, dir=d, now=now))
        for k, v in pre.items():
            after.setdefault("volatility_tracker." + k, v)
        done = after["quote_reserve"] >= c.migration_quote_threshold
        v = c.locked_vesting_config
        after["finish_curve_timestamp"] = If(done, now, p.finish_curve_timestamp)
        after["migration_progress"] = If(done, If(has_vesting(v), POST, LOCKED), p.migration_progress)
        fees = sum(after[w + "_base_fee"] for w in ("partner", "protocol", "creator"))
        guards.append(("a completed curve leaves enough base tokens for the migration",
                       Implies(done, x.reloaded("base_vault") >= c.migration_base_threshold + fees + vest_total(v))))
        # checks on the transaction
        limited = And(Eq(c.pool_fees.base_fee.base_fee_mode, LIMITER), rl_applied(limiter_of(c.pool_fees.base_fee), pt, p.activation_point, d))
        guards.append(("one swap per transaction while the rate limiter applies", Implies(limited, x.checked(SINGLE, x.key("pool"), "remaining"))))
        guards.append(("a first swap is cheaper only in the pool's first transaction",
                       Implies(cand, x.asked(FIRST, x.key("pool"), x.opt_key("referral_token_account"), "remaining"))))
        # tokens
        i, o = ("base", "quote") if sell else ("quote", "base")
        pa = x.key("pool_authority")
        log = [token(x.key("input_token_account"), x.key(i + "_mint"), x.key(i + "_vault"), x.key("payer"), r["included_fee_input_amount"], False),
               token(x.key(o + "_vault"), x.key(o + "_mint"), x.key("output_token_account"), pa, r["output_amount"])]
        if ref:
            b = m["fees_on_base_token"]
            log.append(token(If(b, x.key("base_vault"), x.key("quote_vault")), If(b, x.key("base_mint"), x.key("quote_mint")),
                             x.opt_key("referral_token_account"), pa, r["referral_fee"]))
        return dict(state={"pool": after}, guards=guards, log=log)
    return effects


def access(x):
    p = x.before("pool")
    return [("pool is genuine", x.typed("pool")), ("config is genuine", x.typed("config")), ("config is the pool's", Eq(p.config, x.key("config"))),
            ("authority is the pool authority address", Eq(x.key("pool_authority"), x.pda("pool_authority"))),
            ("base vault is the pool's", Eq(p.base_vault, x.key("base_vault"))), ("quote vault is the pool's", Eq(p.quote_vault, x.key("quote_vault"))),
            ("base mint is the vault's", Eq(x.token("base_vault")[0], x.key("base_mint"))),
            ("quote mint is the vault's", Eq(x.token("quote_vault")[0], x.key("quote_mint"))),
            ("the payer signed", x.signer("payer"))]


def _mode(x):
    m, d, _ = x.case.split(", ")
    return MODES[m][0], d == "sell"


# The swap computation itself is under contract on its own (C04); here its results are opaque functions of everything the
# contract's specification reads: price, volatility, activation point of the pool; the configuration; the arguments.

VT = ["volatility_accumulator"]


def opaque(kind, a):
    root = c_swap.root_of(a.config)
    if root is None:
        raise Unsupported("swap on a modified configuration")
    args = [as_int(v) for v in [a.self.sqrt_price, a.self.activation_point] + [getattr(a.self.volatility_tracker, k) for k in VT] + [a.amount, a.dir, a.point]]
    flags = [as_bool(v) for v in (a.mode.fees_on_input, a.mode.fees_on_base_token, a.mode.has_referral, a.first)]

    def f(n):
        return z3.Function("SWAP_%s_%s@%s" % (kind, n, root), *([z3.IntSort()] * len(args) + [z3.BoolSort()] * len(flags) + [z3.IntSort()]))(*args, *flags)
    r = {n: f(n) for n in "amount_left included_fee_input_amount excluded_fee_input_amount output_amount next_sqrt_price trading_fee protocol_fee referral_fee".split()}
    if kind == "exact_input":
        r.update(included_fee_input_amount=a.amount, amount_left=0)
    elif kind == "exact_output":
        r.update(output_amount=a.amount, amount_left=0)
    return r


class Only:
    """an object with these fields and no others"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def _reads_only():
    """the specifications read no part of the pool but what `opaque` lists (AttributeError otherwise)"""
    i = z3.Int("any")

    class Cfg:
        def __getattr__(self, n):
            return i if n not in ("pool_fees", "base_fee", "dynamic_fee") else self
    pool = Only(sqrt_price=i, activation_point=i, volatility_tracker=Only(**{k: i for k in VT}))
    a = A(self=pool, config=Cfg(), amount=i, dir=i, point=i, first=z3.Bool("anyb"), mode=Only(fees_on_input=True, fees_on_base_token=True, has_referral=True))
    walk, c_pool.walk = c_pool.walk, lambda a, kind, amount: (a.self.sqrt_price, i, i)
    try:
        for f in (c_pool.exact_in, c_pool.partial, c_pool.exact_out):
            f(a)
    finally:
        c_pool.walk = walk
    return True


SWAPS = {}
for _k in ("exact_input", "partial_input", "exact_output"):
    _n = "VirtualPool::get_swap_result_from_" + _k
    SWAPS[_n] = FnContract(_n, c_pool.ARGS, result=lambda a, k=_k: opaque(k, a))
assert _reads_only()

CHECKS = {SINGLE: CheckContract(SINGLE, "pool accts"), FIRST: CheckContract(FIRST, "pool ref accts")}
HAS_REF = z3.Int("acct12.discr") == 1


def _cases(modes):
    return {"%s, %s, %s" % (m, d, r): modes[m] + [SELLS if d == "sell" else Not(SELLS), HAS_REF if r == "referral" else Not(HAS_REF)]
            for m in modes for d in ("sell", "buy") for r in ("referral", "no referral")}


S2 = _cases({m: [MODES[m][1](z3.Int("ix.0.2"))] for m in MODES})
S1 = _cases({"exact in": []})
for name, cases in (("swap", S1), ("swap2", S2)):
    h = add(Handler(name, access, swap(_mode, ("0.0",), ("0.1",)), cases=cases, weight=12))
    h.extra["effects"] = dict(CHECKS, **SWAPS)
    h.extra["access"] = {"handle_swap_wrapper": CheckContract("handle_swap_wrapper", "ctx params", record=[])}
