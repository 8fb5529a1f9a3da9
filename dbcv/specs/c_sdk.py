"""The quote functions offered to clients: the same computation, on the same reading of the clock and of the fee mode, as the swap
instruction makes (h_swap), and no refusal of its own but the instruction's."""
import z3

from ..core import A, FnContract
from ..sym import And, Eq, If, as_bool, as_int
from . import c_pool, c_swap, h_swap
from .c_fee import B2Q, LIMITER, Q2B, fee_mode, refs_after

CON = {}


def possible(kind, a):
    """does the swap computation succeed?"""
    root = c_swap.root_of(a.config)
    args = [as_int(v) for v in [a.self.sqrt_price, a.self.activation_point] + [getattr(a.self.volatility_tracker, k) for k in h_swap.VT] +
            [a.amount, a.dir, a.point]]
    flags = [as_bool(v) for v in (a.mode.fees_on_input, a.mode.fees_on_base_token, a.mode.has_referral, a.first)]
    return z3.Function("SWAP_%s_possible@%s" % (kind, root), *([z3.IntSort()] * len(args) + [z3.BoolSort()] * (len(flags) + 1)))(*args, *flags)


SWAPS = {}
KINDS = {"quote_exact_in": "exact_input", "quote_partial_fill": "partial_input", "quote_exact_out": "exact_output"}
for _k in KINDS.values():
    _n = "VirtualPool::get_swap_result_from_" + _k
    SWAPS[_n] = FnContract(_n, c_pool.ARGS, exact=True, result=lambda a, k=_k: h_swap.opaque(k, a), when=lambda a, k=_k: possible(k, a))


def asked(a, kind):
    """what the swap instruction would compute, for this clock"""
    d = If(a.sell, B2Q, Q2B)
    pt = If(Eq(a.config.activation_type, 0), a.slot, a.time)
    ref = a.ref if kind != "exact_output" else False
    return A(self=a.pool, config=a.config, amount=a.amount, mode=A(**fee_mode(a.config.collect_fee_mode, d, ref)), dir=d, point=pt, first=a.first)


def when(a, kind):
    return And(a.pool.quote_reserve < a.config.migration_quote_threshold, a.amount > 0, a.config.activation_type <= 1, a.config.collect_fee_mode <= 1,
               possible(kind, asked(a, kind)))


for _f, _k in KINDS.items():
    CON[_f] = FnContract(_f, "pool config sell time slot amount" + (" ref" if _k != "exact_output" else "") + " first", exact=True,
                         result=lambda a, k=_k: h_swap.opaque(k, asked(a, k)), when=lambda a, k=_k: when(a, k))
# what the instruction changes in the pool before it computes (the volatility reference) is nothing the computation reads
assert not set(h_swap.VT) & set(refs_after(*[type("Any", (), {"__getattr__": lambda s, n: z3.Int(n)})()] * 2, z3.Int("p"), z3.Int("n")))
