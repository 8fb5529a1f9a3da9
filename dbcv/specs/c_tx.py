"""What the swap instruction checks of the transaction it is part of.

The transaction is read through solana's instructions sysvar: `tx[i]` is its i-th instruction, `tx.current` the index of the running one;
`sibling[i]` are the instructions already processed at the same depth.  Conditions on every earlier instruction are proved of an arbitrary
one (constants I, J), from the facts the loops keep of every iteration."""
import hashlib

import z3

from .. import anchor, core, loops
from ..core import Unit
from ..engine import KNOWN_IDS, State, Sym, Unsupported
from ..loops import instances
from ..mir import MirUnsupported
from ..sym import And, Eq, Implies, Ne, Not, Or

SINGLE, FIRST = "validate_single_swap_instruction", "validate_contain_initialize_pool_ix_and_no_cpi"
I, J = z3.Ints("I J")
CURRENT = z3.Int("tx.current")
POOL_OF_SWAP, POOL_OF_INIT = 2, 5


def disc(name):
    return list(hashlib.sha256(("global:" + name).encode()).digest()[:8])


class Ix:
    """an instruction of the transaction"""

    def __init__(self, E, st, name, i):
        self.E, self.st = E, st
        v = Sym(name, "Instruction", (i,))
        self.program = E.project(st, v, ("f", 0, "Pubkey"))
        self.accounts = E.project(st, v, ("f", 1, "Vec<AccountMeta>"))
        self.data = E.project(st, v, ("f", 2, "Vec<u8>"))
        self.n = E.vec_len(self.accounts)

    def account(self, j):
        return self.E.project(self.st, self.E.project(self.st, self.accounts, ("i", j)), ("f", 0, "Pubkey"))

    def calls(self, *names):
        return Or(*[And(*[Eq(self.E.project(self.st, self.data, ("i", k)), b) for k, b in enumerate(disc(n))]) for n in names])


def single(E, st, pool, accts):
    """-> [(label, condition, instances to assume)]"""
    own = E.prog.own_id()
    cur, tx, sib = Ix(E, st, "tx", CURRENT), Ix(E, st, "tx", I), Ix(E, st, "sibling", I)
    swaps = lambda x: And(Eq(x.program, own), x.calls("swap", "swap2"), Eq(x.account(POOL_OF_SWAP), pool))
    before = And(I >= 0, I < CURRENT)
    other = Ne(cur.program, own)
    return [("no instruction before it swaps in this pool", Implies(before, Not(swaps(tx)))),
            ("no instruction before it of another program mentions the pool",
             Implies(And(before, J >= 0, J < tx.n, Ne(tx.program, own)), Ne(tx.account(J), pool))),
            ("called by another program, it is called directly", Implies(other, E.leaf("stack_height", "usize") <= 2)),
            ("called by another program, no sibling swaps in this pool",
             Implies(And(other, I >= 0, I < E.leaf("sibling.count", "u64")), Not(swaps(sib))))]


def first(E, st, pool, accts):
    own = E.prog.own_id()
    cur = Ix(E, st, "tx", CURRENT)

    def creates(i):
        x = Ix(E, st, "tx", i)
        return And(i >= 0, i < CURRENT, Eq(x.program, own), x.calls("initialize_virtual_pool_with_spl_token", "initialize_virtual_pool_with_token2022"),
                   x.n > POOL_OF_INIT, Eq(x.account(POOL_OF_INIT), pool))
    some = set()
    for c in st.pc:
        indices(c, some)
    return [("the running instruction is the program's own, not a call from another program", Eq(cur.program, own)),
            ("an instruction before it created this pool", Or(*[creates(i) for i in sorted(some, key=str)]))]


def indices(t, out, seen=None):
    """index terms of transaction instructions in a condition"""
    seen = set() if seen is None else seen
    if not z3.is_expr(t) or t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.num_args() and t.decl().name().startswith("tx"):
        out.add(t.arg(0))
    for c in t.children():
        indices(c, out, seen)


def unit(key, args, goals, referral=None):
    args = args.split()

    def run(ctx, res):
        from ..registry import CONTRACTS
        fn = ctx.prog.find(key)
        if fn is None:
            res.unsupported = "function %s not found in the compiled crate" % key
            return
        fn.parse()
        E = core.make_engine(ctx, CONTRACTS, skip=(key,))
        P = core.Prover(res, 20, 240)
        res.functions.append(key)
        import time
        E.deadline = time.time() + 300 * core.TIME_SCALE
        try:
            if len(fn.args) != len(args):
                raise Unsupported("signature of %s changed" % key)
            st = State()
            vals = core.arg_values(E, fn, args, st)
            vals[args.index("accts")] = anchor.accounts_cell(E, st, 0)
            for v in vals:
                if isinstance(v, Sym):
                    try:
                        E.deref(st, v)
                    except Unsupported:
                        pass
            from ..models import deref_all
            pool = deref_all(E, st, vals[args.index("pool")])
            E.loop_handler = loops.Loops(P)
            E.err_paths = False
            exits = E.run(fn, vals, st)
            nok = 0
            for i, (s, kind, _) in enumerate(core.ok_exits(E, exits, fn.ret)):
                if kind != "ok":
                    continue
                pc = s.pc + instances(s.ghost.get("loops", ()), [[I], [J]])
                if not P.cover("cover", s.pc):
                    continue
                nok += 1
                gs = goals(E, s, pool, None)
                if referral:
                    ref = deref_all(E, s, vals[args.index(referral)])
                    gs.append(("no referral account is given", Eq(E.discriminant(s, ref), 0)))
                gs.append(("the transaction is read from the instructions sysvar",
                           Eq(z3.Int("key(acct0)"), KNOWN_IDS["instructions::ID"])))
                for lab, c in gs:
                    P.prove("%s: %s [path %d]" % (key, lab, i), pc, c)
            for name, pc, cond in E.side:
                P.prove(name, pc, cond)
            res.paths += len(exits)
            res.covers += nok
            if nok == 0:
                res.unsupported = "no success path of %s is reachable" % key
        except (Unsupported, MirUnsupported) as e:
            res.unsupported = "%s: %s" % (key, e)
        finally:
            core.absorb(res, E)
    return Unit(key, run)


UNITS = [unit(SINGLE, "pool accts", single), unit(FIRST, "pool ref accts", first, "ref")]
