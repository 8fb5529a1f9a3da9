"""Integer square root: the digit-by-digit loop, by cases on the highest bit of the radicand and a loop invariant."""
import time

from .. import core
from ..core import Prover, Unit
from ..engine import Agg, Enum, Ref, State, Sym, Unsupported
from ..sym import And, Eq, conc
from .c_fee import CON, SQRT


class SqrtCut:
    """invariant at the loop head with bit = 4^j:  result = T * 4^(j+1),  n = radicand - T^2 * 4^(j+1),
    T^2 * 4^(j+1) <= radicand < (T + 1)^2 * 4^(j+1)   (at bit = 0, j = -1 and result is the root)"""

    def __init__(self, rad, prover, res, seen):
        self.rad, self.P, self.seen = rad, prover, seen
        self.where = None

    def visit(self, E, st, fr, exits):
        here = (fr.fn.name, fr.block, len(st.frames))
        if self.where is None:
            self.where = here
            u = {l: st.heap[c] for l, c in fr.locals.items() if c in st.heap and fr.fn.locals[l] == "U256" and l in self.modified(fr)}
            first = [l for l, v in u.items() if conc(v) and v > 0]
            zero = [l for l, v in u.items() if conc(v) and v == 0]
            rads = [l for l, v in u.items() if not conc(v) and v.eq(self.rad)]
            if len(first) != 1 or len(zero) != 1 or len(rads) != 1:
                raise Unsupported("loop variables of the square root not recognised")
            self.bit, self.result, self.n = first[0], zero[0], rads[0]
            self.base = list(st.pc)
            self.keep = {fr.locals[l] for l in u}
        elif here != self.where:
            return None
        get = lambda l: st.heap[fr.locals[l]]
        bit = get(self.bit)
        if not conc(bit):
            raise Unsupported("square root bit is not concrete")
        j = -1 if bit == 0 else (bit.bit_length() - 1) // 2
        if bit and bit != 4 ** j:
            raise Unsupported("square root bit %d is not a power of four" % bit)
        w = 4 ** (j + 1)
        T = 0 if conc(get(self.result)) and get(self.result) == 0 else st.ghost.get("Tnext")
        if st.ghost.get("T") is not None:
            T = None
            for cand in (2 * st.ghost["T"] + 1, 2 * st.ghost["T"]):
                q = Eq(get(self.result), cand * w)
                if core.smt.linear_unsat(st.pc + [core.Not(q)], 1000):
                    T = cand
                    break
            if T is None:
                self.P.prove("square root: next partial root at bit %d" % j, st.pc, False)
                return []
        lab = "square root at bit 4^%d" % j
        T2 = T * T
        self.P.prove(lab + ": remainder", st.pc, Eq(get(self.n), self.rad - T2 * w))
        self.P.prove(lab + ": result", st.pc, Eq(get(self.result), T * w))
        self.P.prove(lab + ": not too large", st.pc, T2 * w <= self.rad)
        self.P.prove(lab + ": not too small", st.pc, self.rad < (T2 + 2 * T + 1) * w)
        if j in self.seen:
            return []
        self.seen.add(j)
        n = st.copy()
        f = n.frames[-1]
        n.pc = list(self.base0)
        X = E.fresh("T%d" % j, "u256root")if False else E.fresh("T%d" % j, "U256")
        n.assume(And(X * X * w <= self.rad, self.rad < (X * X + 2 * X + 1) * w))
        n.heap[f.locals[self.result]] = X * w
        n.heap[f.locals[self.n]] = self.rad - X * X * w
        n.ghost.update(T=X, at_head=1)
        return [n]

    def modified(self, fr):
        return core.LoopCut.modified(self, fr.fn, fr.fn.loops()[fr.block])


def unit():
    key = "sqrt_u256"

    def run(ctx, res):
        fn = ctx.prog.find(key)
        if fn is None:
            raise Unsupported("function %s not found in the compiled crate" % key)
        fn.parse()
        if len(fn.args) != 1 or fn.locals[fn.args[0]] != "U256":
            raise Unsupported("signature of %s changed" % key)
        P = Prover(res, 20)
        res.functions.append(key)
        seen = set()
        rad = None
        for m in range(255, -2, -1):
            E = core.make_engine(ctx, {})
            E.deadline = time.time() + 60
            st = State()
            if m < 0:
                vals = [0]
            else:
                if rad is None:
                    rad = core.arg_values(E, fn, ["radicand"], st)[0]
                vals = [rad]
                st.assume(And(rad >= 1 << m, rad < 1 << (m + 1)))
                E.top_bit = m
                cut = SqrtCut(rad, P, res, seen)
                cut.base0 = []
                E.loop_handler = cut
            exits = E.run(fn, vals, st)
            for i, (s, kind, payload) in enumerate(core.ok_exits(E, exits, fn.ret)):
                if kind != "ok":
                    continue
                res.covers += 1 if P.cover("cover", s.pc) else 0
                if m < 0:
                    P.prove("square root of zero", s.pc, Eq(payload, 0))
                else:
                    r = payload
                    P.prove("square root: r^2 <= n [%d]" % m, s.pc, r * r <= rad)
                    P.prove("square root: n < (r+1)^2 [%d]" % m, s.pc, rad < r * r + 2 * r + 1)
            for name, pc, cond in E.side:
                P.prove(name, pc, cond)
            core.absorb(res, E)
            res.paths += len(exits)
        if not res.covers:
            res.unsupported = "no success path"
    return Unit(key, run)
