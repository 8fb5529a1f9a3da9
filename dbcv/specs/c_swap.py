"""Swap walk over the configured curve: specification machines, their verification against the loops of the code."""
import z3

from .. import core, sym
from ..core import FnContract, LoopCut, Machine, Prover, SpecFn, Unit, lemma_unit
from ..engine import State, Unsupported
from ..sym import And, Eq, If, Implies, Max, Min, Ne, Not, Or, U64MAX, as_int, cdiv, conc, fdiv, is_z3
from .c_math import (BASE_DN, BASE_UP, CON as MATH, NEXT_BIN, NEXT_BOUT, NEXT_QIN, NEXT_QOUT, QUOTE_DN, QUOTE_UP)

N = 20      # points of the account's curve array


class S:
    """walk state: price, amount left, total"""


def st(price, left, total):
    return {"price": price, "left": left, "total": total}


# ---- the walk, written once for ints and terms.  A kind is (direction, 'in'|'out').

def b2q_step(cfg, s, i, kind):
    """selling base: segment from point i up to the current price has the liquidity of point i+1"""
    c, L, p, left = cfg.curve[i].sqrt_price, cfg.curve[i + 1].liquidity, s["price"], s["left"]
    active = And(Ne(c, 0), Ne(cfg.curve[i].liquidity, 0), c < p)
    if conc(active) and not active:
        return s, False
    if kind == "in":
        mx, np = BASE_UP(c, p, L), NEXT_BIN(p, L, left)
        part, full = QUOTE_DN(np, p, L), QUOTE_DN(c, p, L)
    else:
        mx, np = QUOTE_DN(c, p, L), NEXT_QOUT(p, L, left)
        part, full = BASE_UP(np, p, L), BASE_UP(c, p, L)
    partial = left < mx
    f = lambda a, b, o: If(active, If(partial, a, b), o)
    return st(f(np, c, p), f(0, left - mx, left), f(s["total"] + part, s["total"] + full, s["total"])), And(active, partial)


def b2q_finish(cfg, s, kind):
    """below the first point: down to the start price with the liquidity of point 0.  -> (state, condition for success)"""
    L, p, left, start = cfg.curve[0].liquidity, s["price"], s["left"], cfg.sqrt_start_price
    z = Eq(left, 0)
    if kind == "in":
        np = NEXT_BIN(p, L, left)
        clamp = np < start
        e = If(clamp, start, np)
        l2 = If(clamp, left - BASE_UP(start, p, L), 0)
        return st(If(z, p, e), If(z, left, l2), If(z, s["total"], s["total"] + QUOTE_DN(e, p, L))), True
    np = NEXT_QOUT(p, L, left)
    return st(If(z, p, np), 0, If(z, s["total"], s["total"] + BASE_UP(np, p, L))), Or(z, And(left <= QUOTE_DN(start, p, L), np >= start))


def q2b_step(cfg, s, i, kind, stop=None):
    c, L, p, left = cfg.curve[i].sqrt_price, cfg.curve[i].liquidity, s["price"], s["left"]
    end = Or(Eq(c, 0), Eq(L, 0))
    if conc(end) and end:
        return s, True
    r = Min(stop, c) if kind == "in" else c
    active = r > p
    if kind == "in":
        mx, np = QUOTE_UP(p, r, L), NEXT_QIN(p, L, left)
        part, full = BASE_DN(p, np, L), BASE_DN(p, r, L)
        brk = Eq(r, stop)
    else:
        mx, np = BASE_DN(p, r, L), NEXT_BOUT(p, L, left)
        part, full = QUOTE_UP(p, np, L), QUOTE_UP(p, r, L)
        brk = False
    partial = left < mx
    g = And(Not(end), active)
    f = lambda a, b, o: If(g, If(partial, a, b), o)
    return (st(f(np, r, p), f(0, left - mx, left), f(s["total"] + part, s["total"] + full, s["total"])),
            Or(end, And(active, Or(partial, brk))))


def q2b_finish(cfg, s, kind):
    return s, (True if kind == "in" else Eq(s["left"], 0))


class WalkKind:
    def __init__(self, fn, direction, kind):
        self.fn, self.dir, self.kind = fn, direction, kind
        self.args = "self config amount" + (" stop" if (direction, kind) == ("q2b", "in") else "")
        self.n = N - 1 if direction == "b2q" else N

    def step(self, cfg, s, k, stop=None):
        return b2q_step(cfg, s, N - 2 - k, self.kind) if self.dir == "b2q" else q2b_step(cfg, s, k, self.kind, stop)

    def finish(self, cfg, s):
        return (b2q_finish if self.dir == "b2q" else q2b_finish)(cfg, s, self.kind)

    def run(self, cfg, price, amount, stop=None):
        """the specified walk on concrete values: (state, ok)"""
        s = st(price, amount, 0)
        for k in range(self.n):
            s, done = self.step(cfg, s, k, stop)
            if done:
                break
        return self.finish(cfg, s)

    def result_fields(self, s):
        if self.kind == "in":
            return {"amount_left": s["left"], "output_amount": s["total"], "next_sqrt_price": s["price"]}
        return {"amount_in": s["total"], "next_sqrt_price": s["price"]}


WALKS = {
    "b2q_in": WalkKind("VirtualPool::calculate_base_to_quote_from_amount_in", "b2q", "in"),
    "b2q_out": WalkKind("VirtualPool::calculate_base_to_quote_from_amount_out", "b2q", "out"),
    "q2b_in": WalkKind("VirtualPool::calculate_quote_to_base_from_amount_in", "q2b", "in"),
    "q2b_out": WalkKind("VirtualPool::calculate_quote_to_base_from_amount_out", "q2b", "out"),
}


def walk_unit(name):
    w = WALKS[name]

    def run(ctx, res):
        fn = ctx.prog.find(w.fn)
        if fn is None:
            raise Unsupported("function %s not found in the compiled crate" % w.fn)
        fn.parse()
        E = core.make_engine(ctx, MATH)
        E.deadline = __import__("time").time() + 240
        P = Prover(res, 20)
        res.functions.append(w.fn)
        st0 = State()
        names = w.args.split()
        if len(fn.args) != len(names):
            raise Unsupported("signature of %s changed" % w.fn)
        vals = core.arg_values(E, fn, names, st0)
        a = core.A(**{n: core.wrap_view(E, st0, v, fn.locals[k]) for n, v, k in zip(names, vals, fn.args)})
        cfg, stop = a.config, getattr(a, "stop", None)
        E.loop_handler = LoopCut(Machine({"price": "u128", "left": "u64", "total": "u64"},
                                         lambda: st(a.self.sqrt_price, a.amount, 0),
                                         lambda s, k: w.step(cfg, s, k, stop), w.n), P)
        exits = E.run(fn, vals, st0)
        sty = core.success_type(fn.ret)
        nok = 0
        for i, (s, kind, payload) in enumerate(core.ok_exits(E, exits, fn.ret)):
            if kind != "ok":
                continue
            if P.cover("cover", s.pc):
                nok += 1
            k = s.ghost.get("k")
            if k is None:
                raise Unsupported("no loop reached")
            S0 = s.ghost["S"]
            if k < w.n:
                S1, done = w.step(cfg, S0, k, stop)
                # leaving early is also right when nothing is left to trade
                P.prove("%s: leaves the loop only when the walk is over [head %d, path %d]" % (name, k, i), s.pc, Or(done, Eq(S0["left"], 0)))
                f1, ok1 = w.finish(cfg, S1)
            else:
                f1, ok1 = w.finish(cfg, S0)
            P.prove("%s: success condition [head %d, path %d]" % (name, k, i), s.pc, ok1)
            for lab, cnd in core.match_result(E, s, payload, sty, w.result_fields(f1)):
                P.prove("%s: %s [head %d, path %d]" % (name, lab, k, i), s.pc, cnd)
        core.absorb(res, E)
        res.paths += len(exits)
        res.covers += nok
        if not nok:
            res.unsupported = "no success path"
    return Unit(w.fn, run)


# ---------------------------------------------------------------- the walks as contracts

def root_of(x):
    """identity of an unmodified struct behind a view (None when any part of it has been written)"""
    v = x.__dict__.get("_v")
    from ..engine import Sym
    if isinstance(v, Sym) and not v.over and not v.idx:
        return v.name
    return None


class WalkContract(FnContract):
    """result fields are functions of (pool price, amount[, stop price]) fixed by the configuration the call reads;
    on concrete values they are computed by the specification machine"""

    def __init__(self, name):
        self.w = w = WALKS[name]
        self.name = name
        super().__init__(w.fn, w.args, result=self.res, when=self.ok, gen=getattr(self, "g", None))

    def terms(self, a):
        root = root_of(a.config)
        if root is None:
            raise Unsupported("%s on a modified configuration" % self.w.fn)
        xs = [as_int(a.self.sqrt_price), as_int(a.amount)] + ([as_int(a.stop)] if hasattr(a, "stop") else [])
        out = {}
        for f in self.w.result_fields(st(0, 0, 0)):
            fn = z3.Function("WALK_%s_%s@%s" % (self.name, f, root), *([z3.IntSort()] * (len(xs) + 1)))
            out[f] = fn(*xs)
        t = out.get("amount_left")
        if t is not None and not sym.FACTS.by_id.get(t.get_id()):
            sym.FACTS.add(t, And(t >= 0, t <= xs[1]))
        return out

    def concrete(self, a):
        return isinstance(a.amount, int) and isinstance(a.self.sqrt_price, int) and isinstance(a.config.sqrt_start_price, int)

    def res(self, a):
        if self.concrete(a):
            s, good = self.w.run(a.config, a.self.sqrt_price, a.amount, getattr(a, "stop", None))
            return self.w.result_fields(s)
        return self.terms(a)

    def ok(self, a):
        if self.concrete(a):
            return self.w.run(a.config, a.self.sqrt_price, a.amount, getattr(a, "stop", None))[1]
        return True

    def applies(self, E, st_, args):
        if not super().applies(E, st_, args):
            return False
        a = self.view_args(E, st_.copy(), args, E.cur_fn)
        return root_of(a.config) is not None


WALKCON = {n: WalkContract(n) for n in WALKS}
CON = {c.key: c for c in WALKCON.values()}

# ---------------------------------------------------------------- properties of the walk (lemmas over its machine)


class P:
    """symbolic configuration for one step"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def walk_lemma_goals():
    """each step of the specified walk: moves the price in the direction of the trade and never past the end of its segment (nor the
    stop price), consumes at most what is left, and never gives the trader more than the exact amounts of the curve between the two
    prices (so the pool keeps, in both tokens, at least the exact curve amounts: no sequence of swaps drains it)"""
    V = lambda n: z3.Int("W." + n)
    p, L, c, left, total, r, stop, start, np = (V(x) for x in ("p", "L", "c", "left", "total", "r", "stop", "start", "np"))
    Q128 = 1 << 128
    base = [p > 0, L > 0, left >= 0]
    out = []
    reveal = lambda f, *a: Eq(f(*a), f.defn(*a))
    # --- no overshoot
    out.append(("selling base in: stays in the segment (1)", base + [c > 0, c < p, V("n") == L * (p - c), V("d") == p * c, V("d") > 0,
                                                                    left + 1 <= cdiv(V("n"), V("d"))], left * V("d") < V("n")))
    out.append(("selling base in: stays in the segment (2)", base + [c > 0, c < p, left * (p * c) < L * (p - c)], c * (L + left * p) <= L * p))
    out.append(("selling base in: stays in the segment (3)", base + [c > 0, V("d") == L + left * p, V("d") > 0, c * V("d") <= V("n")],
                cdiv(V("n"), V("d")) >= c))
    out.append(("selling base out: stays in the segment", base + [c < p, left + 1 <= fdiv(L * (p - c), Q128), V("x") == L * (p - c)],
                And(left * Q128 < V("x"))))
    out.append(("selling base out: stays in the segment (2)", base + [c < p, left * Q128 < L * (p - c)], p - cdiv(left * Q128, L) >= c))
    out.append(("buying base in: stays in the segment", base + [r > p, left + 1 <= cdiv(L * (r - p), Q128)], left * Q128 < L * (r - p)))
    out.append(("buying base in: stays in the segment (2)", base + [r > p, left * Q128 < L * (r - p)], p + fdiv(left * Q128, L) <= r))
    out.append(("buying base out: stays in the segment (1)", base + [r > p, V("d") == p * r, V("d") > 0, V("n") == L * (r - p),
                                                                     left + 1 <= fdiv(V("n"), V("d"))], left * V("d") < V("n")))
    out.append(("buying base out: stays in the segment (2)", base + [r > p, left * (p * r) < L * (r - p)], And(r * (L - left * p) > L * p)))
    out.append(("buying base out: stays in the segment (3)", base + [V("d") > 0, V("n") < r * V("d"), r > 0], cdiv(V("n"), V("d")) <= r))
    # --- rounding favours the pool: taken in >= exact, given out <= exact
    n, d = V("n"), V("d")
    out.append(("full segment: taken in at least the exact amount", [n >= 0, d > 0], cdiv(n, d) * d >= n))
    out.append(("full segment: given out at most the exact amount", [n >= 0, d > 0], fdiv(n, d) * d <= n))
    # partial: the amount put in covers the exact amount up to the new price
    out.append(("partial sell of base: input covers the exact amount (1)", [d == L + left * p, d > 0, n == L * p, np == cdiv(n, d)], np * d >= n))
    out.append(("partial sell of base: input covers the exact amount (2)", base + [np * (L + left * p) >= L * p, np > 0, np <= p],
                left * (p * np) >= L * (p - np)))
    out.append(("partial buy with quote: input covers the exact amount", base + [np == p + fdiv(left * Q128, L)], left * Q128 >= L * (np - p)))
    out.append(("partial sell for exact quote: output at most the exact amount", base + [np == p - cdiv(left * Q128, L)],
                left * Q128 <= L * (p - np)))
    out.append(("partial buy of exact base: output at most the exact amount (1)", [d == L - left * p, d > 0, n == L * p, np == cdiv(n, d)],
                np * d >= n))
    out.append(("partial buy of exact base: output at most the exact amount (2)", base + [np * (L - left * p) >= L * p, np >= p],
                left * (p * np) <= L * (np - p)))
    return out


def walk_machine_goals():
    """direction, bounds and consumption of one step of each machine, and of its finish"""
    V = lambda n: z3.Int("M." + n)
    out = []
    price, left, total, c, L, stop, start, L0, amt = (V(x) for x in ("price", "left", "total", "c", "L", "stop", "start", "L0", "amt"))
    for name, w in WALKS.items():
        pt = P(sqrt_price=c, liquidity=L)
        pn = P(sqrt_price=V("c2"), liquidity=V("L2"))
        i = 3

        class Cfg:
            curve = {3: pt, 4: pn, 0: P(sqrt_price=V("c0"), liquidity=L0)}
            sqrt_start_price = start
        S0 = st(price, left, total)
        if w.dir == "b2q":
            S1, _ = b2q_step(Cfg, S0, i, w.kind)
            Lx = V("L2")
        else:
            S1, _ = q2b_step(Cfg, S0, i, w.kind, stop)
            Lx = L
        lo, hi = (c, price) if w.dir == "b2q" else (price, c)
        r = z3.If(stop <= c, stop, c)
        hyp = [price > 0, left >= 0, left <= amt, total >= 0, c >= 0, Lx >= 0]
        # the facts proved above, for the terms of this step
        if name == "b2q_in":
            hyp += [Implies(And(c > 0, c < price, Lx > 0, left < BASE_UP(c, price, Lx)), NEXT_BIN(price, Lx, left) >= c),
                    Implies(Eq(Lx, 0), True)]
            b = Implies(And(c > 0, Lx > 0), And(S1["price"] <= price, Or(S1["price"] >= c, Eq(S1["price"], price))))
        elif name == "b2q_out":
            hyp += [Implies(And(c > 0, c < price, Lx > 0, left < QUOTE_DN(c, price, Lx)), NEXT_QOUT(price, Lx, left) >= c)]
            b = Implies(And(c > 0, Lx > 0), And(S1["price"] <= price, Or(S1["price"] >= c, Eq(S1["price"], price))))
        elif name == "q2b_in":
            hyp += [Implies(And(r > price, Lx > 0, left < QUOTE_UP(price, r, Lx)), NEXT_QIN(price, Lx, left) <= r)]
            b = And(S1["price"] >= price, Implies(price <= stop, S1["price"] <= stop), Or(S1["price"] <= c, Eq(S1["price"], price)))
        else:
            hyp += [Implies(And(c > price, Lx > 0, left < BASE_DN(price, c, Lx)), And(NEXT_BOUT(price, Lx, left) <= c, left * price < Lx))]
            b = And(S1["price"] >= price, Or(S1["price"] <= c, Eq(S1["price"], price)))
        out.append(("%s step: price moves with the trade and stays in the segment" % name, hyp, b))
        out.append(("%s step: consumes at most what is left" % name, hyp, And(S1["left"] >= 0, S1["left"] <= left)))
        if w.dir == "b2q":
            F, good = b2q_finish(Cfg, S0, w.kind)
            fh = hyp + [L0 > 0, start > 0, start <= price, good,
                        Implies(And(price > 0, NEXT_BIN(price, L0, left) < start), BASE_UP(start, price, L0) <= left)]
            out.append(("%s below the first point: never under the start price" % name, fh,
                        And(F["price"] >= start if name == "b2q_in" else True, F["price"] <= price)))
            out.append(("%s below the first point: consumes at most what is left" % name, fh, And(F["left"] >= 0, F["left"] <= left)))
    # used just above: an input that would push the price under the start price is larger than what the segment takes
    p, s0, x, n, d, np = (V(k) for k in ("p", "s0", "x", "n", "d", "np"))
    out.append(("clamped sell: input exceeds the segment (1)", [n >= 0, d > 0, np == cdiv(n, d), np + 1 <= s0], n <= (s0 - 1) * d))
    out.append(("clamped sell: input exceeds the segment (2)", [p > 0, L > 0, x >= 0, s0 > 0, s0 <= p, L * p <= (s0 - 1) * (L + x * p)],
                L * (p - s0) <= x * (p * s0)))
    out.append(("clamped sell: input exceeds the segment (3)", [n >= 0, d > 0, n <= x * d, x >= 0], cdiv(n, d) <= x))
    return out
