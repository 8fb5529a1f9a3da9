"""Loops over slices, vectors and ranges of unbounded length.

A loop whose iterations do not depend on each other (a search, a validation of each element) is summarised: at its head the
counters take the values they have after an arbitrary number t of iterations, one arbitrary iteration is executed, and it is checked
that it changes nothing but the counters (each by one).  The conditions under which an iteration continues then hold of
every earlier iteration: they are kept as universally quantified facts of every path that leaves the loop, and instantiated where the
specification asks for an element.

A loop that carries values (a sum, a walk) is proved against a tail-recursive specification (`Tail`): with S the values
carried, result = REST(k, S) holds at every arrival at the head, where REST(k, S) is either the result or REST(k+1, step(S))."""
import re

import z3

from . import core, smt, sym
from .engine import Agg, Enum, Ref, Sym, Unsupported
from .sym import And, Eq, If, Implies, Not, Or, conc, is_z3

ITER = {"Range", "SliceIter", "OwnIter", "Windows"}


def leaves(v, path=()):
    """integer leaves of a local's value: (path, term)"""
    if isinstance(v, bool):
        return []
    if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
        return [(path, v)]
    if isinstance(v, Agg):
        return [x for i, f in enumerate(v.fields) for x in leaves(f, path + (i,))]
    return []


def get(v, path):
    for i in path:
        v = v.fields[i]
    return v


def put(v, path, x):
    if not path:
        return x
    f = list(v.fields)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return Agg(v.kind, v.name, f)


def iterators(v):
    if isinstance(v, Agg):
        out = [v] if v.name in ITER else []
        return out + [x for f in v.fields for x in iterators(f)]
    return []


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.kind == b.kind and a.name == b.name and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Agg) or isinstance(b, Agg):
        return False
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if is_z3(a) and is_z3(b):
        return a.eq(b) or (a.sort() == b.sort() and z3.is_true(z3.simplify(a == b)))
    if is_z3(a) or is_z3(b):
        return conc(a) | conc(b) and z3.is_true(z3.simplify(sym.as_int(a) == sym.as_int(b))) if not (isinstance(a, bool) or isinstance(b, bool)) \
            and (conc(a) or conc(b)) and z3.is_int(a if is_z3(a) else b) else False
    return type(a) is type(b) and repr(a) == repr(b)


def consts(t):
    return core.const_names(t) if is_z3(t) else set()


class Rec:
    """one summarised loop"""

    def __init__(self, where, t, init, first, nbase):
        self.where, self.t, self.init, self.first, self.nbase = where, t, init, first, nbase
        self.paths = []         # (conditions, nested loops) of the iterations that continue

    def at(self, i, points):
        """what holds of the iteration that has counter value i (it was followed by another one)"""
        sub = [(self.t, sym.as_int(i) - self.init)]
        out = []
        for conds, nested in self.paths:
            cs = list(conds) + instances(nested, points)
            ren = list(sub)
            names = set().union(*[consts(c) for c in cs]) if cs else set()
            for n in names:
                m = re.search(r"!(\d+)(\D.*)?$", n)
                if m and int(m.group(1)) > self.first and n != str(self.t):
                    for srt in (z3.IntSort(), z3.BoolSort()):
                        new = z3.Const("%s@%s" % (n, str(i)), srt)
                        ren.append((z3.Const(n, srt), new))
            out.append(And(*[z3.substitute(c, *ren) if is_z3(c) else c for c in cs]))
        return Or(*out)


def instances(loops, points):
    """the universally quantified facts of the loops passed, at the given counter values: points[d] for loops at nesting depth d"""
    if not points:
        return []
    return [Implies(And(sym.as_int(i) >= r.init, sym.as_int(i) < r.init + t), r.at(i, points[1:])) for r, t in loops for i in points[0]]


class Tail:
    """specification of a loop that carries values: roles {name: type}; start: their values at position 0; rest(k, S) -> {field: term}; unfold(k, S) -> conditions
    relating rest(k, S) to rest(k+1, ...) or to the end; result() -> {field: term}; inv(k, S) -> conditions"""

    def __init__(self, roles, start, rest, unfold, result, inv=None):
        self.roles, self.start, self.rest, self.unfold, self.result, self.inv = roles, start, rest, unfold, result, inv or (lambda k, S: [])

    def carried(self, k, S):
        want, have = self.result(), self.rest(k, S)
        return And(*[Eq(have[f], want[f]) for f in want])


def kin(t, want):
    return t == want or {t, want} <= {"U256", "Uint<256, 4>"}


class Trial:
    def __init__(self, outer, uid, block):
        self.outer, self.uid, self.block, self.back = outer, uid, block, []
        self.started = False

    def visit(self, E, st, fr, exits):
        if (fr.uid, fr.block) == (self.uid, self.block):
            self.back.append(st)
            return []
        return self.outer.visit(E, st, fr, exits)


class Unrolled:
    """loops are executed iteration by iteration (they end by themselves, or by a panic at the end of an array)"""

    def visit(self, E, st, fr, exits):
        return None


class Loops:
    def __init__(self, prover, tail=None):
        self.P, self.tail = prover, tail
        self.quiet = 0
        self.count = 0

    def prove(self, what, pc, goal):
        if not self.quiet:
            self.P.prove(what, pc, goal)

    # ---- arrival at a loop head
    def visit(self, E, st, fr, exits):
        key = "loop:%d:%d" % (fr.uid, fr.block)
        if key in st.ghost:
            return self.again(E, st, fr, st.ghost[key])
        return self.first(E, st, fr, key)

    def live(self, st, fr):
        mod = core.LoopCut.modified(self, fr.fn, fr.fn.loops()[fr.block])
        return {l: st.heap[fr.locals[l]] for l in sorted(mod) if fr.locals.get(l) in st.heap}

    def first(self, E, st, fr, key):
        vals = self.live(st, fr)
        its = [x for v in vals.values() for x in iterators(v)]
        if its:
            if all(conc(t) for it in its for _, t in leaves(it)):
                return None
        # what does one arbitrary iteration do to each integer?
        ty = {l: E.tsub(fr, fr.fn.locals[l]) for l in vals}
        n = st.copy()
        h = {}
        for l, v in vals.items():
            for p, x in leaves(v):
                t = ty[l] if not p and ty[l] in sym.INT else "usize"
                h[l, p] = y = E.fresh("any", t)
                v = put(v, p, y)
            n.heap[fr.locals[l]] = v
        n.ghost["at_head"] = 1
        tr = Trial(self, fr.uid, fr.block)
        saved, cut = E.loop_handler, E.trial
        E.loop_handler, E.trial = tr, (fr.uid, fr.fn.loops()[fr.block])
        self.quiet += 1
        try:
            E.run_state(n, [])
        finally:
            E.loop_handler, E.trial = saved, cut
            self.quiet -= 1
        if not tr.back:
            return None
        kind = {}
        for lp, y in h.items():
            ks = set()
            for s in tr.back:
                f = s.frames[-1]
                try:
                    z = get(s.heap[f.locals[lp[0]]], lp[1])
                    d = z3.simplify(sym.as_int(z) - y)
                    ks.add({0: "same", 1: "up", -1: "down"}.get(d.as_long(), "other") if z3.is_int_value(d) else "other")
                except (KeyError, AttributeError, IndexError):
                    ks.add("other")
            kind[lp] = ks.pop() if len(ks) == 1 else "other"
        ups = [lp for lp in h if kind[lp] == "up"]
        if not ups:
            return None
        if not its:
            # a counter compared with a number only: the loop can be unrolled
            names = {str(h[lp]) for lp in ups}
            for s in tr.back:
                for c in s.pc[len(st.pc):]:
                    if consts(c) and consts(c) <= names and conc(get(vals[ups[0][0]], ups[0][1])) and \
                            any(str(h[lp]) in consts(c) and smt.quick_unsat([c, h[lp] >= 1000], 2000) for lp in ups):
                        return None
        # the counter: an iterator's own position if there is one
        ups.sort(key=lambda lp: (not iterators(vals[lp[0]]), lp))
        c0 = get(vals[ups[0][0]], ups[0][1])
        roles = {}
        if self.tail and not self.quiet:
            for r, rt in self.tail.roles.items():
                c = [lp for lp in h if kind[lp] == "other" and not lp[1] and kin(ty[lp[0]], rt) and lp not in roles.values()]
                if len(c) != 1:
                    raise Unsupported("loop variable for %s not identified" % r)
                roles[r] = c[0]
        shift = self.shift(ups[0], roles, h, tr.back, [Eq(y, get(vals[lp[0]], lp[1])) for lp, y in h.items() if kind[lp] == "same"]) if self.tail and not self.quiet else 0
        t = E.fresh("iterations", "u64")
        n = st.copy()
        rec = Rec("%s bb%d" % (fr.fn.name, fr.block), t, sym.as_int(c0), E.nfresh, len(n.pc))
        S0 = {r: vals[lp[0]] for r, lp in roles.items()}
        S = {}
        f = n.frames[-1]
        for l, v in vals.items():
            drop = False
            new = v
            for p, x in leaves(v):
                k = kind[l, p]
                if k == "up":
                    new = put(new, p, x + t)
                elif k == "down":
                    new = put(new, p, x - t)
                elif k == "other":
                    r = [r for r in roles if roles[r] == (l, p)]
                    if r:
                        S[r[0]] = new = E.fresh("S." + r[0], ty[l])
                    else:
                        drop = True
            if drop or any(not self.kept(s, fr, l, v) for s in tr.back):
                del f.locals[l]
            else:
                n.heap[f.locals[l]] = new
        tailed = bool(self.tail and not self.quiet)
        if tailed:
            T = self.tail
            k0, k = rec.init + shift, rec.init + shift + t
            self.prove("loop starts as specified", st.pc + T.unfold(0, T.start), T.carried(k0, S0))
            for i, cnd in enumerate(T.inv(k0, S0)):
                self.prove("loop invariant %d at the start" % (i + 1), st.pc, cnd)
            n.assume(T.carried(k, S))
            for cnd in T.inv(k, S):
                n.assume(cnd)
            for cnd in T.unfold(k, S):
                n.assume(cnd)
        rec.nbase = len(n.pc)
        info = dict(rec=rec, vals=dict((l, n.heap[f.locals[l]]) for l in vals if l in f.locals), kind=kind, roles=roles, S=S, tailed=tailed, shift=shift, snap=dict(n.heap),
                    cells={fr.locals[l] for l in vals}, nlog=len(n.log), nl=len(n.ghost.get("loops", ())) + 1)
        n.ghost[key] = info
        n.ghost["loops"] = n.ghost.get("loops", ()) + ((rec, t),)
        n.ghost["at_head"] = 1
        self.count += 1
        return [n]

    def shift(self, up, roles, h, back, same_):
        """by how much the counter of the code is off the position of the specification"""
        T = self.tail
        S = {r: h[lp] for r, lp in roles.items()}
        for d in (0, 1, -1):
            k = h[up] + d
            good = True
            for s in back:
                f = s.frames[-1]
                try:
                    S1 = {r: get(s.heap[f.locals[lp[0]]], lp[1]) for r, lp in roles.items()}
                except (KeyError, AttributeError, IndexError):
                    return 0
                a, b = T.rest(k, S), T.rest(k + 1, S1)
                if not smt.quick_unsat(list(s.pc) + same_ + list(T.unfold(k, S)) + list(T.inv(k, S)) + [Not(And(*[Eq(a[x], b[x]) for x in a]))], 4000):
                    good = False
                    break
            if good:
                return d
        return 0

    def kept(self, s, fr, l, v):
        """the value of a local apart from its integers is the same again"""
        f = s.frames[-1]
        c = f.locals.get(l)
        if c is None or c not in s.heap:
            return False
        w = s.heap[c]
        try:
            for p, x in leaves(v):
                w = put(w, p, x)
        except (AttributeError, IndexError):
            return False
        return same(v, w)

    def again(self, E, st, fr, info):
        rec = info["rec"]
        f = st.frames[-1]
        S1 = {}
        for l, v in info["vals"].items():
            w = st.heap.get(f.locals.get(l))
            for p, x in leaves(v):
                k = info["kind"][l, p]
                r = [r for r in info["roles"] if info["roles"][r] == (l, p)]
                try:
                    z = get(w, p)
                except (AttributeError, IndexError):
                    raise Unsupported("loop variable of %s lost" % rec.where)
                if r:
                    S1[r[0]] = z
                    continue
                d = {"same": 0, "up": 1, "down": -1}[k]
                if not same(sym.as_int(z), sym.as_int(x) + d):
                    raise Unsupported("loop counter of %s" % rec.where)
                w = put(w, p, x)
            if not (l in {lp[0] for lp in info["roles"].values()} or same(v, w)):
                raise Unsupported("loop variable of %s" % rec.where)
        for c, v in info["snap"].items():
            if c not in info["cells"] and st.heap.get(c) is not v and not same(st.heap.get(c), v):
                raise Unsupported("loop in %s writes %s" % (rec.where, c))
        if len(st.log) != info["nlog"]:
            raise Unsupported("loop in %s has effects" % rec.where)
        if info["tailed"]:
            T = self.tail
            k1 = rec.init + info["shift"] + rec.t + 1
            self.prove("loop iteration as specified [path %d]" % len(rec.paths), st.pc, T.carried(k1, S1))
            for i, cnd in enumerate(T.inv(k1, S1)):
                self.prove("loop invariant %d [path %d]" % (i + 1, len(rec.paths)), st.pc, cnd)
        rec.paths.append((st.pc[rec.nbase:], st.ghost.get("loops", ())[info["nl"]:]))
        return []
