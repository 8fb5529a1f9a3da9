"""Contracts, lemmas and the units of proof."""
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import z3

#: multiplies solver time limits (units are retried with more time)
TIME_SCALE = 1.0

from . import engine, smt, sym
from .engine import (Agg, Engine, Enum, Exit, Ite, NONE, PANIC, Ref, State, Sym, UNIT, Unsupported, array_ty, err, ok, pointee, some,
                     ERR_VALUE)
from .mir import MirUnsupported, generic_args, norm_type, split_top
from .sym import And, Eq, FACTS, If, INT, Implies, Not, Or, as_bool, conc, is_z3, lo_hi


# ------------------------------------------------------------------ specification functions

class on_path:
    """within: conditions of specification terms that the path condition settles are settled"""

    def __init__(self, pc):
        self.pc = [p for p in pc if not conc(p)]
        self.cache = {}
        self.syn = {}
        stack = list(self.pc)
        while stack:
            p = stack.pop()
            if z3.is_and(p):
                stack.extend(p.children())
            elif z3.is_not(p):
                self.syn[p.arg(0).get_id()] = False
            else:
                self.syn[p.get_id()] = True

    def decide(self, c):
        i = c.get_id()
        if i in self.syn:
            return self.syn[i]
        if i in self.cache:
            return self.cache[i][0]
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        sym.DECIDE, keep = None, sym.DECIDE
        try:
            v = True if smt.quick_unsat(self.pc + [z3.Not(c)], 60) else False if smt.quick_unsat(self.pc + [c], 60) else None
        finally:
            sym.DECIDE = keep
        self.cache[i] = (v, c)
        return v

    def __enter__(self):
        self.old = sym.DECIDE
        sym.DECIDE = self.decide

    def __exit__(self, *a):
        sym.DECIDE = self.old


class off_path:
    def __enter__(self):
        self.old = sym.DECIDE
        sym.DECIDE = None

    def __exit__(self, *a):
        sym.DECIDE = self.old


class SpecFn:
    """Mathematical function of integers.  On Python ints it computes; on terms it is an uninterpreted function
    whose `facts` (each proved once as a lemma from the definition) are known, and whose definition is revealed on demand."""
    all = {}

    def __init__(self, name, defn, arg_tys, facts=None, bool_=False):
        self.name, self.defn, self.arg_tys, self.facts = name, defn, arg_tys, facts
        sorts = [z3.BoolSort() if t == "bool" else z3.IntSort() for t in arg_tys]
        self.f = z3.Function(name, *sorts, z3.BoolSort() if bool_ else z3.IntSort())
        SpecFn.all[name] = self

    def __call__(self, *a):
        if all(conc(x) for x in a):
            return self.defn(*a)
        t = self.f(*[as_bool(x) if ty == "bool" else sym.as_int(x) for x, ty in zip(a, self.arg_tys)])
        if self.facts is not None and not FACTS.by_id.get(t.get_id()):
            with off_path():            # facts hold on every path
                for f in self.facts(t, *a):
                    if not conc(f):
                        FACTS.add(t, f)
        return t

    def reveal(self, *a):
        t = self(*a)
        return Eq(t, self.defn(*a))


# ------------------------------------------------------------------ views of machine values

class View:
    """Read access to a struct value by field names."""

    def __init__(self, E, st, val, ty):
        self.__dict__.update(_E=E, _st=st, _v=val, _ty=ty)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        E = self._E
        base = generic_args(self._ty)[0]
        idx, fty = E.prog.src.field_index(base, name)
        v = E.project(self._st, self._v, ("f", idx, fty))
        return wrap_view(E, self._st, v, fty)


class OptView:
    """an optional field: is it given, and what is it"""

    def __init__(self, given, x):
        self.given, self.x = given, x


def opt_view(view, name):
    E, st = view._E, view._st
    idx, fty = E.prog.src.field_index(generic_args(view._ty)[0], name)
    v = E.project(st, view._v, ("f", idx, fty))
    it = generic_args(fty)[1][0]
    if isinstance(v, Enum):
        return OptView(v.vname == "Some", wrap_view(E, st, v.fields[0], it) if v.vname == "Some" else None)
    return OptView(Eq(E.discriminant(st, v), 1), wrap_view(E, st, E.project(st, E.project(st, v, ("v", "Some")), ("f", 0, it)), it))


class ArrView:
    def __init__(self, E, st, val, ty, n=None):
        self.E, self.st, self.v, self.ty, self.n = E, st, val, ty, n

    def length(self):
        """number of elements, a number or a term"""
        if isinstance(self.v, Agg):
            return len(self.v.fields)
        if self.n is not None:
            return self.n
        return self.E.vec_len(self.v) if self.ty.startswith("Vec<") else len(self)

    def root(self):
        """identity of an unmodified symbolic array (None otherwise)"""
        v = self.v
        return v.name if isinstance(v, Sym) and not v.over and not v.idx else None

    def __getitem__(self, i):
        at = array_ty(self.ty)
        e = at[0] if at else generic_args(self.ty)[1][0]
        v = self.E.project(self.st, self.v, ("i", i))
        return wrap_view(self.E, self.st, v, e)

    def __len__(self):
        return self.E.const_len(array_ty(self.ty)[1], self.st, None)


def wrap_view(E, st, v, ty):
    if isinstance(v, Sym) and pointee(v.ty):
        v, ty = E.deref(st, v), v.ty
    if isinstance(v, Ref):
        p = pointee(ty) or ty
        x = E.load(st, v.cell, v.path)
        if v.meta is not None and array_ty(p):
            return ArrView(E, st, x, x.ty if isinstance(x, Sym) else p, v.meta)
        return wrap_view(E, st, x, p)
    if isinstance(v, (Enum, Ite)) or (isinstance(v, Sym) and E.prog.enum_def(v.ty) is not None):
        d = E.prog.enum_def(v.ty if not isinstance(v, Ite) else ty)
        if generic_args(ty)[0] in ("Option", "Result"):
            return v
        return E.discriminant(st, v)
    if isinstance(v, (Agg, Sym)):
        t = v.ty if isinstance(v, Sym) else ty
        if t == "?" or (isinstance(v, Agg) and v.kind == "tuple" and t.startswith("(")):
            if isinstance(v, Agg):
                tys = split_top(t[1:-1])
                return tuple(wrap_view(E, st, x, y) for x, y in zip(v.fields, tys))
        if array_ty(t) or t.startswith("Vec<"):
            return ArrView(E, st, v, t)
        return View(E, st, v, t)
    return v


class Just:
    """Some(x) in a result description"""

    def __init__(self, x):
        self.x = x


class Absent:
    """None in a result description"""


class Borsh:
    """serialised bytes of a value of type `ty`, in a result description; x: {field: value}"""

    def __init__(self, ty, x):
        self.ty, self.x = ty, x

    def value(self, E):
        fs = [n for n, _ in E.prog.src.structs[self.ty]]
        if set(fs) != set(self.x):
            raise Unsupported("fields of %s changed" % self.ty)
        return Agg("borsh", self.ty, [self.x[n] for n in fs])


def decided(c):
    """truth of a condition that the path settles"""
    v = If(c, True, False)
    if not conc(v):
        raise Unsupported("a case distinction is not settled by the path")
    return v


def build_value(E, x, ty):
    """Python description -> engine value: dict for a struct, tuple, int, bool, z3 term, Enum variant name."""
    if isinstance(x, dict):
        fs = E.prog.src.structs[generic_args(ty)[0]]
        pad = {n for n, _ in fs if "padding" in n}       # unused bytes
        if set(x) | pad != {n for n, _ in fs}:
            raise Unsupported("fields of %s changed" % ty)
        return Agg("struct", generic_args(ty)[0], [build_value(E, x[n], norm_type(t)) if n in x else E.fresh("padding", norm_type(t)) for n, t in fs])
    if isinstance(x, tuple):
        tys = split_top(ty[1:-1])
        return Agg("tuple", None, [build_value(E, a, b) for a, b in zip(x, tys)])
    if isinstance(x, View):
        return x._v
    if isinstance(x, Just):
        return some(build_value(E, x.x, generic_args(ty)[1][0]))
    if isinstance(x, Absent):
        return NONE
    if isinstance(x, Borsh):
        return x.value(E)
    d = E.prog.enum_def(ty)
    if d is not None and isinstance(x, int) and not isinstance(x, bool):
        for i, (n, k) in enumerate(d):
            if k == x:
                return Enum(generic_args(ty)[0], i, n, ())
    if d is not None and is_z3(x):
        return Sym(E.fresh_name("variant"), ty, (), {("d",): x})
    return x


def leaves(x):
    """flat list of (path, scalar) of a result description"""
    if isinstance(x, dict):
        return [(k + ("." + p if p else ""), v) for k, y in x.items() for p, v in leaves(y)]
    if isinstance(x, (tuple, list)):
        return [(str(i) + ("." + p if p else ""), v) for i, y in enumerate(x) for p, v in leaves(y)]
    return [("", x)]


def match_result(E, st, val, ty, want, path=""):
    """[(label, condition)] for val == want"""
    if isinstance(want, dict):
        out = []
        fs = E.prog.src.structs[generic_args(ty)[0]]
        for i, (n, t) in enumerate(fs):
            if n in want:
                out += match_result(E, st, E.project(st, val, ("f", i, norm_type(t))), norm_type(t), want[n], path + "." + n)
        return out
    if isinstance(want, tuple):
        out = []
        tys = split_top(ty[1:-1])
        for i, (w, t) in enumerate(zip(want, tys)):
            out += match_result(E, st, E.project(st, val, ("f", i, t)), t, w, path + "." + str(i))
        return out
    if want is None:
        return []
    if isinstance(want, Just):
        if isinstance(val, Enum) and val.vname == "Some":
            return match_result(E, st, val.fields[0], generic_args(ty)[1][0], want.x, path)
        return [(path or "result", False)]
    if isinstance(want, Absent):
        return [(path or "result", isinstance(val, Enum) and val.vname == "None")]
    if isinstance(want, Borsh):
        w = want.value(E)
        if not (isinstance(val, Agg) and val.kind == "borsh" and val.name == w.name):
            return [(path or "result", False)]
        return [("%s.%d" % (path, i), Eq(x, y)) for i, (x, y) in enumerate(zip(val.fields, w.fields))]
    if isinstance(want, View):
        return [(path or "result", equal_values(E, st, val, want._v, ty))]
    if isinstance(val, (Enum, Ite)) or (isinstance(val, Sym) and E.prog.enum_def(val.ty) is not None):
        val = E.discriminant(st, val)
    return [(path or "result", Eq(val, want))]


def equal_values(E, st, a, b, ty):
    """leafwise equality of two values of a type made of structs, arrays and scalars"""
    while isinstance(a, Ref):
        a = E.load(st, a.cell, a.path)
    while isinstance(b, Ref):
        b = E.load(st, b.cell, b.path)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and a.idx == b.idx and not a.over and not b.over:
        return True
    base = generic_args(ty)[0]
    fs = E.prog.src.structs.get(base)
    if fs is not None and isinstance(a, (Sym, Agg)) and isinstance(b, (Sym, Agg)):
        out = []
        for i, (n, t) in enumerate(fs):
            t = norm_type(t)
            out.append(equal_values(E, st, E.project(st, a, ("f", i, t)), E.project(st, b, ("f", i, t)), t))
        return And(*out)
    if array_ty(ty):
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == "bytes" and b.kind == "bytes":
            return Eq(a.fields[0], b.fields[0])
        t, n = array_ty(ty)
        n = E.const_len(n, st, None)
        if isinstance(n, int) and n <= 64:
            return And(*[equal_values(E, st, E.project(st, a, ("i", k)), E.project(st, b, ("i", k)), t) for k in range(n)])
    if not isinstance(a, (Sym, Agg, Enum, Ite, Ref)) and not isinstance(b, (Sym, Agg, Enum, Ite, Ref)):
        return Eq(a, b)
    if E.prog.enum_def(ty) is not None and generic_args(ty)[0] not in ("Option", "Result"):
        return Eq(E.discriminant(st, a), E.discriminant(st, b))
    return same_value(E, st, a, b)


def success_type(ty):
    b, g = generic_args(ty)
    return g[0] if b in ("Result", "Option") else ty


def field_steps(E, ty, path):
    """'a.b[2].c' -> projection steps, type"""
    import re
    steps = []
    for part in path.split("."):
        m = re.match(r"(\w+)((?:\[\d+\])*)$", part)
        i, t = E.prog.src.field_index(generic_args(ty)[0], m.group(1))
        steps.append(("f", i, norm_type(t)))
        ty = norm_type(t)
        for x in re.findall(r"\[(\d+)\]", m.group(2)):
            steps.append(("i", int(x)))
            ty = array_ty(ty)[0]
    return steps, ty


def diff(E, s0, v0, s1, v1, ty, path=""):
    """[(field path, old value, new value)] of the leaves that differ syntactically"""
    if v0 is v1:
        return []
    j = lambda n: path + ("." if path and not n.startswith("[") else "") + n
    if isinstance(v0, Sym) and isinstance(v1, Sym) and v0.name == v1.name and v0.idx == v1.idx:
        out = []
        keys = set(v0.over) | set(v1.over)
        if any(k[0] == "v" for k in keys):
            return [(path, v0, v1)]
        fs = E.prog.src.structs.get(generic_args(ty)[0])
        for k in sorted(keys, key=str):
            if k[0] == "f" and fs is not None:
                n, t = fs[k[1]]
                t = norm_type(t)
                out += diff(E, s0, E.project(s0, v0, ("f", k[1], t)), s1, E.project(s1, v1, ("f", k[1], t)), t, j(n))
            elif k[0] == "i" and array_ty(ty) and isinstance(k[1], int):
                x = v1.over.get(k, v0.over.get(k))[0]
                if conc(x):
                    out += diff(E, s0, E.project(s0, v0, ("i", x)), s1, E.project(s1, v1, ("i", x)), array_ty(ty)[0], j("[%d]" % x))
                else:
                    out.append((j("[?]"), v0, v1))
            else:
                out.append((path, v0, v1))
        return out
    b = generic_args(ty)[0]
    if b in E.prog.src.structs and isinstance(v0, (Sym, Agg)) and isinstance(v1, (Sym, Agg)):
        out = []
        for i, (n, t) in enumerate(E.prog.src.structs[b]):
            t = norm_type(t)
            out += diff(E, s0, E.project(s0, v0, ("f", i, t)), s1, E.project(s1, v1, ("f", i, t)), t, j(n))
        return out
    if array_ty(ty) and isinstance(v0, Agg) and isinstance(v1, Agg) and len(v0.fields) == len(v1.fields):
        return [y for i, (p, q) in enumerate(zip(v0.fields, v1.fields)) for y in diff(E, s0, p, s1, q, array_ty(ty)[0], j("[%d]" % i))]
    if not isinstance(v0, (Sym, Agg, Enum, Ite, Ref)) and not isinstance(v1, (Sym, Agg, Enum, Ite, Ref)):
        if is_z3(v0) and is_z3(v1) and v0.eq(v1) or (conc(v0) and conc(v1) and v0 == v1):
            return []
        return [(path, v0, v1)]
    if repr(v0) == repr(v1) and "0x" not in repr(v0):
        return []
    return [(path, v0, v1)]


def frame_goals(E, s0, v0, s1, v1, ty, expected):
    """[(label, condition)]: exactly the expected fields change, to the expected values"""
    out = []
    for path, want in expected.items():
        steps, fty = field_steps(E, ty, path)
        v = v1
        for p in steps:
            v = E.project(s1, v, p)
        if isinstance(want, (dict, Borsh)):
            out += match_result(E, s1, v, fty, want, path)
        else:
            out.append((path, Eq(v, want) if not isinstance(v, (Sym, Agg, Enum, Ite, Ref)) else same_value(E, s1, v, want)))
    for path, a, b in diff(E, s0, v0, s1, v1, ty):
        if any(path == e or path.startswith(e + ".") or path.startswith(e + "[") for e in expected):
            continue
        if "padding" in path.split(".")[-1]:
            continue        # unused bytes
        out.append(("frame: %s unchanged" % path, same_value(E, s1, a, b)))
    return out


def same_value(E, st, a, b):
    if isinstance(a, Agg) and isinstance(b, Agg) and "borsh" in (a.kind, b.kind) and (a.kind, a.name) != (b.kind, b.name):
        return False
    if not isinstance(a, (Sym, Agg, Enum, Ite, Ref)) and not isinstance(b, (Sym, Agg, Enum, Ite, Ref)):
        return Eq(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        return And(*[same_value(E, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and a.idx == b.idx and not a.over and not b.over:
        return True
    return False


# ------------------------------------------------------------------ contracts

class A:
    """argument tuple by name"""

    def __init__(_s, **kw):
        _s.__dict__.update(kw)


class FnContract:
    """Contract of a pure function.

    result(a): the value returned on success (int / bool / tuple / dict of struct fields, None = unspecified)
    ensures(a, r): further conditions on success; `when(a)`: condition that holds whenever the function succeeds
    exact: the function succeeds iff when(a)
    pre(a): precondition (obligation at every call)
    """

    def __init__(self, key, args, result=None, when=None, exact=False, pre=None, reveal=None, ensures=None, hints=None, effect=None,
                 abstract=None, opts=None, lemmas=None, gen=None, tail=None):
        self.gen = gen
        self.key, self.args, self.result, self.when, self.exact, self.pre = key, args.split(), result, when, exact, pre
        self.reveal, self.ensures, self.hints, self.abstract, self.effect, self.opts = reveal, ensures, hints, abstract, effect, opts
        self.lemmas, self.tail = lemmas, tail

    def view_args(self, E, st, vals, fn):
        d = {}
        for n, v, k in zip(self.args, vals, fn.args):
            d[n] = wrap_view(E, st, v, fn.locals[k])
        return A(**d)

    def applies(self, E, st, args):
        fn = E.cur_fn
        fn.parse()
        return len(fn.args) == len(self.args)

    def apply(self, E, st, args, dty, callee):
        fn = E.cur_fn
        fn.parse()
        a = self.view_args(E, st.copy(), args, fn)
        if self.pre is not None:
            E.side.append(("precondition of %s" % self.key, list(st.pc), self.pre(a)))
        out = []
        b = generic_args(dty)[0]
        when = self.when(a) if self.when else True
        if b in ("Result", "Option"):
            e = st.copy()
            if self.exact:
                feas = E.feasible(e, Not(when)) and e.assume(Not(when))
            else:
                feas = True
            if feas:
                out.append((e, err(ERR_VALUE) if b == "Result" else NONE))
        s = st
        if not (E.feasible(s, when) and s.assume(when)):
            return out
        sty = success_type(dty)
        if self.result is not None:
            r = self.result(a)
            v = build_value(E, r, sty)
            # machine range of what is returned
            for _, x in leaves(r):
                pass
            for lab, cond in self.ranges(E, r, sty):
                s.assume(cond)
        else:
            v = E.fresh("ret:" + self.key, sty)
            r = wrap_view(E, s, v, sty)
        if self.ensures is not None:
            for lab, cnd in self.ensures(a, r):
                s.assume(cnd)
        if self.effect is not None:
            for n, ch in self.effect(a).items():
                k = self.args.index(n)
                ref = args[k]
                if isinstance(ref, Sym):
                    ref = E.deref(s, ref)
                if not isinstance(ref, Ref):
                    raise Unsupported("effect through %r" % (ref,))
                pt = pointee(fn.locals[fn.args[k]])
                for path, val in ch.items():
                    steps, fty = field_steps(E, pt, path)
                    if fty in INT and is_z3(val):
                        s.assume(sym.in_range(val, fty))
                    if isinstance(val, (dict, Borsh)):
                        val = build_value(E, val, fty)
                    E.write_to(s, ref.cell, list(ref.path) + steps, val)
        out.append((s, ok(v) if b == "Result" else some(v) if b == "Option" else v))
        return out

    def ranges(self, E, r, ty):
        if isinstance(r, dict):
            fs = dict(E.prog.src.structs[generic_args(ty)[0]])
            return [x for n, v in r.items() for x in self.ranges(E, v, norm_type(fs[n]))]
        if isinstance(r, tuple):
            return [x for v, t in zip(r, split_top(ty[1:-1])) for x in self.ranges(E, v, t)]
        if isinstance(r, Just):
            return self.ranges(E, r.x, generic_args(ty)[1][0])
        if ty in INT and is_z3(r):
            return [("range", sym.in_range(r, ty))]
        return []


class CheckContract(FnContract):
    """A function that only accepts or refuses: its verdict is a named Boolean, its arguments are recorded on the path.
    (What the verdict means is the business of the unit that verifies the function itself.)"""

    def __init__(self, key, args, record=None):
        super().__init__(key, args)
        self.record = record

    def apply(self, E, st, args, dty, callee):
        from .engine import err, ok
        n = sum(1 for l in st.log if l[0] == "check" and l[1] == self.key)
        v = z3.Bool("accepts:%s#%d" % (self.key, n))
        e = st.copy()
        vals = [args[i] for i in (self.record if self.record is not None else range(len(args)))]
        st.log.append(("check", self.key) + tuple(vals))
        e.log.append(("check", self.key) + tuple(vals))
        out = []
        if E.feasible(e, Not(v)) and e.assume(Not(v)):
            out.append((e, err(ERR_VALUE)))
        if E.feasible(st, v) and st.assume(v):
            out.append((st, ok(UNIT)))
        return out


# ------------------------------------------------------------------ results

class Ob:
    __slots__ = ("name", "status", "backend", "secs", "model", "info")

    def __init__(self, name, status, backend="", secs=0.0, model=None, info=""):
        self.name, self.status, self.backend, self.secs, self.model, self.info = name, status, backend, secs, model, info

    def __repr__(self):
        return "%s: %s (%s, %.2fs) %s" % (self.name, self.status, self.backend, self.secs, self.info)


#: library functions without a model that the unchanged tree calls (results unknown, and the proofs go through)
UNMODELLED = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "unmodelled.json"))))


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.externals = {}
        self.unmodelled = set()
        self.inlined = {}
        self.contracts = {}
        self.unsupported = None
        self.limited = False
        self.error = None
        self.paths = 0
        self.covers = 0
        self.secs = 0.0
        self.functions = []

    @property
    def proved(self):
        return not self.unsupported and not self.error and self.obs and all(o.status == "proved" for o in self.obs)

    @property
    def failed(self):
        return [] if self.limited else [o for o in self.obs if o.status != "proved"]


class Prover:
    def __init__(self, result, timeout=20.0, budget=None):
        self.res = result
        self.timeout = timeout
        self.deadline = time.time() + budget * TIME_SCALE if budget else None

    def prove(self, name, hyps, goal, want_model=True, timeout=None, strict=None):
        t0 = time.time()
        if conc(goal):
            if goal:
                self.res.obs.append(Ob(name, "proved", "syntactic", 0.0))
                return True
            goal = z3.BoolVal(False)
        if z3.is_and(goal):
            r = True
            for i, g in enumerate(goal.children()):
                r = self.prove(name if len(goal.children()) == 1 else "%s/%d" % (name, i + 1), hyps, g, want_model, timeout) and r
            return r
        hy = [h for h in hyps if not (conc(h) and h)]
        if any(conc(h) for h in hy):
            self.res.obs.append(Ob(name, "proved", "syntactic", 0.0))
            return True
        q = hy + [z3.Not(goal)]
        if smt.known(hy, goal):
            self.res.obs.append(Ob(name, "proved", "z3-api/linear (proved from fewer hypotheses before)", 0.0))
            return True
        if smt.linear_core(hy, goal, 1500):
            self.res.obs.append(Ob(name, "proved", "z3-api/linear", time.time() - t0))
            return True
        if sym.FACTS.divs and smt.linear_unsat(q, 1500, True):
            self.res.obs.append(Ob(name, "proved", "z3-api/linear+congruence", time.time() - t0))
            return True
        r, m = smt.nonlinear_unsat(q, 1500)
        if r == z3.unsat:
            self.res.obs.append(Ob(name, "proved", "z3-api/nia", time.time() - t0))
            return True
        if r == z3.sat:
            self.res.obs.append(Ob(name, "refuted", "z3-api/nia", time.time() - t0, model_dict(m)))
            return False
        tmo = (timeout or self.timeout) * TIME_SCALE
        if self.deadline:
            tmo = max(1.0, min(tmo, self.deadline - time.time()))
        consts = sorted({c for t in q for c in const_names(t)})
        verdict, who, secs, vals = smt.portfolio(smt.to_smt2(q), tmo, [quote(c) for c in consts] if want_model else ())
        st = {"unsat": "proved", "sat": "refuted"}.get(verdict, "unknown")
        self.res.obs.append(Ob(name, st, who or "portfolio(z3,cvc5)", time.time() - t0,
                               {k.strip("|"): v for k, v in vals.items()} if st == "refuted" else None))
        return st == "proved"

    def cover(self, name, hyps):
        """the assumptions of a success path are not contradictory (guards against vacuous proofs)"""
        q = [h for h in hyps if not conc(h)]
        if any(conc(h) and not h for h in hyps):
            return False
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*smt.closure(q))
        return s.check() != z3.unsat


def quote(c):
    import re
    return c if re.fullmatch(r"[A-Za-z_!.][\w!.]*", c) else "|%s|" % c


def const_names(t):
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[d.name()] = z3.is_true(v)
    return out


# ------------------------------------------------------------------ proving a function against its contract

def make_engine(ctx, contracts, skip=()):
    E = Engine(ctx.prog, {k: c for k, c in contracts.items() if k not in skip})
    E.side = []
    return E


def arg_values(E, fn, names, st):
    vals = []
    for n, k in zip(names, fn.args):
        ty = fn.locals[k]
        vals.append(E.make(n, ty))
    return vals


def exit_kind(v, ret):
    """-> ('ok', payload) / ('err', None)"""
    if generic_args(ret)[0] in ("Result", "Option"):
        if isinstance(v, Enum):
            return ("ok", v.fields[0] if v.fields else UNIT) if v.vname in ("Ok", "Some") else ("err", None)
        return ("sym", v)
    return ("ok", v)


def ok_exits(E, exits, ret):
    """normalises exits: yields (state, kind, payload)"""
    out = []
    for e in exits:
        if e.kind != "return":
            continue
        k, p = exit_kind(e.value, ret)
        if k == "sym":
            from .models import variants
            for s, x in variants(E, e.state, p):
                kk, pp = exit_kind(x, ret)
                out.append((s, kk, pp))
        else:
            out.append((e.state, k, p))
    return out


def verify_contract(ctx, con, contracts, res, timeout=20, tsub=None, setup=None, budget=None, engine_opts=None):
    """Discharges: for every path of the function that returns successfully, the contract's result and conditions hold."""
    fn = ctx.prog.find(con.key)
    if fn is None:
        res.unsupported = "function %s not found in the compiled crate" % con.key
        return None
    fn.parse()
    E = make_engine(ctx, contracts, skip=(con.key,))
    engine_opts = engine_opts or con.opts
    if engine_opts:
        engine_opts(E)
    E.deadline = time.time() + (budget or 300) * TIME_SCALE
    P = Prover(res, timeout, budget)
    res.functions.append(con.key)
    try:
        if len(fn.args) != len(con.args):
            raise Unsupported("signature of %s changed" % con.key)
        st = State()
        vals = arg_values(E, fn, con.args, st)
        hyps = []
        init = st.copy()
        for v in vals:
            if isinstance(v, Sym) and pointee(v.ty):
                E.deref(init, v)
                E.deref(st, v)
        a = con.view_args(E, init, vals, fn)
        if con.pre is not None:
            hyps.append(con.pre(a))
        if con.hints:
            hyps += con.hints(a)
        for h in hyps:
            st.assume(h)
        if setup:
            setup(E, st, vals, a)
        if E.loop_handler is None:
            from .loops import Loops
            T = con.tail(a) if con.tail else None
            E.loop_handler = Loops(P, T)
            if T:
                for h in T.unfold(0, T.start):
                    st.assume(h)
        exits = E.run(fn, vals, st, tsub)
        nok = 0
        sty = success_type(fn.ret)
        if tsub:
            for k, v in tsub.items():
                import re
                sty = re.sub(r"\b%s\b" % k, v, sty)
        for i, (s, kind, payload) in enumerate(ok_exits(E, exits, fn.ret)):
            rev = con.reveal(a) if con.reveal else []
            if kind == "ok":
                h = s.pc + rev
                if P.cover("cover", h):
                    nok += 1
                with on_path(h):
                    when = con.when(a) if con.when is not None else None
                    want = con.result(a) if con.result is not None else None
                    eff = con.effect(a) if con.effect else {}
                if when is not None:
                    P.prove("%s: success implies its condition [path %d]" % (con.key, i), h, when)
                if want is not None:
                    for lab, cnd in match_result(E, s, payload, sty, want):
                        P.prove("%s: %s [path %d]" % (con.key, lab, i), h, cnd)
                if con.effect is not None or con.args[:1] == ["self"]:
                    for n, v, k in zip(con.args, vals, fn.args):
                        ty = fn.locals[k]
                        if not (isinstance(v, Sym) and ty.startswith("&mut ")):
                            if n in eff:
                                raise Unsupported("%s is not mutable" % n)
                            continue
                        r0, r1 = E.deref(init, v), E.deref(s, v)
                        for lab, cnd in frame_goals(E, init, E.load(init, r0.cell, r0.path), s, E.load(s, r1.cell, r1.path), pointee(ty),
                                                    eff.get(n, {})):
                            P.prove("%s: %s.%s [path %d]" % (con.key, n, lab, i), h, cnd)
                if con.ensures is not None:
                    r = con.result(a) if con.result is not None else wrap_view(E, s, payload, sty)
                    for lab, cnd in con.ensures(a, r):
                        P.prove("%s: %s [path %d]" % (con.key, lab, i), h, cnd)
            elif kind == "err" and con.exact:
                P.prove("%s: fails only outside its condition [path %d]" % (con.key, i), s.pc + rev, Not(con.when(a) if con.when else True))
        for name, pc, cond in E.side:
            P.prove(name, pc, cond)
        res.paths += len(exits)
        res.covers += nok
        if nok == 0:
            res.unsupported = "no success path of %s is reachable" % con.key
    except (Unsupported, MirUnsupported) as e:
        res.unsupported = "%s: %s" % (con.key, e)
    finally:
        absorb(res, E)
    return E


def absorb(res, E):
    res.unmodelled |= E.unmodelled
    for k, v in E.externals.items():
        res.externals.setdefault(k, v)
    for k, v in E.inlined.items():
        res.inlined[k] = res.inlined.get(k, 0) + v
    for k, v in E.contracts_used.items():
        res.contracts[k] = res.contracts.get(k, 0) + v


# ------------------------------------------------------------------ loops against a specification machine

def is_concrete(v):
    if isinstance(v, (bool, int)):
        return True
    if isinstance(v, Agg) or isinstance(v, Enum):
        return all(is_concrete(x) for x in v.fields)
    return False


def conckey(v):
    if isinstance(v, (Agg, Enum)):
        return (getattr(v, "name", None) or getattr(v, "vname", None),) + tuple(conckey(x) for x in v.fields)
    return v


class Machine:
    """Specification of a loop as a state machine.
    roles: {name: type}; init() -> {role: value}; step(S, k) -> (S', done); inv(S, k) -> [conditions]; n: number of steps"""

    def __init__(self, roles, init, step, n, inv=None):
        self.roles, self.init, self.step, self.n, self.inv = roles, init, step, n, inv or (lambda S, k: [])


class LoopCut:
    """Cuts the first loop the execution reaches (and every later arrival at its head) against a Machine:
    the k-th arrival must be in the k-th state of the machine; the loop variables are then forgotten and replaced by an
    arbitrary state satisfying the machine's invariant."""

    def __init__(self, machine, prover):
        self.m, self.P = machine, prover
        self.where = None
        self.explored = set()
        self.map = None

    def modified(self, fn, body):
        out = set()
        for b in body:
            stmts, term = fn.block(b)
            for s in stmts:
                if s[0] == "assign":
                    out.add(s[1].local)
                    rv = s[2]
                    if rv[0] == "ref" and rv[1] in ("mut", "raw") and not any(p[0] == "deref" for p in rv[2].proj):
                        out.add(rv[2].local)
                elif s[0] == "setdiscr":
                    out.add(s[1].local)
            if term[0] == "call" and term[1] is not None:
                out.add(term[1].local)
        return out

    def visit(self, E, st, fr, exits):
        here = (fr.fn.name, fr.block, len(st.frames))
        if self.where is None:
            self.where = here
            self.body = fr.fn.loops()[fr.block]
            self.mod = self.modified(fr.fn, self.body)
        if here != self.where:
            return None
        k = st.ghost.get("k", -1) + 1
        m = self.m
        if k > m.n:
            raise Unsupported("loop runs longer than its specification")
        vals = {}
        for l in sorted(self.mod):
            c = fr.locals.get(l)
            if c is not None and c in st.heap:
                vals[l] = st.heap[c]
        if k == 0:
            S = m.init()
            self.vals0 = dict(vals)
            self.base = list(st.pc)
            self.live = set(vals)
            self.snap = dict(st.heap)
            self.modcells = {fr.locals[l] for l in self.mod if l in fr.locals}
            self.map = {}
            for r, ty in m.roles.items():
                c = [l for l in vals if E.tsub(fr, fr.fn.locals[l]) == ty and not isinstance(vals[l], (Agg, Enum, Ref, Sym)) and self.same(S[r], vals[l])
                     and l not in self.map.values()]
                if len(c) != 1:
                    raise Unsupported("loop variable for %s not identified" % r)
                self.map[r] = c[0]
            done = False
        else:
            for c, v in self.snap.items():
                if c not in self.modcells and st.heap.get(c) is not v and not self.eqv(st.heap.get(c), v):
                    raise Unsupported("loop writes %s" % c)
            S, done = m.step(st.ghost["S"], k - 1)
            for r in m.roles:
                if self.map[r] not in vals:
                    raise Unsupported("loop variable lost")
                self.P.prove("loop iteration %d: %s" % (k - 1, r), st.pc, Eq(vals[self.map[r]], S[r]))
            self.P.prove("loop iteration %d: continues as specified" % (k - 1), st.pc, Not(done))
        for i, cnd in enumerate(m.inv(S, k)):
            self.P.prove("loop invariant %d at head %d" % (i + 1, k), st.pc + ([] if k == 0 else list(m.inv(st.ghost["S"], k - 1))), cnd)
        if k == 0:
            st.ghost.update(k=0, S=S, at_head=1)
            return [st]
        conc_ = {l: v for l, v in vals.items() if l in self.live and l not in self.map.values() and (is_concrete(v) or self.position(l, v) is not None)}
        key = (k, tuple((l, conckey(v) if is_concrete(v) else self.position(l, v)) for l, v in sorted(conc_.items())))
        if key in self.explored:
            return []
        self.explored.add(key)
        if len([x for x in self.explored if x[0] == k]) > 4:
            raise Unsupported("loop state not recognised")
        n = st.copy()
        f = n.frames[-1]
        n.pc = list(self.base)
        S2 = {}
        for r, ty in m.roles.items():
            S2[r] = E.fresh("S%d.%s" % (k, r), ty)
        for cnd in m.inv(S2, k):
            n.assume(cnd)
        for l in vals:
            c = f.locals[l]
            if l in conc_:
                continue
            rs = [r for r in self.map if self.map[r] == l]
            if rs:
                n.heap[c] = S2[rs[0]]
            else:
                del f.locals[l]
        n.ghost.update(k=k, S=S2, at_head=1)
        return [n]

    def position(self, l, v):
        """an iterator over something that stays the same, at a known position (None: not that)"""
        from . import loops
        flat = lambda x: [(p, y) for p, y in loops.leaves(x)]
        a, b = flat(v), flat(self.vals0[l])
        if not loops.iterators(v) or [p for p, _ in a] != [p for p, _ in b] or not all(conc(y) for _, y in a + b):
            return None
        for p, y in b:
            v = loops.put(v, p, y)
        return tuple(y for _, y in a) if loops.same(v, self.vals0[l]) else None

    def same(self, a, b):
        if conc(a) and conc(b):
            return a == b
        if conc(a) or conc(b):
            return False
        return a.eq(b) or z3.simplify(a == b).eq(z3.BoolVal(True))

    def eqv(self, a, b):
        return type(a) is type(b) and repr(a) == repr(b)


# ------------------------------------------------------------------ units

class Unit:
    """One piece of proof: run(ctx, result).  kind: 'function' | 'lemma' | 'handler'.  search: optional replay search."""

    def __init__(self, name, run, search=None, deps=(), kind="function", about="", weight=1, bounded=None):
        self.weight, self.bounded = weight, bounded
        self.cons = []
        self.name, self.run, self.search, self.deps, self.kind, self.about = name, run, search, tuple(deps), kind, about


def run_unit(ctx, u):
    sym.reset_facts()
    smt._prune_cache.clear()
    res = UnitResult(u.name)
    t0 = time.time()
    try:
        u.run(ctx, res)
    except (Unsupported, MirUnsupported) as e:
        res.unsupported = str(e)
    except Exception as e:
        res.error = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    new = res.unmodelled - UNMODELLED
    if res.failed and new:
        # an obligation that fails because the meaning of a library function is not known says nothing about the code
        res.unsupported, res.limited = "no model of %s" % ", ".join(sorted(new)), True
    res.secs = time.time() - t0
    return res


_G = {}


def _work(i):
    u = _G["units"][i]
    return i, run_unit(_G["ctx"], u)


def run_units(ctx, units, jobs=8, progress=None):
    _G["units"], _G["ctx"] = units, ctx
    out = [None] * len(units)
    if jobs == 1:
        for i, u in enumerate(units):
            out[i] = run_unit(ctx, u)
            if progress:
                progress(out[i])
        return out
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        for i, r in pool.imap_unordered(_work, range(len(units)), chunksize=1):
            out[i] = r
            if progress:
                progress(r)
    return out


def lemma_unit(name, goals, timeout=30, about="", deps=()):
    """goals() -> [(label, hyps, goal)]"""
    def run(ctx, res):
        P = Prover(res, timeout)
        for lab, h, g in goals():
            P.prove("lemma %s: %s" % (name, lab), h, g)
            res.covers += 1 if P.cover("c", h) else 0
    return Unit("lemma:" + name, run, kind="lemma", about=about, deps=deps)
