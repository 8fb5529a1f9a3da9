"""Queries: collection of side facts, cheap pruning in-process, a portfolio of solver processes for obligations."""
import os
import re
import signal
import subprocess
import tempfile
import time

import z3

from . import sym
from .sym import conc

STATS = {"prune_calls": 0, "prune_time": 0.0}


def congruences(seen, limit=15):
    """equal operands, equal quotients: for the quotients occurring in a query"""
    ds = [(k, r) for k, r in sym.FACTS.divs.items() if r[0].get_id() in seen or r[1].get_id() in seen]
    out = []
    for i in range(len(ds)):
        for j in range(i):
            (q, m, a, b), (q2, m2, a2, b2) = ds[i][1], ds[j][1]
            c = [x == y for x, y in ((a, a2), (b, b2)) if not x.eq(y)]
            out.append(z3.Implies(z3.And(*c) if c else z3.BoolVal(True), z3.And(q == q2, m == m2)))
    return out if len(out) <= limit else []


_subs = {}


def subterms(t):
    """ids of all subterms (remembered; the term is kept alive so that ids are not reused)"""
    r = _subs.get(t.get_id())
    if r is not None:
        return r[0]
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        known = _subs.get(i)
        if known is not None:
            seen |= known[0]
            continue
        seen.add(i)
        stack.extend(x.children())
    _subs[t.get_id()] = (seen, t)
    return seen


def closure(terms, cong=False):
    """terms plus every fact keyed on a subterm, transitively"""
    F = sym.FACTS.by_id
    seen = set()
    out = []
    outids = set()
    stack = [t for t in terms if not conc(t)]
    res = list(stack)
    while stack:
        s = subterms(stack.pop())
        new = s - seen
        seen |= s
        for i in F.keys() & new:
            for f in F[i]:
                if f.get_id() not in outids:
                    outids.add(f.get_id())
                    out.append(f)
                    stack.append(f)
    return res + out + (congruences(seen) if cong else [])


_size = {}


def light(t, n):
    """has t at most n different subterms?"""
    k = t.get_id()
    if k not in _size:
        _size[k] = (len(subterms(t)), t)
    return _size[k][0] <= n


_prune_cache = {}


def quick_unsat(conds, ms=200):
    conds = [c for c in conds if not (conc(c) and c)]
    if any(conc(c) for c in conds):
        return True
    key = tuple(c.get_id() for c in conds)
    r = _prune_cache.get(key)
    if r is not None:
        return r[0]
    t0 = time.time()
    s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
    s.set("timeout", ms)
    s.set("smt.arith.nl", False) if False else None
    s.set("arith.nl", False)
    s.add(*closure(conds))
    r = s.check() == z3.unsat
    STATS["prune_calls"] += 1
    STATS["prune_time"] += time.time() - t0
    _prune_cache[key] = (r, conds)
    return r


def linear_unsat(terms, ms=2000, cong=False):
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("arith.nl", False)
    s.add(*closure(terms, cong))
    return s.check() == z3.unsat


#: proved goals: id -> [(ids of the hypotheses that were needed, everything kept alive)]
_cores = {}


def known(hyps, goal):
    """was this goal proved before from a subset of these hypotheses?"""
    l = _cores.get(goal.get_id())
    if not l:
        return False
    ids = {h.get_id() for h in hyps}
    return any(c <= ids for c, _ in l)


def linear_core(hyps, goal, ms=2000):
    """linear_unsat(hyps + [not goal]), remembering the hypotheses used"""
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("arith.nl", False)
    own = {h.get_id() for h in hyps}
    neg = z3.Not(goal)
    ps = {}
    for h in hyps:
        p = z3.Bool("hyp!%d" % h.get_id())
        ps[p.get_id()] = (p, h)
        s.add(z3.Implies(p, h))
    s.add(neg, *[f for f in closure(list(hyps) + [neg]) if f.get_id() not in own])
    if s.check(*[p for p, _ in ps.values()]) != z3.unsat:
        return False
    used = [ps[c.get_id()][1] for c in s.unsat_core()]
    _cores.setdefault(goal.get_id(), []).append((frozenset(h.get_id() for h in used), (goal, used)))
    return True


def nonlinear_unsat(terms, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*closure(terms))
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def to_smt2(terms, logic=None):
    s = z3.Solver()
    s.add(*closure(terms))
    t = s.to_smt2()
    t = re.sub(r"\(set-info[^\n]*\n", "", t)
    t = t.replace("(check-sat)", "")
    # cvc5 wants standard names
    return t


BACKENDS = {
    "z3-4.8": ["z3", "-smt2", "-in"],
    "z3-new": ["z3-new", "-smt2", "-in"],
    "z3-new/nla-off-order": ["z3-new", "-smt2", "-in", "smt.arith.nl.order=false"],
    "cvc5": ["cvc5", "--lang=smt2", "--nl-ext-tplanes", "--produce-models"],
    "cvc5/cov": ["cvc5", "--lang=smt2", "--nl-cov", "--produce-models"],
}


def available():
    import shutil
    return {k: v for k, v in BACKENDS.items() if shutil.which(v[0])}


def portfolio(text, timeout, values=(), backends=("z3-new", "cvc5", "z3-4.8")):
    """Runs back ends in parallel on SMT-LIB text; returns (verdict, backend, seconds, {expr: value text})"""
    av = available()
    procs = []
    body = ["(set-logic ALL)\n"] + [text, "\n(check-sat)\n"]
    vals = ""
    if values:
        vals = "(get-value (%s))\n" % " ".join(values)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="dbcv-smt-")
    try:
        for b in backends:
            if b not in av:
                continue
            inp = os.path.join(d, b.replace("/", "_") + ".smt2")
            with open(inp, "w") as f:
                if b.startswith("cvc5"):
                    f.write("(set-option :produce-models true)\n")
                f.write("".join(body) + vals)
            out = open(inp + ".out", "w+")
            cmd = [c for c in av[b] if c != "-in"] + [inp]
            p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append((b, p, out))
        verdict, who, model = "unknown", None, {}
        live = list(procs)
        while live and time.time() - t0 < timeout:
            for it in list(live):
                b, p, out = it
                if p.poll() is None:
                    continue
                live.remove(it)
                out.seek(0)
                txt = out.read()
                first = txt.split("\n", 1)[0].strip()
                if first in ("unsat", "sat"):
                    verdict, who = first, b
                    if first == "sat":
                        model = parse_values(txt.split("\n", 1)[1])
                    live = []
                    break
            time.sleep(0.01)
        return verdict, who, time.time() - t0, model
    finally:
        for b, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
            out.close()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def sexprs(t):
    out, stack, i, n = [], [], 0, len(t)
    cur = out
    while i < n:
        c = t[i]
        if c == "(":
            new = []
            cur.append(new)
            stack.append(cur)
            cur = new
        elif c == ")":
            cur = stack.pop()
        elif c == "|":
            j = t.index("|", i + 1)
            cur.append(t[i:j + 1])
            i = j
        elif c.isspace():
            pass
        else:
            j = i
            while j < n and not t[j].isspace() and t[j] not in "()":
                j += 1
            cur.append(t[i:j])
            i = j - 1
        i += 1
    return out


def val(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "-":
            v = val(x[1])
            return -v if v is not None else None
        return None
    if x in ("true", "false"):
        return x == "true"
    try:
        return int(x)
    except ValueError:
        return None


def show(x):
    return x if isinstance(x, str) else "(" + " ".join(map(show, x)) + ")"


def parse_values(t):
    out = {}
    try:
        for top in sexprs(t):
            if isinstance(top, list):
                for pr in top:
                    if isinstance(pr, list) and len(pr) == 2:
                        out[show(pr[0])] = val(pr[1])
    except (IndexError, ValueError):
        pass
    return out
