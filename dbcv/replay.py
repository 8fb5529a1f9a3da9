"""Runs functions of the current tree on concrete inputs and compares them with their contracts.

The harness is generated from the contracts: next to every function under test a child module is appended (in a scratch copy
of the sources) that parses the arguments, calls the function and prints result and mutated arguments.  Used to turn a failed
obligation into a failing input, and as the bounded stand-in for functions the verifier cannot read."""
import os
import random
import re
import shutil
import subprocess
import time

from . import core
from .build import BuildError, PROGRAM, SDK
from .engine import Engine, State, Unsupported, array_ty, pointee
from .mir import MirUnsupported, generic_args, norm_type, split_top
from .sym import INT, lo_hi


class NoHarness(Exception):
    pass


class CV:
    """concrete struct"""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, i):
        return self.__dict__[i]


def cv(x):
    if isinstance(x, dict):
        return CV({k: cv(v) for k, v in x.items()})
    if isinstance(x, list):
        return [cv(v) for v in x]
    return x


class Types:
    def __init__(self, prog):
        self.prog, self.src = prog, prog.src
        self.E = Engine(prog, {})
        self.st = State()

    def kind(self, ty):
        if ty in INT:
            return "int"
        if ty == "bool":
            return "bool"
        if ty == "Pubkey":
            return "key"
        if ty == "()":
            return "unit"
        if ty.startswith("&") and pointee(ty):
            return "ref"
        if array_ty(ty):
            if array_ty(ty)[1] is None:
                raise NoHarness("slice " + ty)
            return "array"
        b, g = generic_args(ty)
        if b == "Option":
            return "option"
        if b == "Vec":
            return "vec"
        if ty.startswith("(") and ty.endswith(")"):
            return "tuple"
        if b in self.src.enums:
            if any(p is not None for _, _, p in self.src.enums[b]):
                raise NoHarness("enum " + ty)
            return "enum"
        if b in self.src.structs and not g:
            return "struct"
        raise NoHarness("type " + ty)

    def path(self, name):
        mod = None
        short = name
        if "__" in name and name.split("__")[0] in self.src.where:
            short, mod = name.split("__", 1)
        rel = self.src.where.get(short)
        if mod:
            for f, t in self.src.text.items():
                m = os.path.basename(f)[:-3]
                if m == "mod":
                    m = os.path.basename(os.path.dirname(f))
                if m == mod and re.search(r"\b(struct|enum)\s+%s\b" % short, t):
                    rel = f
        return module_of(rel) + "::" + short

    def fields(self, ty):
        return [(n, norm_type(t)) for n, t in self.src.structs[generic_args(ty)[0]] if "padding" not in n.lower()]

    def alen(self, ty):
        e, n = array_ty(ty)
        return e, self.E.const_len(n, self.st, None)

    # ---- Rust code
    def parse(self, ty):
        k = self.kind(ty)
        if k == "int":
            if ty in ("U256", "U512"):
                return "ruint::aliases::%s::from_str_radix(a.t(), 10).unwrap()" % ty
            return "a.t().parse::<%s>().unwrap()" % ty
        if k == "bool":
            return '(a.t() == "1")'
        if k == "key":
            return "a.key()"
        if k == "unit":
            return "()"
        if k == "enum":
            vs = self.src.enums[ty]
            p = self.path(ty)
            return "match a.t() { %s _ => panic!() }" % " ".join('"%d" => %s::%s,' % (d, p, v) for v, d, _ in vs)
        if k == "array":
            e, n = self.alen(ty)
            return "core::array::from_fn(|_| %s)" % self.parse(e)
        if k == "vec":
            return "{ let n: usize = a.t().parse().unwrap(); (0..n).map(|_| %s).collect::<Vec<_>>() }" % self.parse(generic_args(ty)[1][0])
        if k == "option":
            return '(if a.t() == "1" { Some(%s) } else { None })' % self.parse(generic_args(ty)[1][0])
        if k == "tuple":
            return "(%s)" % "".join(self.parse(x) + ", " for x in split_top(ty[1:-1]))
        if k == "struct":
            if re.match(r"\d", (self.src.structs[ty] or [("x", "")])[0][0]):
                raise NoHarness("tuple struct " + ty)
            return "{ let mut v: %s = unsafe { core::mem::zeroed() }; %s v }" % (
                self.path(ty), " ".join("v.%s = %s;" % (n, self.parse(t)) for n, t in self.fields(ty)))
        raise NoHarness("argument " + ty)

    def show(self, ty, x):
        """statements that push the leaves of x onto o"""
        k = self.kind(ty)
        if k in ("int",):
            return "o.push(format!(\"{}\", %s));" % x
        if k == "bool":
            return "o.push(format!(\"{}\", %s as u8));" % x
        if k == "key":
            return "o.push(unkey(&%s));" % x
        if k == "unit":
            return ""
        if k == "enum":
            vs = self.src.enums[ty]
            p = self.path(ty)
            return "o.push(format!(\"{}\", match &%s { %s }));" % (x, " ".join("%s::%s => %d," % (p, v, d) for v, d, _ in vs))
        if k == "array":
            e, n = self.alen(ty)
            return "for i in 0..%d { let y = %s[i]; %s }" % (n, x, self.show(e, "y"))
        if k == "vec":
            return "o.push(format!(\"{}\", %s.len())); for y in %s.iter() { let y = (*y).clone(); %s }" % (x, x, self.show(generic_args(ty)[1][0], "y"))
        if k == "option":
            return "match &%s { Some(y) => { let y = y.clone(); o.push(\"1\".to_string()); %s } None => { o.push(\"0\".to_string()); } }" % (
                x, self.show(generic_args(ty)[1][0], "y"))
        if k == "tuple":
            return " ".join(self.show(t, "%s.%d" % (x, i)) for i, t in enumerate(split_top(ty[1:-1])))
        if k == "struct":
            return " ".join("{ let z = &%s.%s; %s }" % (x, n, self.show(t, "(*z)")) if self.kind(t) == "struct" else
                            "{ let z = %s.%s.clone(); %s }" % (x, n, self.show(t, "z")) for n, t in self.fields(ty))
        if k == "ref":
            return self.show(pointee(ty), "(*%s)" % x)
        raise NoHarness("result " + ty)

    # ---- tokens
    def tokens(self, ty, v):
        k = self.kind(ty)
        if k in ("int", "key", "enum"):
            return [str(int(v))]
        if k == "bool":
            return ["1" if v else "0"]
        if k == "unit":
            return []
        if k == "array":
            e, n = self.alen(ty)
            return [x for i in range(n) for x in self.tokens(e, v[i])]
        if k == "vec":
            return [str(len(v))] + [x for y in v for x in self.tokens(generic_args(ty)[1][0], y)]
        if k == "option":
            return ["0"] if v is None else ["1"] + self.tokens(generic_args(ty)[1][0], v)
        if k == "tuple":
            return [x for t, y in zip(split_top(ty[1:-1]), v) for x in self.tokens(t, y)]
        if k == "struct":
            return [x for n, t in self.fields(ty) for x in self.tokens(t, v[n])]
        if k == "ref":
            return self.tokens(pointee(ty), v)
        raise NoHarness(ty)

    def read(self, ty, it):
        k = self.kind(ty)
        if k in ("int", "key", "enum"):
            return int(next(it))
        if k == "bool":
            return next(it) == "1"
        if k == "unit":
            return ()
        if k == "array":
            e, n = self.alen(ty)
            return [self.read(e, it) for _ in range(n)]
        if k == "vec":
            return [self.read(generic_args(ty)[1][0], it) for _ in range(int(next(it)))]
        if k == "option":
            return self.read(generic_args(ty)[1][0], it) if next(it) == "1" else None
        if k == "tuple":
            return tuple(self.read(t, it) for t in split_top(ty[1:-1]))
        if k == "struct":
            return {n: self.read(t, it) for n, t in self.fields(ty)}
        if k == "ref":
            return self.read(pointee(ty), it)
        raise NoHarness(ty)


def module_of(rel):
    """source file -> module path inside its crate"""
    p = rel.split("/src/", 1)[1][:-3].split("/")
    if p[-1] in ("mod", "lib"):
        p = p[:-1]
    return "::".join(["crate"] + p)


SUPPORT = '''
#[allow(unused, non_camel_case_types, dead_code)]
pub mod dbcv_support {
    use anchor_lang::prelude::Pubkey;
    pub struct Args<'a> { pub it: std::str::SplitWhitespace<'a> }
    impl<'a> Args<'a> {
        pub fn t(&mut self) -> &'a str { self.it.next().expect("argument") }
        pub fn key(&mut self) -> Pubkey {
            let n: u64 = self.t().parse().unwrap();
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&n.to_le_bytes());
            Pubkey::new_from_array(b)
        }
    }
    pub fn unkey(k: &Pubkey) -> String {
        let b = k.to_bytes();
        let mut n = [0u8; 8];
        n.copy_from_slice(&b[..8]);
        if b[8..].iter().any(|x| *x != 0) { "18446744073709551615".to_string() } else { u64::from_le_bytes(n).to_string() }
    }
}
'''


class Target:
    """one function with what is needed to call it"""

    def __init__(self, T, prog, con):
        self.con = con
        fn = prog.find(con.key)
        if fn is None:
            raise NoHarness("%s not found" % con.key)
        fn.parse()
        self.fn = fn
        if len(fn.args) != len(con.args):
            raise NoHarness("signature of %s changed" % con.key)
        if fn.crate != "dynamic_bonding_curve":
            raise NoHarness("other crate")
        self.tys = [fn.locals[k] for k in fn.args]
        self.ret = fn.ret
        m = re.search(r"<impl at ([^:]+\.rs):", fn.name)
        if m:
            self.file = m.group(1)
        else:
            c = [f for f, t in T.src.text.items() if f.startswith(PROGRAM) and re.search(r"\bfn\s+%s\b" % fn.meth, t)]
            if len(c) > 1:
                q = "/".join(fn.name.split("::")[:-1])
                c = [f for f in c if q and q in f] or c
            if len(c) != 1:
                raise NoHarness("source of %s not found" % con.key)
            self.file = c[0]
        self.T = T

    def code(self, i):
        T = self.T
        lets, call = [], []
        selfarg = "self" in self.fn.debug and self.fn.debug["self"] == "_%d" % self.fn.args[0] if self.fn.args else False
        for j, ty in enumerate(self.tys):
            base = pointee(ty) if T.kind(ty) == "ref" else ty
            lets.append("let mut x%d: %s = %s;" % (j, "_", T.parse(base)))
            call.append(("&mut x%d" if ty.startswith("&mut ") else "&x%d" if ty.startswith("&") else "x%d") % j)
        m = self.fn.meth
        if selfarg:
            recv = "x0" if not self.tys[0].startswith("&") else "(%s)" % call[0]
            e = "%s.%s(%s)" % (recv, m, ", ".join(call[1:]))
        elif self.fn.selfty:
            e = "%s::%s(%s)" % (T.path(generic_args(self.fn.selfty)[0]), m, ", ".join(call))
        else:
            e = "super::%s(%s)" % (m, ", ".join(call))
        b, g = generic_args(self.ret)
        if b == "Result":
            out = "match r { Ok(v) => { o.push(\"ok\".into()); %s } Err(_) => { return \"err\".into(); } }" % T.show(g[0], "v")
        elif b == "Option":
            out = "match r { Some(v) => { o.push(\"ok\".into()); %s } None => { return \"err\".into(); } }" % T.show(g[0], "v")
        else:
            out = "let v = r; o.push(\"ok\".into()); %s" % T.show(self.ret, "v")
        post = " ".join("{ %s }" % T.show(pointee(ty), "x%d" % j) for j, ty in enumerate(self.tys) if ty.startswith("&mut "))
        return "    pub(crate) fn f%d(a: &mut Args) -> String { %s let mut o: Vec<String> = vec![]; let r = %s; %s %s o.join(\" \") }\n" % (
            i, " ".join(lets), e, out, post)


class Harness:
    def __init__(self, ctx, cons):
        self.ctx = ctx
        self.T = Types(ctx.prog)
        self.targets = {}
        self.skipped = {}
        self.proc = None
        for con in cons:
            try:
                t = Target(self.T, ctx.prog, con)
                t.code(0)
                self.targets[con.key] = t
            except (NoHarness, Unsupported, MirUnsupported, KeyError, AttributeError, TypeError) as e:
                self.skipped[con.key] = "%s: %s" % (type(e).__name__, e)

    def build(self):
        """appends the child modules to a copy of the sources and builds a binary; drops targets that do not compile"""
        sc = self.ctx.scratch
        src = os.path.join(sc.dir, "rsrc")
        for attempt in range(4):
            if not self.targets:
                raise NoHarness("nothing to run: %s" % self.skipped)
            if os.path.isdir(src):
                shutil.rmtree(src)
            shutil.copytree(sc.src, src)
            prog = os.path.join(src, PROGRAM, "src")
            for top, _, files in os.walk(prog):
                for f in files:
                    if f.endswith(".rs"):
                        p = os.path.join(top, f)
                        t = open(p).read()
                        n = re.sub(r"(?m)^(\s*)(pub(\([^)]*\))?\s+)?mod\s+(\w+);", r"\1pub mod \4;", t)
                        if n != t:
                            open(p, "w").write(n)
            byfile = {}
            keys = list(self.targets)
            for i, k in enumerate(keys):
                byfile.setdefault(self.targets[k].file, []).append((i, k))
            lines = {}
            arms = []
            for f, l in byfile.items():
                p = os.path.join(src, f)
                with open(p) as fh:
                    start = fh.read().count("\n") + 1
                body = "\n#[allow(unused, non_snake_case, dead_code, clippy::all)]\npub mod dbcv_replay {\n    use super::*;\n    use crate::dbcv_support::*;\n"
                for i, k in l:
                    lines[(f, start + body.count("\n"))] = k
                    body += self.targets[k].code(i)
                    arms.append('"%d" => %s::dbcv_replay::f%d(a),' % (i, module_of(f), i))
                body += "}\n"
                with open(p, "a") as fh:
                    fh.write(body)
            lib = os.path.join(prog, "lib.rs")
            with open(lib, "a") as fh:
                fh.write(SUPPORT + "\n#[allow(unused)]\npub fn dbcv_dispatch(id: &str, a: &mut crate::dbcv_support::Args) -> String { match id { %s _ => \"none\".into() } }\n"
                         % " ".join(arms))
            bind = os.path.join(prog, "bin")
            os.makedirs(bind, exist_ok=True)
            with open(os.path.join(bind, "dbcv_replay.rs"), "w") as fh:
                fh.write('''use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // the program's own messages go to stdout
    let mut w = std::io::BufWriter::new(std::io::stderr());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let r = std::panic::catch_unwind(|| {
            let mut a = dynamic_bonding_curve::dbcv_support::Args { it: l.split_whitespace() };
            let id = a.t().to_string();
            dynamic_bonding_curve::dbcv_dispatch(&id, &mut a)
        });
        writeln!(w, "\n@@ {}", r.unwrap_or_else(|_| "panic".to_string())).unwrap();
    }
}
''')
            r = sc.cargo(["build", "-p", "dynamic-bonding-curve", "--bin", "dbcv_replay", "--offline"], cwd=src)
            if r.returncode == 0:
                self.bin = os.path.join(sc.target, "debug", "dbcv_replay")
                self.ids = {k: i for i, k in enumerate(keys)}
                return
            bad = set()
            for m in re.finditer(r"--> (\S+?):(\d+):", r.stdout):
                for (f, ln), k in lines.items():
                    if m.group(1).endswith(f[len("programs/"):]) and int(m.group(2)) == ln:
                        bad.add(k)
            if not bad:
                raise NoHarness("harness does not compile: " + "\n".join(re.findall(r"^error.*(?:\n.*){0,5}", r.stdout, re.M))[:1500])
            for k in bad:
                self.skipped[k] = "does not compile"
                self.why = r.stdout
                del self.targets[k]
        raise NoHarness("harness does not compile")

    def call(self, key, inputs):
        """inputs: list of {arg: value}; -> list of ('ok', result, {arg: after}) | ('err',) | ('panic',)"""
        t = self.targets[key]
        text = "".join(" ".join([str(self.ids[key])] + [x for n, ty in zip(t.con.args, t.tys) for x in self.T.tokens(ty, i[n])]) + "\n" for i in inputs)
        r = subprocess.run([self.bin], input=text, capture_output=True, text=True, timeout=300)
        out = []
        lines = [l[3:] for l in r.stderr.split("\n") if l.startswith("@@ ")]
        for l in lines[:len(inputs)]:
            w = l.split()
            if not w or w[0] != "ok":
                out.append((w[0] if w else "died",))
                continue
            it = iter(w[1:])
            res = self.T.read(core.success_type(t.ret), it)
            after = {n: self.T.read(ty, it) for n, ty in zip(t.con.args, t.tys) if ty.startswith("&mut ")}
            out.append(("ok", res, after))
        return out


# ------------------------------------------------------------------ contracts on concrete values

def same(want, got):
    """mismatches between a contract's result description and a concrete result"""
    if isinstance(want, dict):
        return [m for k, v in want.items() for m in [(k + "." + a, b, c) for a, b, c in same(v, got[k])]]
    if isinstance(want, (tuple, list)):
        return [m for i, (v, g) in enumerate(zip(want, got)) for m in [("%d.%s" % (i, a), b, c) for a, b, c in same(v, g)]]
    if want is None:
        return []
    return [] if int(want) == int(got) else [("", int(want), int(got))]


def get_path(d, path):
    for p in re.findall(r"\w+|\[\d+\]", path):
        d = d[int(p[1:-1])] if p.startswith("[") else d[p]
    return d


def set_path(d, path, v):
    ps = re.findall(r"\w+|\[\d+\]", path)
    for p in ps[:-1]:
        d = d[int(p[1:-1])] if p.startswith("[") else d[p]
    p = ps[-1]
    d[int(p[1:-1]) if p.startswith("[") else p] = v


def judge(con, inp, out):
    """None, or how the observed behaviour contradicts the contract"""
    import copy
    a = core.A(**{k: cv(v) for k, v in inp.items()})
    try:
        if con.pre is not None and not con.pre(a):
            return None
        when = con.when(a) if con.when else True
    except (ZeroDivisionError, OverflowError):
        return None
    if out[0] != "ok":
        if con.exact and when and out[0] in ("err", "panic"):
            return {"expected": "success", "got": out[0]}
        return None
    if not when:
        return {"expected": "no success (the contract's condition for success is false)", "got": out[1]}
    if con.result is not None:
        try:
            want = con.result(a)
        except ZeroDivisionError:
            return None
        m = same(want, out[1])
        if m:
            return {"result differs": [{"at": p.rstrip(".") or "result", "expected": w, "got": g} for p, w, g in m]}
    if con.ensures is not None:
        r = cv(con.result(a)) if con.result is not None else cv(out[1])
        for lab, c in con.ensures(a, r):
            if not c:
                return {"condition fails": lab, "result": out[1]}
    eff = con.effect(a) if con.effect else {}
    for n, after in out[2].items():
        want = copy.deepcopy(inp[n])
        for path, v in eff.get(n, {}).items():
            set_path(want, path, v)
        m = deep(want, after)
        if m and (con.effect is not None or n == "self"):
            return {"state after the call differs": [{"at": n + p, "expected": w, "got": g} for p, w, g in m][:10]}
    return None


def deep(a, b, p=""):
    if isinstance(b, dict):
        return [m for k in b for m in deep(a[k], b[k], p + "." + k)]
    if isinstance(b, list):
        return [m for i in range(len(b)) for m in deep(a[i], b[i], p + "[%d]" % i)]
    return [] if a is not None and int(a) == int(b) else [(p, a, b)]


# ------------------------------------------------------------------ inputs

MIN_P, MAX_P = 4295048016, 79226673521066979257578248091


class Gen:
    def __init__(self, T, seed):
        self.T, self.r = T, random.Random(seed)

    def logint(self, hi):
        r = self.r
        return min(hi, r.getrandbits(r.randint(1, max(1, hi.bit_length()))))

    def price(self):
        import math
        if self.r.random() < 0.03:
            return self.r.choice([0, 1, MIN_P, MAX_P, MAX_P + 1])
        return min(MAX_P, max(MIN_P, int(math.exp(self.r.uniform(math.log(MIN_P), math.log(MAX_P))))))

    def leaf(self, name, ty, base):
        r = self.r
        n = name.lower()
        lo, hi = lo_hi(ty) if ty in INT else (0, 1)
        x = r.random()
        if ty == "bool":
            return r.random() < 0.5
        if x < 0.04:
            return r.choice([lo, hi, 0, 1])
        if ty in ("u128", "U256") and "sqrt_price" in n or n in ("pa", "pb", "sqrt_price") and ty == "u128":
            return self.price()
        if ty in ("u64", "i64", "u128") and re.search(r"point|timestamp|\bnow\b|\bcur\b|\bact\b", n):
            return max(0, base + r.choice([0, 1, -1, 10, 100, r.randint(-1000, 1000), r.randint(-10 ** 6, 10 ** 6)]))
        if re.search(r"duration|period|frequency|number_of|decay|filter", n):
            return min(hi, r.choice([0, 1, 10, 100, r.randint(0, 1000), r.randint(0, 10 ** 6)]))
        if re.search(r"bps|reduction", n):
            return min(hi, r.choice([0, 10000, 5000, r.randint(0, 10000), r.randint(0, 10000)]))
        if re.search(r"percentage|percent", n):
            return r.choice([0, 100, 50, r.randint(0, 100), r.randint(0, 100)])
        if "numerator" in n:
            return min(hi, r.choice([2500000, 990000000, r.randint(0, 10 ** 9)]))
        if ty == "u8":
            return r.choice([0, 1, 2, 3, r.randint(0, 255)])
        if ty == "u128":
            return self.logint(hi)
        if ty in INT and lo < 0:
            v = self.logint(hi)
            return -v if r.random() < 0.4 else v
        return self.logint(hi)

    def value(self, ty, name="", base=0):
        T, r = self.T, self.r
        k = T.kind(ty)
        if k in ("int", "bool"):
            return self.leaf(name, ty, base)
        if k == "key":
            return r.choice([0, 1, 2, 3, 4])
        if k == "unit":
            return ()
        if k == "enum":
            return r.choice([d for _, d, _ in T.src.enums[ty]])
        if k == "array":
            e, n = T.alen(ty)
            v = [self.value(e, name, base) for _ in range(n)]
            if name == "curve":
                self.curve(v, n)
            return v
        if k == "vec":
            v = [self.value(generic_args(ty)[1][0], name, base) for _ in range(r.choice([0, 1, 2, 3, 16, 17]))]
            if name == "curve":
                v.sort(key=lambda p: p["sqrt_price"])
            return v
        if k == "option":
            return None if r.random() < 0.3 else self.value(generic_args(ty)[1][0], name, base)
        if k == "tuple":
            return tuple(self.value(t, name, base) for t in split_top(ty[1:-1]))
        if k == "struct":
            d = {n: self.value(t, n, base) for n, t in T.fields(ty)}
            if ty == "PoolConfig":
                self.config(d)
            return d
        if k == "ref":
            return self.value(pointee(ty), name, base)
        raise NoHarness(ty)

    def curve(self, v, n):
        r = self.r
        m = r.choice([1, 2, 3, 5, 16, n])
        ps = sorted(self.price() for _ in range(m))
        bits = r.randint(60, 127)
        for i in range(n):
            if i < m:
                v[i]["sqrt_price"] = ps[i]
                v[i]["liquidity"] = r.getrandbits(r.choice([bits, bits, r.randint(20, 127)])) or 1
            else:
                v[i]["sqrt_price"], v[i]["liquidity"] = 0, 0
        if r.random() < 0.05:
            v[r.randrange(n)]["liquidity"] = 0

    def config(self, d):
        r = self.r
        if "curve" in d and "sqrt_start_price" in d:
            d["sqrt_start_price"] = max(1, d["curve"][0]["sqrt_price"] - r.getrandbits(r.randint(1, 90)))
            ps = [p["sqrt_price"] for p in d["curve"] if p["sqrt_price"]]
            if ps and "migration_sqrt_price" in d:
                d["migration_sqrt_price"] = r.choice([ps[-1], r.choice(ps), self.price()])

    def inputs(self, t):
        base = self.r.choice([0, 10 ** 6, 1_700_000_000])
        inp = {n: self.value(ty, n, base) for n, ty in zip(t.con.args, t.tys)}
        # prices of the pool lie on the curve most of the time
        cfg = next((v for v in inp.values() if isinstance(v, dict) and "curve" in v), None)
        if cfg is not None:
            ps = [cfg["sqrt_start_price"]] + [p["sqrt_price"] for p in cfg["curve"] if p["sqrt_price"]]
            for v in inp.values():
                if isinstance(v, dict) and "sqrt_price" in v and "base_reserve" in v and self.r.random() < 0.9:
                    v["sqrt_price"] = self.r.choice([self.r.choice(ps), self.r.randint(min(ps), max(ps))])
        if t.con.gen is not None:
            t.con.gen(self.r, inp)
        return inp


def from_model(T, t, model, base):
    """an input built from the solver's counterexample: leaves are named after the argument and the field path"""
    import copy
    inp = copy.deepcopy(base)
    hit = 0
    for name, v in model.items():
        m = re.match(r"\*?(\w+)((?:\.\w+|\[\d+\])*)(?:!\d+)?$", name.replace("*", ""))
        if not m or m.group(1) not in inp or v is None:
            continue
        try:
            if m.group(2):
                get_path(inp[m.group(1)], m.group(2))
                set_path(inp[m.group(1)], m.group(2).lstrip("."), v)
            else:
                inp[m.group(1)] = v
            hit += 1
        except (KeyError, IndexError, TypeError):
            continue
    return inp if hit else None


def search(harness, key, seed, deadline, models=(), batch=3000, max_n=60000):
    """-> (failing input or None, number of inputs run)"""
    t = harness.targets[key]
    g = Gen(harness.T, seed)
    n = 0
    seeds = []
    for m in models:
        for _ in range(3):
            i = from_model(harness.T, t, m, g.inputs(t))
            if i is not None:
                seeds.append(i)
    while time.time() < deadline and n < max_n:
        inputs = seeds + [g.inputs(t) for _ in range(batch if n else batch // 5)]
        seeds = []
        outs = harness.call(key, inputs)
        for i, o in zip(inputs, outs):
            bad = judge(t.con, i, o)
            if bad is not None:
                return {"function": key, "arguments": i, "observed": o, "contradiction": bad}, n
        n += len(inputs)
    return None, n
