"""Polymorphic arithmetic: every operation works on Python ints/bools (concrete execution, replay, search)
and on z3 terms (verification conditions).  Contracts are written once with these."""
import z3

INT = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "u128": (128, False),
       "usize": (64, False), "U256": (256, False), "U512": (512, False), "i8": (8, True), "i16": (16, True),
       "i32": (32, True), "i64": (64, True), "i128": (128, True), "isize": (64, True), "char": (32, False)}
#: opaque 32-byte values compared for equality only
KEYTYPES = {"Pubkey"}

U64MAX = 2 ** 64 - 1
U128MAX = 2 ** 128 - 1
U256MAX = 2 ** 256 - 1


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def conc(x):
    return not isinstance(x, z3.ExprRef)


def lo_hi(ty):
    b, s = INT[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class Facts:
    """Side conditions attached to terms: type ranges of symbolic leaves, definitions of quotients.
    A fact is part of a query whenever the term it is keyed on occurs in the query."""

    def __init__(self):
        self.by_id = {}
        self.keep = []
        self.divs = {}
        self.by_den = {}
        self.ndiv = 0

    def add(self, key, f):
        if not isinstance(f, z3.ExprRef):
            return
        self.by_id.setdefault(key.get_id(), []).append(f)
        self.keep.append((key, f))

    def div(self, a, b):
        """floor(a/b), a mod b for b > 0 (nothing is known when b == 0)."""
        k = (a.get_id() if is_z3(a) else ("c", a), b.get_id() if is_z3(b) else ("c", b))
        r = self.divs.get(k)
        if r is None:
            self.ndiv += 1
            q = z3.Int("q!%d" % self.ndiv)
            m = z3.Int("m!%d" % self.ndiv)
            bz = b if is_z3(b) else z3.IntVal(b)
            az = a if is_z3(a) else z3.IntVal(a)
            f = z3.Implies(bz > 0, z3.And(az == bz * q + m, m >= 0, m < bz))
            g = z3.Implies(z3.And(bz > 0, az >= 0), z3.And(q >= 0, q <= az))
            self.add(q, f)
            self.add(q, g)
            self.add(m, f)
            self.add(m, g)
            r = (q, m, az, bz)
            self.divs[k] = r
            self.keep.append((a, b))
            # rounding up written as (x + b - 1) / b
            if is_z3(b):
                for q2, m2, a2, b2 in self.by_den.setdefault(b.get_id(), []):
                    for (qa, ma, x), (qb, mb, y) in (((q, m, az), (q2, m2, a2)), ((q2, m2, a2), (q, m, az))):
                        d = z3.simplify(x - y - bz + 1)
                        if z3.is_int_value(d) and d.as_long() == 0:
                            f = z3.Implies(bz > 0, qa == qb + z3.If(mb == 0, 0, 1))
                            self.add(qa, f)
                            self.add(qb, f)
                self.by_den[b.get_id()].append(r)
            la, ha = interval(az)
            lb, hb = interval(bz)
            if la is not None and la >= 0 and lb is not None and lb > 0:
                RANGE[q.get_id()] = (0 if hb is None else la // hb, None if ha is None else ha // lb)
                if hb is not None:
                    RANGE[m.get_id()] = (0, hb - 1)
        return r[0], r[1]


FACTS = Facts()
RANGE = {}


def interval(t, depth=40):
    """(lo, hi) of an integer term from the types of its leaves; an end is None when unknown"""
    if conc(t):
        return (int(t), int(t))
    r = RANGE.get(t.get_id())
    if r is not None:
        return r
    if depth == 0 or not z3.is_int(t):
        return (None, None)
    if z3.is_int_value(t):
        v = t.as_long()
        return (v, v)
    k = t.decl().kind() if z3.is_app(t) else None
    ch = [interval(c, depth - 1) for c in t.children()] if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_UMINUS) else []
    r = (None, None)
    if k == z3.Z3_OP_ADD:
        r = (None if any(c[0] is None for c in ch) else sum(c[0] for c in ch), None if any(c[1] is None for c in ch) else sum(c[1] for c in ch))
    elif k == z3.Z3_OP_SUB:
        lo, hi = ch[0]
        for c in ch[1:]:
            lo = None if lo is None or c[1] is None else lo - c[1]
            hi = None if hi is None or c[0] is None else hi - c[0]
        r = (lo, hi)
    elif k == z3.Z3_OP_UMINUS:
        r = (None if ch[0][1] is None else -ch[0][1], None if ch[0][0] is None else -ch[0][0])
    elif k == z3.Z3_OP_MUL:
        if all(c[0] is not None and c[0] >= 0 for c in ch):
            lo, hi = 1, 1
            for c in ch:
                lo *= c[0]
                hi = None if hi is None or c[1] is None else hi * c[1]
            r = (lo, hi)
        elif all(c[0] is not None and c[1] is not None for c in ch):
            lo, hi = 1, 1
            for c in ch:
                ps = [lo * c[0], lo * c[1], hi * c[0], hi * c[1]]
                lo, hi = min(ps), max(ps)
            r = (lo, hi)
    elif k == z3.Z3_OP_IDIV:
        if ch[0][0] is not None and ch[0][0] >= 0 and ch[1][0] is not None and ch[1][0] > 0:
            r = (0 if ch[1][1] is None else ch[0][0] // ch[1][1], None if ch[0][1] is None else ch[0][1] // ch[1][0])
    elif k == z3.Z3_OP_MOD:
        if ch[1][1] is not None and ch[1][0] > 0:
            r = (0, ch[1][1] - 1)
    elif k == z3.Z3_OP_ITE:
        a, b = interval(t.arg(1), depth - 1), interval(t.arg(2), depth - 1)
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    RANGE[t.get_id()] = r
    FACTS.keep.append((t, t))
    return r


def surely_in(t, ty):
    lo, hi = lo_hi(ty)
    a, b = interval(t)
    return a is not None and b is not None and a >= lo and b <= hi


def reset_facts():
    global FACTS
    FACTS.__init__()
    RANGE.clear()
    _fc.clear()


_fc = {}


def as_bool(c):
    return c if is_z3(c) else z3.BoolVal(bool(c))


def as_int(c):
    return c if is_z3(c) else z3.IntVal(int(c))


#: decides conditions that the path at hand already settles (see core.on_path), so that specification terms keep the
#: shape of that path; None: not on a path
DECIDE = None


def If(c, a, b):
    if DECIDE is not None and not conc(c):
        v = DECIDE(c)
        if v is not None:
            return a if v else b
    if conc(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if conc(a) and conc(b) and a == b and type(a) is type(b):
        return a
    if z3.is_not(c):
        return If(c.arg(0), b, a)
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, as_bool(a), as_bool(b))
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    return z3.If(c, as_int(a), as_int(b))


def And(*xs):
    xs = [y for x in xs for y in (x if isinstance(x, (list, tuple)) else [x])]
    out = []
    for x in xs:
        if conc(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    xs = [y for x in xs for y in (x if isinstance(x, (list, tuple)) else [x])]
    out = []
    for x in xs:
        if conc(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    return (not x) if conc(x) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if conc(a) and conc(b):
        return bool(a) == bool(b)
    return as_bool(a) == as_bool(b)


def Eq(a, b):
    if conc(a) and conc(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return as_bool(a) == as_bool(b)
    return a == b


def Ne(a, b):
    return Not(Eq(a, b))


def Min(a, b):
    return If(a <= b, a, b)


def Max(a, b):
    return If(a >= b, a, b)


def fdiv(a, b):
    """floor(a / b), a >= 0, b > 0"""
    if conc(a) and conc(b):
        return a // b if b else 0
    if conc(b):
        if b == 1:
            return a
        if b > 0:
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == b:
                return a.arg(0)
            return a / z3.IntVal(b)
    if conc(a) and a == 0:
        return 0
    return FACTS.div(a, b)[0]


def fmod(a, b):
    if conc(a) and conc(b):
        return a % b if b else 0
    if conc(b) and b > 0:
        return a % z3.IntVal(b)
    if conc(a) and a == 0:
        return 0
    return FACTS.div(a, b)[1]


def cdiv(a, b):
    """ceil(a / b), a >= 0, b > 0"""
    if conc(a) and conc(b):
        return -(-a // b) if b else 0
    if conc(b) and b > 0:
        return fdiv(a + (b - 1), b)
    return fdiv(a, b) + If(Eq(fmod(a, b), 0), 0, 1)


def in_range(x, ty):
    lo, hi = lo_hi(ty)
    return And(x >= lo, x <= hi)


def wrap(x, ty):
    b, s = INT[ty]
    m = 1 << b
    if conc(x):
        x %= m
        return x - m if s and x >= m // 2 else x
    if surely_in(x, ty):
        return x
    r = x % z3.IntVal(m)
    return z3.If(r >= m // 2, r - m, r) if s else r


def band_const(x, m, bits):
    """x & m for constant m >= 0, x >= 0"""
    if conc(x):
        return x & m
    out = 0
    lo = 0
    while lo < bits and (m >> lo):
        if not (m >> lo) & 1:
            lo += 1
            continue
        hi = lo
        while (m >> hi) & 1:
            hi += 1
        t = fdiv(x, 1 << lo)
        if hi < bits:
            t = fmod(t, 1 << (hi - lo))
        out = out + t * (1 << lo)
        lo = hi
    return out


def bit(x, k):
    """bit k of x >= 0 as 0/1"""
    return fmod(fdiv(x, 1 << k), 2)


def bitop(op, a, b, bits):
    if conc(a) and conc(b):
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if conc(a):
        a, b = b, a
    if conc(b):
        x = band_const(a, b, bits)
        if op == "and":
            return x
        return a + b - x if op == "or" else a + b - 2 * x
    if bits > 8:
        raise NotImplementedError("bit operation on two symbolic %d-bit values" % bits)
    out = 0
    for k in range(bits):
        x, y = bit(a, k), bit(b, k)
        if op == "and":
            t = If(And(Eq(x, 1), Eq(y, 1)), 1, 0)
        elif op == "or":
            t = If(Or(Eq(x, 1), Eq(y, 1)), 1, 0)
        else:
            t = If(Ne(x, y), 1, 0)
        out = out + t * (1 << k)
    return out


def pow2(k, maxk=512):
    if conc(k):
        return 1 << k if k >= 0 else 0
    f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
    t = f(k)
    FACTS.add(t, t >= 1)
    FACTS.add(t, z3.Implies(k <= 64, t <= 2 ** 64))
    FACTS.add(t, z3.Implies(k <= 128, t <= 2 ** 128))
    return t
