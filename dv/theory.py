"""Machine-integer semantics of LLVM values, in two encodings.

IntTh: unbounded z3 Int with exact wrap-around (ite / div / mod); operations that
       are not linear are over-approximated by a fresh value in range.
BVTh:  z3 bit-vectors, exact.

A value N carries its expression e (python int or z3 term) and static bounds lo..hi.
"""
import z3


class N:
    __slots__ = ('e', 'lo', 'hi', 'b', 'tz')

    def __init__(self, e, lo, hi, b=None, tz=0):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.b = b      # the i1 this was zero-extended from
        self.tz = tz    # known trailing zero bits

    def __repr__(self):
        return 'N(%s,%s..%s)' % (self.e, self.lo, self.hi)


TRUE = True
FALSE = False


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(out)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(out)


def bimp(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return z3.If(c, a, b)


def beq(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def runs(mask, n):
    """contiguous 1-runs of mask as (lo, len)"""
    out = []
    i = 0
    while i < n:
        if mask >> i & 1:
            j = i
            while j < n and mask >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


class IntTh:
    kind = 'int'

    def __init__(self, defs):
        self.defs = defs    # list of constraints defining fresh symbols
        self.k = 0
        self.Tf = z3.Function('T', z3.IntSort(), z3.IntSort())
        self.tseen = {}

    def const(self, c, n):
        c &= (1 << n) - 1
        return N(c, c, c)

    def fresh(self, name, n, lo=None, hi=None):
        self.k += 1
        v = z3.Int('%s!%d' % (name, self.k))
        lo = 0 if lo is None else lo
        hi = (1 << n) - 1 if hi is None else hi
        self.defs.append(v >= lo)
        self.defs.append(v <= hi)
        return N(v, lo, hi)

    def fresh_bool(self, name):
        self.k += 1
        return z3.Bool('%s!%d' % (name, self.k))

    def is_const(self, a):
        return isinstance(a.e, int)

    # raw terms
    def x(self, a, n=None):
        return zi(a.e)

    def cst(self, v, n):
        return z3.IntVal(v)

    def fn(self, name, w):
        return z3.Function(name, z3.IntSort(), z3.IntSort())

    def in_range(self, e, w):
        return z3.And(e >= 0, e < (1 << w))

    def ule(self, a, b):
        return a <= b

    def ult(self, a, b):
        return a < b

    def part(self, e, k, n, g):
        """bytes k .. k + n of a word of g bytes"""
        if k:
            e = e / (1 << 8 * k)
        return e if k + n == g else e % (1 << 8 * n)

    def put(self, old, k, n, g, x):
        return old + (x - self.part(old, k, n, g)) * (1 << 8 * k)

    def concat(self, ws, g):
        r = ws[0]
        for i, w in enumerate(ws[1:]):
            r = r + w * (1 << 8 * g * (i + 1))
        return r

    def num(self, e, n):
        """simplified raw term as a value"""
        if z3.is_int_value(e):
            v = e.as_long()
            return N(v, v, v)
        return N(e, 0, (1 << n) - 1)

    def fresh_off(self, name):
        self.k += 1
        return N(z3.Int('%s!%d' % (name, self.k)), -(1 << 66), 1 << 66)

    def T(self, addr):
        e = addr.e
        key = e if isinstance(e, int) else e.get_id()
        r = self.tseen.get(key)
        if r is None:
            t = self.Tf(z3.IntVal(e) if isinstance(e, int) else e)
            self.defs.append(t >= 0)
            self.defs.append(t <= 255)
            r = self.tseen[key] = (N(t, 0, 255), e)
        return r[0]

    def addm(self, a, b):
        """mathematical addition, for addresses"""
        if isinstance(b, int):
            if b == 0:
                return a
            return N(a.e + b, a.lo + b, a.hi + b)
        if isinstance(b.e, int) and b.e == 0:
            return a
        if isinstance(a.e, int) and a.e == 0:
            return b
        return N(a.e + b.e, a.lo + b.lo, a.hi + b.hi)

    def subm(self, a, b):
        return N(a.e - b.e, a.lo - b.hi, a.hi - b.lo)

    def mulm(self, a, c):
        if c == 1:
            return a
        return N(a.e * c, min(a.lo * c, a.hi * c), max(a.lo * c, a.hi * c))

    def signed(self, a, n):
        h = 1 << (n - 1)
        M = 1 << n
        if a.hi < h:
            return a
        if a.lo >= h:
            return N(a.e - M, a.lo - M, a.hi - M)
        if isinstance(a.e, int):
            raise AssertionError
        return N(z3.If(a.e >= h, a.e - M, a.e), -h, h - 1)

    def wrap(self, e, lo, hi, n):
        M = 1 << n
        if lo >= 0 and hi < M:
            return N(e, lo, hi)
        if isinstance(e, int):
            e %= M
            return N(e, e, e)
        if lo >= -M and hi < 2 * M:
            if lo >= 0:
                return N(z3.If(e >= M, e - M, e), 0, M - 1)
            if hi < M:
                return N(z3.If(e < 0, e + M, e), 0, M - 1)
            return N(z3.If(e >= M, e - M, z3.If(e < 0, e + M, e)), 0, M - 1)
        return N(e % M, 0, M - 1)

    def add(self, a, b, n):
        # normalise x + (2^n - c) to x - c
        M = 1 << n
        if isinstance(b.e, int) and b.e > M // 2 and not isinstance(a.e, int):
            c = M - b.e
            return self.wrap(a.e - c, a.lo - c, a.hi - c, n)
        if isinstance(a.e, int) and a.e > M // 2 and not isinstance(b.e, int):
            c = M - a.e
            return self.wrap(b.e - c, b.lo - c, b.hi - c, n)
        if isinstance(b.e, int) and b.e == 0:
            return a
        if isinstance(a.e, int) and a.e == 0:
            return b
        return self.wrap(a.e + b.e, a.lo + b.lo, a.hi + b.hi, n)

    def sub(self, a, b, n):
        if isinstance(b.e, int) and b.e == 0:
            return a
        if not isinstance(a.e, int) and not isinstance(b.e, int) and a.e.eq(b.e):
            return N(0, 0, 0)
        return self.wrap(a.e - b.e, a.lo - b.hi, a.hi - b.lo, n)

    def mul(self, a, b, n):
        if isinstance(a.e, int):
            a, b = b, a
        if isinstance(b.e, int):
            c = b.e
            if isinstance(a.e, int):
                return self.const(a.e * c, n)
            if c == 0:
                return N(0, 0, 0)
            if c == 1:
                return a
            return self.wrap(a.e * c, a.lo * c, a.hi * c, n)
        if a.hi * b.hi < (1 << n):
            return self.fresh('mul', n, a.lo * b.lo, a.hi * b.hi)
        return self.fresh('mul', n)

    def udiv(self, a, b, n):
        if isinstance(b.e, int) and b.e > 0:
            if isinstance(a.e, int):
                return self.const(a.e // b.e, n)
            return N(a.e / b.e, a.lo // b.e, a.hi // b.e)
        return self.fresh('udiv', n, 0, a.hi)

    def urem(self, a, b, n):
        if isinstance(b.e, int) and b.e > 0:
            if isinstance(a.e, int):
                return self.const(a.e % b.e, n)
            if a.hi < b.e:
                return a
            return N(a.e % b.e, 0, b.e - 1)
        return self.fresh('urem', n, 0, a.hi)

    def sdiv(self, a, b, n):
        if a.hi < (1 << (n - 1)) and isinstance(b.e, int) and 0 < b.e < (1 << (n - 1)):
            return self.udiv(a, b, n)
        if isinstance(a.e, int) and isinstance(b.e, int) and b.e:
            x, y = self.signed(a, n).e, self.signed(b, n).e
            q = abs(x) // abs(y)
            return self.const(q if (x < 0) == (y < 0) else -q, n)
        if isinstance(b.e, int) and 0 < b.e < (1 << (n - 1)):
            s = self.signed(a, n)
            q = z3.If(s.e >= 0, s.e / b.e, -((-s.e) / b.e))
            return self.wrap(q, -(1 << (n - 1)), (1 << (n - 1)) - 1, n)
        return self.fresh('sdiv', n)

    def srem(self, a, b, n):
        if a.hi < (1 << (n - 1)) and isinstance(b.e, int) and 0 < b.e < (1 << (n - 1)):
            return self.urem(a, b, n)
        return self.fresh('srem', n)

    def bit(self, a):
        # the condition under which a value of at most 1 is 1
        if a.b is None and a.lo >= 0 and a.hi <= 1 and not isinstance(a.e, int):
            return a.e == 1
        return a.b

    def and_(self, a, b, n):
        if isinstance(a.e, int):
            a, b = b, a
        if isinstance(a.e, int):
            return self.const(a.e & b.e, n)
        if isinstance(b.e, int):
            m = b.e
            if m == 0:
                return N(0, 0, 0)
            if a.hi <= m and (m & (m + 1)) == 0:
                return a
            if a.b is not None:
                return a if m & 1 else N(0, 0, 0)
            rs = runs(m, n)
            if len(rs) <= 4:
                e = None
                for lo, ln in rs:
                    t = a.e / (1 << lo) if lo else a.e
                    if (a.hi >> lo) >= (1 << ln):
                        t = t % (1 << ln)
                    t = t * (1 << lo) if lo else t
                    e = t if e is None else e + t
                return N(e, 0, min(m, a.hi), tz=rs[0][0])
            return self.fresh('and', n, 0, min(m, a.hi))
        if self.bit(a) is not None and self.bit(b) is not None:
            return self.zext_bool(band(self.bit(a), self.bit(b)))
        if not isinstance(a.e, int) and a.e.eq(b.e):
            return a
        return self.fresh('and', n, 0, min(a.hi, b.hi))

    def or_(self, a, b, n):
        if isinstance(a.e, int):
            a, b = b, a
        if isinstance(a.e, int):
            return self.const(a.e | b.e, n)
        if isinstance(b.e, int):
            if b.e == 0:
                return a
            if b.e == 1 and self.bit(a) is not None:
                return N(1, 1, 1)
            t = self.and_(a, N(b.e, b.e, b.e), n)
            return N(a.e + b.e - t.e, max(a.lo, b.e), min((1 << n) - 1, a.hi + b.e))
        if self.bit(a) is not None and self.bit(b) is not None:
            return self.zext_bool(bor(self.bit(a), self.bit(b)))
        if b.tz and a.hi < (1 << b.tz):
            return N(a.e + b.e, a.lo + b.lo, a.hi + b.hi)
        if a.tz and b.hi < (1 << a.tz):
            return N(a.e + b.e, a.lo + b.lo, a.hi + b.hi)
        h = max(a.hi, b.hi)
        r = self.fresh('or', n, max(a.lo, b.lo), min((1 << n) - 1, (1 << h.bit_length()) - 1))
        self.defs.append(r.e >= a.e)
        self.defs.append(r.e >= b.e)
        self.defs.append(r.e <= a.e + b.e)
        return r

    def xor(self, a, b, n):
        if isinstance(a.e, int):
            a, b = b, a
        if isinstance(a.e, int):
            return self.const(a.e ^ b.e, n)
        if isinstance(b.e, int):
            if b.e == 0:
                return a
            if b.e == (1 << n) - 1:
                return N(b.e - a.e, b.e - a.hi, b.e - a.lo)
            if b.e == 1 and self.bit(a) is not None:
                return self.zext_bool(bnot(self.bit(a)))
            t = self.and_(a, N(b.e, b.e, b.e), n)
            return N(a.e + b.e - 2 * t.e, 0, (1 << n) - 1)
        if a.b is not None and b.b is not None:
            return self.zext_bool(bnot(beq(a.b, b.b)))
        h = max(a.hi, b.hi)
        return self.fresh('xor', n, 0, (1 << h.bit_length()) - 1)

    def shl(self, a, b, n):
        if isinstance(b.e, int):
            if b.e >= n:
                return self.fresh('shl', n)
            if isinstance(a.e, int):
                return self.const(a.e << b.e, n)
            r = self.wrap(a.e * (1 << b.e), a.lo << b.e, a.hi << b.e, n)
            r.tz = b.e
            return r
        if b.hi < n and b.hi <= 8:
            r = None
            for k in range(b.lo, b.hi + 1):
                t = self.shl(a, N(k, k, k), n)
                r = t if r is None else self.ite(b.e == k, t, r, n)
            return r
        if isinstance(a.e, int) and b.hi < 64:
            # power-of-two style constants: 2^b, exact by cases
            r = None
            for k in range(b.lo, min(b.hi, n - 1) + 1):
                t = self.const(a.e << k, n)
                r = t if r is None else self.ite(b.e == k, t, r, n)
            return r
        return self.fresh('shl', n)

    def lshr(self, a, b, n):
        if isinstance(b.e, int):
            if b.e >= n:
                return self.fresh('shr', n)
            if isinstance(a.e, int):
                return self.const(a.e >> b.e, n)
            if b.e == 0:
                return a
            return N(a.e / (1 << b.e), a.lo >> b.e, a.hi >> b.e)
        if b.hi < 64:
            r = None
            for k in range(b.lo, min(b.hi, n - 1) + 1):
                t = self.lshr(a, N(k, k, k), n)
                r = t if r is None else self.ite(b.e == k, t, r, n)
            return r
        return self.fresh('shr', n, 0, a.hi)

    def ashr(self, a, b, n):
        if a.hi < (1 << (n - 1)):
            return self.lshr(a, b, n)
        if isinstance(b.e, int) and b.e < n:
            s = self.signed(a, n)
            if isinstance(s.e, int):
                return self.const(s.e >> b.e, n)
            return self.wrap(s.e / (1 << b.e), s.lo >> b.e, s.hi >> b.e, n)
        return self.fresh('ashr', n)

    def zext_bool(self, b, n=None):
        if b is True:
            return N(1, 1, 1)
        if b is False:
            return N(0, 0, 0)
        return N(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, b=b)

    def zext(self, a, n, m):
        return a

    def sext(self, a, n, m):
        s = self.signed(a, n)
        return self.wrap(s.e, s.lo, s.hi, m)

    def sext_bool(self, b, m):
        if isinstance(b, bool):
            return self.const(-1 if b else 0, m)
        M = (1 << m) - 1
        return N(z3.If(b, z3.IntVal(M), z3.IntVal(0)), 0, M)

    def trunc(self, a, n, m):
        if a.hi < (1 << m):
            return a
        if isinstance(a.e, int):
            return self.const(a.e, m)
        return N(a.e % (1 << m), 0, (1 << m) - 1)

    def trunc_bool(self, a, n):
        if a.b is not None:
            return a.b
        if isinstance(a.e, int):
            return bool(a.e & 1)
        if a.hi <= 1:
            return a.e == 1
        return a.e % 2 == 1

    def ite(self, c, a, b, n):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a.e, int) and isinstance(b.e, int):
            if a.e == b.e:
                return a
        elif not isinstance(a.e, int) and not isinstance(b.e, int) and a.e.eq(b.e):
            return a
        r = N(z3.If(c, zi(a.e), zi(b.e)), min(a.lo, b.lo), max(a.hi, b.hi), tz=min(a.tz, b.tz))
        if self.boolish(a) is not None and self.boolish(b) is not None:
            r.b = bite(c, self.boolish(a), self.boolish(b))
        return r

    def boolish(self, a):
        if a.b is not None:
            return a.b
        if isinstance(a.e, int) and a.e in (0, 1):
            return bool(a.e)
        return None

    def ult_m(self, a, b):
        """mathematical a < b on addresses/offsets"""
        return self._cmp('<', a, b)

    def ule_m(self, a, b):
        return self._cmp('<=', a, b)

    def _cmp(self, op, a, b):
        if op == '<':
            if a.hi < b.lo:
                return True
            if a.lo >= b.hi:
                return False
            r = a.e < b.e
        else:
            if a.hi <= b.lo:
                return True
            if a.lo > b.hi:
                return False
            r = a.e <= b.e
        return r

    def eq(self, a, b, n=64):
        if isinstance(a.e, int) and isinstance(b.e, int):
            return a.e == b.e
        if a.hi < b.lo or b.hi < a.lo:
            return False
        if a.b is not None and isinstance(b.e, int):
            return a.b if b.e == 1 else bnot(a.b)
        if b.b is not None and isinstance(a.e, int):
            return b.b if a.e == 1 else bnot(b.b)
        return zi(a.e) == zi(b.e)

    def cmp(self, p, a, b, n):
        if p == 'eq':
            return self.eq(a, b)
        if p == 'ne':
            return bnot(self.eq(a, b))
        if p[0] == 's':
            a = self.signed(a, n)
            b = self.signed(b, n)
        q = p[1:]
        if q == 'lt':
            return self._cmp('<', a, b)
        if q == 'le':
            return self._cmp('<=', a, b)
        if q == 'gt':
            return self._cmp('<', b, a)
        return self._cmp('<=', b, a)

    def byte(self, a, i, n):
        """byte i of an n-bit value"""
        if isinstance(a.e, int):
            return self.const(a.e >> (8 * i), 8)
        if n == 8:
            return a
        if a.hi < (1 << (8 * i)):
            return N(0, 0, 0)
        e = a.e / (1 << (8 * i)) if i else a.e
        hi = a.hi >> (8 * i)
        if hi > 255:
            return N(e % 256, 0, 255)
        return N(e, 0, hi, b=a.b if i == 0 else None)

    def join(self, bs):
        """little-endian bytes to value"""
        if len(bs) == 1:
            return bs[0]
        e = 0
        lo = hi = 0
        for i, b in enumerate(bs):
            e = b.e * (1 << (8 * i)) + e
            lo += b.lo << (8 * i)
            hi += b.hi << (8 * i)
        return N(e, lo, hi)

    def named(self, name, val, n):
        return val

    def ctpop(self, a, n):
        return self.fresh('ctpop', n, 0, n)

    def clz(self, a, n):
        if isinstance(a.e, int):
            return self.const(n - a.e.bit_length(), n)
        r = self.const(n, n)
        if n <= 64:
            # value = n - bit_length
            e = z3.IntVal(n)
            for k in range(n):
                e = z3.If(a.e >= (1 << k), z3.IntVal(n - 1 - k), e)
            return N(e, 0, n)
        return self.fresh('clz', n, 0, n)

    def cttz(self, a, n):
        return self.fresh('cttz', n, 0, n)


def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e


class BVTh:
    kind = 'bv'

    def __init__(self, defs):
        self.defs = defs
        self.k = 0
        self.Tf = z3.Function('T', z3.BitVecSort(64), z3.BitVecSort(8))

    def mk(self, e, n):
        if isinstance(e, int):
            e &= (1 << n) - 1
            return N(e, e, e)
        if z3.is_bv_value(e):
            v = e.as_long()
            return N(v, v, v)
        return N(e, 0, (1 << n) - 1)

    def x(self, a, n):
        return z3.BitVecVal(a.e, n) if isinstance(a.e, int) else a.e

    def cst(self, v, n):
        return z3.BitVecVal(v, n)

    def fn(self, name, w):
        return z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(w))

    def in_range(self, e, w):
        return None

    def ule(self, a, b):
        return z3.ULE(a, b)

    def ult(self, a, b):
        return z3.ULT(a, b)

    def part(self, e, k, n, g):
        return e if n == g else z3.Extract(8 * (k + n) - 1, 8 * k, e)

    def put(self, old, k, n, g, x):
        parts = []
        if k + n < g:
            parts.append(z3.Extract(8 * g - 1, 8 * (k + n), old))
        parts.append(x)
        if k:
            parts.append(z3.Extract(8 * k - 1, 0, old))
        return z3.Concat(*parts) if len(parts) > 1 else x

    def concat(self, ws, g):
        return z3.Concat(*ws[::-1])

    def num(self, e, n):
        return self.mk(e, n)

    def fresh_off(self, name):
        return self.fresh(name, 64)

    def const(self, c, n):
        return self.mk(c, n)

    def fresh(self, name, n, lo=None, hi=None):
        self.k += 1
        v = z3.BitVec('%s!%d' % (name, self.k), n)
        if lo is not None and lo > 0:
            self.defs.append(z3.UGE(v, lo))
        if hi is not None and hi < (1 << n) - 1:
            self.defs.append(z3.ULE(v, hi))
        r = N(v, 0, (1 << n) - 1)
        if lo is not None:
            r.lo = lo
        if hi is not None:
            r.hi = hi
        return r

    def fresh_bool(self, name):
        self.k += 1
        return z3.Bool('%s!%d' % (name, self.k))

    def is_const(self, a):
        return isinstance(a.e, int)

    def T(self, addr):
        return N(self.Tf(self.x(addr, 64)), 0, 255)

    def addm(self, a, b):
        if isinstance(b, int):
            b = self.const(b, 64)
        return self.add(a, b, 64)

    def subm(self, a, b):
        return self.sub(a, b, 64)

    def mulm(self, a, c):
        return self.mul(a, self.const(c, 64), 64)

    def signed(self, a, n):
        if isinstance(a.e, int) and a.e >> (n - 1):
            # offsets wrap modulo 2^64, so the unsigned form is kept
            return a
        return a

    def _b(self, a, b, n, fi, fz):
        if isinstance(a.e, int) and isinstance(b.e, int):
            r = fi(a.e, b.e)
            if r is not None:
                return self.const(r, n)
        return self.mk(fz(self.x(a, n), self.x(b, n)), n)

    def add(self, a, b, n):
        if isinstance(b.e, int) and b.e == 0:
            return a
        if isinstance(a.e, int) and a.e == 0:
            return b
        r = self._b(a, b, n, lambda x, y: x + y, lambda x, y: x + y)
        if a.hi + b.hi < (1 << n):
            r.hi = min(r.hi, a.hi + b.hi)
            r.lo = max(r.lo, a.lo + b.lo)
        return r

    def sub(self, a, b, n):
        if isinstance(b.e, int) and b.e == 0:
            return a
        r = self._b(a, b, n, lambda x, y: x - y, lambda x, y: x - y)
        if a.lo >= b.hi:
            r.hi = min(r.hi, a.hi - b.lo)
            r.lo = max(r.lo, a.lo - b.hi)
        return r

    def mul(self, a, b, n):
        r = self._b(a, b, n, lambda x, y: x * y, lambda x, y: x * y)
        if a.hi * b.hi < (1 << n):
            r.hi = min(r.hi, a.hi * b.hi)
        return r

    def udiv(self, a, b, n):
        r = self._b(a, b, n, lambda x, y: x // y if y else None, z3.UDiv)
        r.hi = min(r.hi, a.hi // max(1, b.lo))
        return r

    def urem(self, a, b, n):
        r = self._b(a, b, n, lambda x, y: x % y if y else None, z3.URem)
        if b.lo > 0:
            r.hi = min(r.hi, b.hi - 1, a.hi)
        return r

    def sdiv(self, a, b, n):
        def f(x, y):
            if not y:
                return None
            x = x - (1 << n) if x >> (n - 1) else x
            y = y - (1 << n) if y >> (n - 1) else y
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        return self._b(a, b, n, f, lambda x, y: x / y)

    def srem(self, a, b, n):
        def f(x, y):
            if not y:
                return None
            x = x - (1 << n) if x >> (n - 1) else x
            y = y - (1 << n) if y >> (n - 1) else y
            q = abs(x) % abs(y)
            return -q if x < 0 else q
        return self._b(a, b, n, f, z3.SRem)

    def and_(self, a, b, n):
        x, y = self.boolish(a), self.boolish(b)
        if x is not None and y is not None and not (isinstance(x, bool) and isinstance(y, bool)):
            return self.zext_bool(band(x, y), n)
        r = self._b(a, b, n, lambda x, y: x & y, lambda x, y: x & y)
        r.hi = min(r.hi, a.hi, b.hi)
        return r

    def or_(self, a, b, n):
        x, y = self.boolish(a), self.boolish(b)
        if x is not None and y is not None and not (isinstance(x, bool) and isinstance(y, bool)):
            return self.zext_bool(bor(x, y), n)
        r = self._b(a, b, n, lambda x, y: x | y, lambda x, y: x | y)
        r.hi = min(r.hi, (1 << max(a.hi, b.hi).bit_length()) - 1)
        return r

    def xor(self, a, b, n):
        x, y = self.boolish(a), self.boolish(b)
        if x is not None and y is not None and not (isinstance(x, bool) and isinstance(y, bool)):
            return self.zext_bool(bnot(beq(x, y)), n)
        r = self._b(a, b, n, lambda x, y: x ^ y, lambda x, y: x ^ y)
        r.hi = min(r.hi, (1 << max(a.hi, b.hi).bit_length()) - 1)
        return r

    def shl(self, a, b, n):
        return self._b(a, b, n, lambda x, y: x << y if y < n else 0, lambda x, y: x << y)

    def lshr(self, a, b, n):
        r = self._b(a, b, n, lambda x, y: x >> y if y < n else 0, z3.LShR)
        r.hi = min(r.hi, a.hi)
        if isinstance(b.e, int) and b.e < n:
            r.hi = min(r.hi, a.hi >> b.e)
        return r

    def ashr(self, a, b, n):
        def f(x, y):
            x = x - (1 << n) if x >> (n - 1) else x
            return x >> min(y, n)
        return self._b(a, b, n, f, lambda x, y: x >> y)

    def zext_bool(self, b, n=8):
        if b is True:
            return N(1, 1, 1)
        if b is False:
            return N(0, 0, 0)
        return N(z3.If(b, z3.BitVecVal(1, n), z3.BitVecVal(0, n)), 0, 1, b=b)

    def zext(self, a, n, m):
        if isinstance(a.e, int):
            return a
        return N(z3.ZeroExt(m - n, a.e), a.lo, a.hi, b=a.b)

    def sext(self, a, n, m):
        if isinstance(a.e, int):
            return self.const(a.e - (1 << n) if a.e >> (n - 1) else a.e, m)
        if a.hi < (1 << (n - 1)):
            return self.zext(a, n, m)
        return self.mk(z3.SignExt(m - n, a.e), m)

    def sext_bool(self, b, m):
        if isinstance(b, bool):
            return self.const(-1 if b else 0, m)
        return self.mk(z3.If(b, z3.BitVecVal(-1, m), z3.BitVecVal(0, m)), m)

    def trunc(self, a, n, m):
        if isinstance(a.e, int):
            return self.const(a.e, m)
        r = self.mk(z3.simplify(z3.Extract(m - 1, 0, a.e)), m)
        if a.hi < (1 << m):
            r.lo, r.hi, r.b = a.lo, a.hi, a.b
        return r

    def trunc_bool(self, a, n):
        if a.b is not None:
            return a.b
        if isinstance(a.e, int):
            return bool(a.e & 1)
        return z3.Extract(0, 0, a.e) == 1

    def boolish(self, a):
        if a.b is not None:
            return a.b
        if isinstance(a.e, int) and a.e in (0, 1):
            return bool(a.e)
        return None

    def ite(self, c, a, b, n):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a.e, int) and isinstance(b.e, int) and a.e == b.e:
            return a
        r = N(z3.If(c, self.x(a, n), self.x(b, n)), min(a.lo, b.lo), max(a.hi, b.hi))
        if self.boolish(a) is not None and self.boolish(b) is not None:
            r.b = bite(c, self.boolish(a), self.boolish(b))
        return r

    def cmp(self, p, a, b, n):
        if isinstance(a.e, int) and isinstance(b.e, int):
            x, y = a.e, b.e
            if p[0] == 's':
                x = x - (1 << n) if x >> (n - 1) else x
                y = y - (1 << n) if y >> (n - 1) else y
            q = p if p in ('eq', 'ne') else p[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]
        if p in ('eq', 'ne') and a.b is not None and isinstance(b.e, int) and b.e in (0, 1):
            r = a.b if b.e == 1 else bnot(a.b)
            return r if p == 'eq' else bnot(r)
        if p == 'eq' and (a.hi < b.lo or b.hi < a.lo):
            return False
        if p == 'ne' and (a.hi < b.lo or b.hi < a.lo):
            return True
        if p == 'ult':
            if a.hi < b.lo:
                return True
            if a.lo >= b.hi:
                return False
        if p == 'ule' and a.hi <= b.lo:
            return True
        if p == 'ugt':
            if a.lo > b.hi:
                return True
            if a.hi <= b.lo:
                return False
        if p == 'uge' and a.lo >= b.hi:
            return True
        if p == 'uge' and a.hi < b.lo:
            return False
        x, y = self.x(a, n), self.x(b, n)
        if p == 'eq':
            return x == y
        if p == 'ne':
            return x != y
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q,
                'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q}[p](x, y)

    def eq(self, a, b, n=64):
        return self.cmp('eq', a, b, n)

    def ult_m(self, a, b):
        return self.cmp('ult', a, b, 64)

    def ule_m(self, a, b):
        return self.cmp('ule', a, b, 64)

    def byte(self, a, i, n):
        if isinstance(a.e, int):
            return self.const(a.e >> (8 * i), 8)
        if n == 8:
            return a
        if a.hi < (1 << (8 * i)):
            return N(0, 0, 0)
        r = self.mk(z3.simplify(z3.Extract(8 * i + 7, 8 * i, a.e)), 8)
        if a.b is not None and i == 0:
            r.b = a.b
            r.hi = 1
        return r

    def join(self, bs):
        if len(bs) == 1:
            return bs[0]
        if all(isinstance(b.e, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b.e << (8 * i)
            return self.const(v, 8 * len(bs))
        return self.mk(z3.simplify(z3.Concat([self.x(b, 8) for b in reversed(bs)])), 8 * len(bs))

    def clz(self, a, n):
        if isinstance(a.e, int):
            return self.const(n - a.e.bit_length(), n)
        e = z3.BitVecVal(n, n)
        for k in range(n):
            e = z3.If(z3.Extract(k, k, a.e) == 1, z3.BitVecVal(n - 1 - k, n), e)
        return N(e, 0, n)

    def cttz(self, a, n):
        if isinstance(a.e, int):
            return self.const((a.e & -a.e).bit_length() - 1 if a.e else n, n)
        e = z3.BitVecVal(n, n)
        for k in reversed(range(n)):
            e = z3.If(z3.Extract(k, k, a.e) == 1, z3.BitVecVal(k, n), e)
        return N(e, 0, n)

    def ctpop(self, a, n):
        if isinstance(a.e, int):
            return self.const(bin(a.e).count('1'), n)
        e = z3.BitVecVal(0, n)
        for k in range(n):
            e = e + z3.ZeroExt(n - 1, z3.Extract(k, k, a.e))
        return N(e, 0, n)
