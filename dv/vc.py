"""Symbolic semantics of the LLVM IR of /repo: values, memory, calls, and two
drivers over them.

  * Merge driver: one passive verification condition per function; loops are cut
    by invariants or unrolled with an unwinding obligation.
  * Fork driver: exhaustive path exploration of loop-free or finitely bounded
    code; every path is checked, infeasible ones are pruned by the solver.
"""
import heapq
import re
import sys
import time

import networkx as nx
import z3

from . import ir
from .theory import N, band, beq, bimp, bite, bnot, bor, zb

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The code uses something outside the verifier's reach."""


class Restart(Exception):
    pass


# ---- values ------------------------------------------------------------------
class Ptr:
    """region None: absolute address `off` with readable limits [lo, hi)."""
    __slots__ = ('region', 'off', 'lo', 'hi')

    def __init__(self, region, off, lo=None, hi=None):
        self.region = region
        self.off = off
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'Ptr(%s+%r)' % (self.region, self.off)


class Alt:
    """One of several pointers, by condition (last one is the default)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


class Opaque:
    """floating point and other values that are not tracked"""
    __slots__ = ()


class PN(N):
    """integer obtained by ptrtoint"""
    __slots__ = ('p',)


OPAQUE = Opaque()


class Region:
    _n = 0

    def __init__(self, path, kind, typ=None, mod=None, size=None):
        Region._n += 1
        self.id = Region._n
        self.path = path
        self.kind = kind        # arg, deref, alloca, glob, heap, table
        self.type = typ
        self.mod = mod
        self.size = size        # python int, N or None
        self.notes = {}         # offset -> (mod, type) seen in GEPs
        self.base = None
        self.const = None       # constant initialiser
        self.name = None

    @property
    def lazy(self):
        return self.kind in ('arg', 'deref', 'glob')

    def __repr__(self):
        return 'R%s' % (self.path,)


class Rec:
    __slots__ = ('reach', 'mem', 'phis', 'src')

    def __init__(self, reach, mem, phis, src):
        self.reach = reach
        self.mem = mem
        self.phis = phis
        self.src = src


class State:
    __slots__ = ('mem', 'reach')

    def __init__(self, mem, reach):
        self.mem = mem
        self.reach = reach


class Ob:
    __slots__ = ('reach', 'fact', 'kind', 'where', 'name', 'ndefs', 'extra')

    def __init__(self, reach, fact, kind, where, name):
        self.reach = reach
        self.fact = fact
        self.kind = kind
        self.where = where
        self.name = name
        self.extra = None


# ---- program -------------------------------------------------------------------
class Prog:
    def __init__(self):
        self.mods = []
        self.index = {}
        self.gindex = {}
        self.dem = {}
        self.funcmod = {}

    def add(self, m, tag):
        m.tag = tag
        self.mods.append(m)
        for f in m.funcs.values():
            f.mod = m
            f.cfg = None
            if f.name not in self.index:
                self.index[f.name] = f
        for g in m.globals.values():
            g.mod = m
            if g.init is not None and g.name not in self.gindex:
                self.gindex[g.name] = g

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.index.get(name)

    def glob(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.init is not None:
            return g
        return self.gindex.get(name, g)


class Loop:
    __slots__ = ('header', 'body', 'parent', 'depth', 'latches')


def cfg(F):
    """rpo numbers, loop nest, post-processing of a function"""
    if F.cfg is not None:
        return F.cfg
    order = []
    seen = set()
    st = [(F.entry, iter(F.blocks[F.entry].succs))]
    seen.add(F.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(F.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    # dominators
    idom = {F.entry: F.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in F.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while rpo[x] > rpo[y]:
                                x = idom[x]
                            while rpo[y] > rpo[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while rpo[b] > rpo[a]:
            b = idom[b]
        return a == b
    loops = {}
    for b in order:
        for s in F.blocks[b].succs:
            if rpo[s] <= rpo[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible control flow in ' + F.name)
                L = loops.get(s)
                if L is None:
                    L = loops[s] = Loop()
                    L.header = s
                    L.body = {s}
                    L.latches = []
                L.latches.append(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x not in L.body:
                        L.body.add(x)
                        w.extend(F.blocks[x].preds)
    inner = {}
    hs = sorted(loops, key=lambda h: len(loops[h].body), reverse=True)
    for h in hs:
        loops[h].parent = None
        for g in hs:
            if g != h and h in loops[g].body and len(loops[g].body) > len(loops[h].body):
                loops[h].parent = g
        for b in loops[h].body:
            inner[b] = h
    chain = {}
    for b in order:
        c = []
        h = inner.get(b)
        while h is not None:
            c.append(h)
            h = loops[h].parent
        chain[b] = tuple(reversed(c))
    F.cfg = (order, rpo, loops, chain)
    return F.cfg


UID = [0]


class Exec:
    """Instruction semantics shared by both drivers."""

    def __init__(self, prog, th, defs, hooks=None, opts=None):
        self.prog = prog
        self.th = th
        self.defs = defs
        self.hooks = hooks
        self.opts = opts or {}
        self.entry = {}       # region id -> {off: (size, val)}
        self.regions = {}     # path -> Region
        self.obs = []
        self.fn_addr = {}
        self.calls_seen = {}
        self.const_cache = {}
        self.inst_count = 0
        self.fresh_n = 0
        self.depth = 0

    # -- obligations ------------------------------------------------------------
    def oblige(self, st, fact, kind, where, detail=''):
        """assert fact, then continue under it"""
        if fact is True:
            self.stat_trivial = getattr(self, 'stat_trivial', 0) + 1
            return
        o = Ob(st.reach, fact, kind, where, detail)
        self.obs.append(o)
        self.on_oblige(o)
        st.reach = self.conj(st.reach, fact)

    def on_oblige(self, o):
        pass

    def conj(self, r, f):
        return band(r, f)

    def assume(self, st, fact):
        if fact is True:
            return
        st.reach = self.conj(st.reach, fact)

    # -- regions ------------------------------------------------------------------
    def region(self, path, kind, typ=None, mod=None, size=None):
        r = self.regions.get(path)
        if r is None:
            if size is None and typ is not None and kind != 'arg' and kind != 'deref':
                size = mod.sizeof(typ)
            r = self.regions[path] = Region(path, kind, typ, mod, size)
        return r

    def base_of(self, r):
        if r.base is None:
            v = self.th.fresh('base_' + str(r.path[-1])[:20].replace('!', '_'), 64, 1 << 20, (1 << 60))
            r.base = v
        return r.base

    def addr_of(self, p):
        """absolute address as N"""
        if p.region is None:
            return p.off
        return self.th.addm(self.base_of(p.region), p.off)

    def limits(self, p):
        if p.region is None:
            return p.lo, p.hi
        b = self.base_of(p.region)
        s = p.region.size
        if s is None:
            return b, None
        if isinstance(s, int):
            return b, self.th.addm(b, s)
        return b, self.th.addm(b, s)

    def generic(self, p):
        if isinstance(p, Alt):
            r = self.generic(p.alts[-1][1])
            for c, q in reversed(p.alts[:-1]):
                r = self.merge_ptr(c, self.generic(q), r)
            return r
        if p.region is None:
            return p
        lo, hi = self.limits(p)
        r = p.region
        if r.kind == 'glob' and r.const is not None and r.size is not None and r.size <= 64:
            self.reveal(r)
        return Ptr(None, self.addr_of(p), lo, hi)

    def reveal(self, r):
        """constant bytes become facts about T"""
        if getattr(r, 'revealed', False):
            return
        r.revealed = True
        try:
            bs = self.const_bytes(r)
        except Unsupported:
            return
        b = self.base_of(r)
        for i, c in enumerate(bs):
            t = self.th.T(self.th.addm(b, i))
            self.defs.append(self.th.eq(t, self.th.const(c, 8)))

    def const_bytes(self, r):
        g = r.const

        def go(t, v):
            t = g.mod.res(t)
            if v[0] == 'str':
                return list(v[1])
            if v[0] == 'zero':
                return [0] * g.mod.sizeof(t)
            if v[0] == 'c':
                n = g.mod.sizeof(t)
                return [(v[1] >> (8 * i)) & 255 for i in range(n)]
            if v[0] == 'agg' and t[0] == 'arr':
                out = []
                for et, ev in v[1]:
                    out += go(et, ev)
                return out
            raise Unsupported('constant bytes')
        return go(g.type, g.init)

    # -- constants -------------------------------------------------------------------
    def global_ptr(self, mod, name):
        f = self.prog.lookup(mod, name)
        if f is not None or (name in mod.decls):
            return Fn(name)
        g = self.prog.glob(mod, name)
        if g is None:
            raise Unsupported('global ' + name)
        if g.init is not None and g.init[0] == 'alias':
            return self.value(g.mod, None, g.init[1])
        path = ('glob', g.mod.tag if g.init is not None and name in mod.globals else '', name)
        r = self.regions.get(path)
        if r is None:
            r = self.region(path, 'glob', g.type, g.mod)
            if g.const and g.init is not None:
                r.const = g
        return Ptr(r, self.th.const(0, 64))

    def value(self, mod, env, tv):
        t, v = tv
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'c':
            t = mod.res(t)
            if t[1] == 1:
                return bool(v[1])
            return self.th.const(v[1], t[1])
        if k == 'g':
            return self.global_ptr(mod, v[1])
        if k == 'null':
            return self.null()
        if k in ('undef', 'poison', 'zero'):
            return self.zero(mod, mod.res(t), k)
        if k == 'gep':
            b = self.value(mod, env, v[2][0])
            return self.gep(mod, b, v[1], v[2][1:], env)
        if k == 'cast':
            x = self.value(mod, env, (v[2], v[3]))
            return self.cast(mod, v[1], v[2], x, v[4])
        if k == 'cop':
            a = [self.value(mod, env, o) for o in v[3]]
            n = mod.res(v[3][0][0])
            if v[1] == 'icmp':
                return self.icmp(mod, v[2], v[3][0][0], a[0], a[1])
            return self.binop(mod, v[1], n, a[0], a[1], set())
        if k == 'agg':
            return Agg([self.value(mod, env, e) for e in v[1]])
        if k == 'fp':
            return OPAQUE
        if k == 'str':
            return Agg([self.th.const(c, 8) for c in v[1]])
        raise Unsupported('value %r' % (v,))

    def null(self):
        z = self.th.const(0, 64)
        return Ptr(None, z, z, z)

    def zero(self, mod, t, k='zero'):
        t = mod.res(t)
        if t[0] == 'i':
            if t[1] == 1:
                return False
            if k != 'zero':
                return self.th.const(0, t[1])
            return self.th.const(0, t[1])
        if t[0] == 'ptr':
            return self.null()
        if t[0] == 'struct':
            return Agg([self.zero(mod, x, k) for x in t[1]])
        if t[0] == 'arr':
            return Agg([self.zero(mod, t[2], k) for _ in range(t[1])])
        if t[0] == 'fp':
            return OPAQUE
        raise Unsupported('zero %r' % (t,))

    # -- pointer arithmetic ------------------------------------------------------------
    def idx(self, v, n):
        """index as signed mathematical N"""
        if isinstance(v.e, int):
            e = v.e - (1 << n) if v.e >> (n - 1) else v.e
            return e
        return self.th.signed(v, n) if self.th.kind == 'int' else self.th.sext(v, n, 64) if n < 64 else v

    def gep(self, mod, b, st, idxs, env):
        if isinstance(b, Alt):
            return Alt([(c, self.gep(mod, p, st, idxs, env)) for c, p in b.alts])
        if isinstance(b, Fn):
            raise Unsupported('gep on function')
        off = b.off
        if b.region is not None and isinstance(off.e, int):
            st_r = st if st[0] == 'named' else None
            if st_r is not None:
                b.region.notes.setdefault(off.e, (mod, st))
        add = 0
        t = st
        terms = []
        for j, (it, iv) in enumerate(idxs):
            x = self.value(mod, env, (it, iv)) if iv[0] != 'c' else None
            n = mod.res(it)[1]
            if x is None:
                c = iv[1]
                c = c - (1 << n) if c >> (n - 1) else c
            else:
                c = self.idx(x, n)
            if j == 0:
                s = mod.sizeof(t)
                if isinstance(c, int):
                    add += c * s
                else:
                    terms.append(self.th.mulm(c, s))
            else:
                t = mod.res(t)
                if t[0] == 'struct':
                    if not isinstance(c, int):
                        raise Unsupported('symbolic struct index')
                    add += mod.field_off(t, c)
                    t = t[1][c]
                else:
                    t = t[2]
                    s = mod.sizeof(t)
                    if isinstance(c, int):
                        add += c * s
                    else:
                        terms.append(self.th.mulm(c, s))
        o = off
        for x in terms:
            o = self.th.addm(o, x)
        if add:
            o = self.th.addm(o, add)
        return Ptr(b.region, o, b.lo, b.hi)

    # -- memory -----------------------------------------------------------------------------
    def leaf_at(self, r, off):
        """(leaf offset, size, llvm type, mod, tag) at byte offset"""
        cands = []
        if r.type is not None:
            cands.append((0, (r.mod, r.type)))
        for o, mt in r.notes.items():
            cands.append((o, mt))
        best = None
        for o, (m, t) in cands:
            sz = m.sizeof(t)
            if o <= off < o + sz:
                l = leaf_in(m, t, off - o)
                if l is not None:
                    l = (l[0] + o, l[1], l[2], m, l[3] + o if l[3] is not None else None)
                    if best is None or (best[4] is None and l[4] is not None):
                        best = l
        return best

    def entry_cell(self, r, off, size, want_ptr):
        """materialise the initial contents of a lazily known region"""
        ec = self.entry.setdefault(r.id, {})
        if r.const is not None:
            return self.const_cell(r, off, size)
        leaf = self.leaf_at(r, off)
        if leaf is not None:
            lo, ls, lt, m, view = leaf
            if lo in ec:
                return lo, ec[lo]
            if view is not None:
                self.make_view_cells(r, view, ec)
                if lo in ec:
                    return lo, ec[lo]
            v = self.entry_value(r, lo, m.res(lt), ls)
            ec[lo] = (ls, v)
            self.note_entry(r, lo)
            return lo, ec[lo]
        if want_ptr:
            v = self.entry_value(r, off, ('ptr',), 8)
            ec[off] = (8, v)
            self.note_entry(r, off)
            return off, ec[off]
        v = self.entry_value(r, off, ('i', 8 * size), size)
        ec[off] = (size, v)
        self.note_entry(r, off)
        return off, ec[off]

    def note_entry(self, r, off):
        pass

    def cname(self, r, off):
        return pathname(r.path) + '.%d' % off

    def entry_value(self, r, off, t, size):
        if r.kind == 'glob' and r.const is None:
            nm = 'glob'
        nm = self.cname(r, off)
        if t[0] == 'i':
            if t[1] == 1:
                return self.th.zext_bool(self.th.fresh_bool(nm), 8)
            return self.th.fresh(nm, 8 * size)
        if t[0] == 'ptr':
            return self.entry_ptr(r, off)
        if t[0] == 'fp':
            return OPAQUE
        raise Unsupported('entry cell of type %r' % (t,))

    def entry_ptr(self, r, off):
        q = self.region(('deref', r.path, off), 'deref')
        return Ptr(q, self.th.const(0, 64))

    def make_view_cells(self, r, off, ec):
        n, p = self.fresh_view(self.cname(r, off))
        ec[off] = (8, n)
        ec[off + 8] = (8, p)
        self.note_entry(r, off)
        self.note_entry(r, off + 8)

    MAXLEN = 1 << 60

    def fresh_view(self, nm):
        n = self.th.fresh(nm + '.len', 64, 0, self.MAXLEN)
        a = self.th.fresh(nm + '.ptr', 64, 0, self.MAXLEN)
        return n, Ptr(None, a, a, self.th.addm(a, n))

    def const_cell(self, r, off, size):
        g = r.const
        got = const_leaf(g.mod, g.type, g.init, off)
        if got is None:
            raise Unsupported('constant %s at %d' % (r.path, off))
        lo, t, v = got
        key = (r.id, lo)
        x = self.const_cache.get(key)
        if x is None:
            x = self.value(g.mod, None, (t, v))
            if isinstance(x, bool):
                x = self.th.const(int(x), 8)
            x = self.const_cache[key] = (g.mod.sizeof(t), x)
        return lo, x

    def find_cell(self, st, r, off):
        """cell covering byte off: (cell offset, size, val) or None"""
        m = st.mem
        rid = r.id
        for d in range(0, 16):
            c = m.get((rid, off - d))
            if c is not None and c[0] > d:
                return off - d, c
        return None

    def has_overlap(self, st, r, off, n):
        m = st.mem
        rid = r.id
        for o in range(off - 15, off + n):
            c = m.get((rid, o))
            if c is not None and o + c[0] > off:
                return True
        return False

    def load_at(self, st, r, off, n, want_ptr, where):
        c = st.mem.get((r.id, off))
        if c is not None and c[0] == n:
            v = c[1]
            if want_ptr == isinstance(v, (Ptr, Fn, Alt)):
                return v
            return self.convert(v, want_ptr, n)
        if c is None and not self.has_overlap(st, r, off, n):
            if r.lazy:
                ec = self.entry.get(r.id)
                e = ec.get(off) if ec else None
                if e is None:
                    lo, e = self.entry_cell(r, off, n, want_ptr)
                else:
                    lo = off
                if lo == off and e[0] == n:
                    v = e[1]
                    if want_ptr == isinstance(v, (Ptr, Fn, Alt)):
                        return v
                    return self.convert(v, want_ptr, n)
            else:
                v = self.uninit(r, off, n, want_ptr)
                st.mem[(r.id, off)] = (n, v)
                return v
        if want_ptr:
            raise Unsupported('partial pointer load %s+%d (%s)' % (r, off, where))
        bs = []
        for i in range(n):
            bs.append(self.load_byte(st, r, off + i))
        return self.th.join(bs)

    def load_byte(self, st, r, o):
        f = self.find_cell(st, r, o)
        if f is None:
            if not r.lazy:
                v = self.uninit(r, o, 1, False)
                st.mem[(r.id, o)] = (1, v)
                return v
            ec = self.entry.setdefault(r.id, {})
            for d in range(0, 16):
                c = ec.get(o - d)
                if c is not None and c[0] > d:
                    f = (o - d, c)
                    break
            else:
                f = self.entry_cell(r, o, 1, False)
        lo, (sz, v) = f
        if not isinstance(v, N):
            raise Unsupported('byte of %r at %s+%d' % (v, r, o))
        return self.th.byte(v, o - lo, 8 * sz)

    def convert(self, v, want_ptr, n):
        if want_ptr and isinstance(v, N):
            if isinstance(v.e, int) and v.e == 0:
                return self.null()
            if isinstance(v, PN):
                return v.p
        if not want_ptr and isinstance(v, Ptr):
            return self.ptrtoint(v)
        if v is OPAQUE:
            return self.th.fresh('fpbits', 8 * n)
        raise Unsupported('convert %r to %s' % (v, 'ptr' if want_ptr else 'int'))

    def uninit(self, r, off, n, want_ptr):
        if want_ptr:
            x = self.th.fresh('uninit', 64, 0, self.MAXLEN)
            return Ptr(None, x, x, x)
        return self.th.fresh('uninit', 8 * n)

    def store_at(self, st, r, off, n, v):
        if r.const is not None:
            raise Unsupported('store to constant')
        m = st.mem
        k = (r.id, off)
        c = m.get(k)
        if c is not None and c[0] == n:
            m[k] = (n, v)
            return
        rid = r.id
        # split overlapped cells
        for o in range(off - 15, off + n):
            c = m.get((rid, o))
            if c is not None and o + c[0] > off:
                self.split(st, r, o, off, n)
        if r.lazy:
            # partially covered initial cells must be materialised so bytes outside the store survive
            ec = self.entry.get(rid)
            if ec:
                for o in range(off - 15, off + n):
                    c = ec.get(o)
                    if c is not None and o + c[0] > off and (o < off or o + c[0] > off + n):
                        if (rid, o) not in m and isinstance(c[1], N):
                            for b in range(o, o + c[0]):
                                if (b < off or b >= off + n) and (rid, b) not in m and self.find_cell(st, r, b) is None:
                                    m[(rid, b)] = (1, self.th.byte(c[1], b - o, 8 * c[0]))
            leaf = self.leaf_at(r, off)
            if leaf is not None and n < leaf[1] and isinstance(self.entry_cell(r, off, n, False)[1][1], N):
                lo, (ls, v0) = self.entry_cell(r, off, n, False)
                for b in range(lo, lo + ls):
                    if (b < off or b >= off + n) and self.find_cell(st, r, b) is None:
                        m[(rid, b)] = (1, self.th.byte(v0, b - lo, 8 * ls))
        m[k] = (n, v)

    def split(self, st, r, o, off, n):
        m = st.mem
        sz, v = m.pop((r.id, o))
        if o >= off and o + sz <= off + n:
            return
        if not isinstance(v, N):
            return  # partially overwritten pointer: contents become unknown
        for b in range(o, o + sz):
            if b < off or b >= off + n:
                m[(r.id, b)] = (1, self.th.byte(v, b - o, 8 * sz))

    def sizet(self, mod, t):
        return mod.sizeof(t)

    def load(self, st, mod, p, t, where):
        t = mod.res(t)
        if isinstance(p, Alt):
            r = None
            for c, q in reversed(p.alts):
                v = self.load(st, mod, q, t, where)
                r = v if r is None else self.merge_val(c, v, r, t)
            return r
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if t[0] in ('struct', 'arr'):
            if t[0] == 'struct':
                return Agg([self.load(st, mod, self.padd(p, mod.field_off(t, i)), f, where) for i, f in enumerate(t[1])])
            s = mod.sizeof(t[2])
            return Agg([self.load(st, mod, self.padd(p, i * s), t[2], where) for i in range(t[1])])
        n = mod.sizeof(t)
        if p.region is None:
            return self.load_text(st, p, t, n, where)
        h = self.hooks.load(self, st, p, t, n, where) if self.hooks else None
        if h is not None:
            return h
        r = p.region
        want = t[0] == 'ptr'
        if not isinstance(p.off.e, int):
            v = self.load_sym(st, r, p, t, n, where)
        else:
            if r.size is not None:
                self.check_bounds(st, r, p.off, n, where)
            v = self.load_at(st, r, p.off.e, n, want, where)
        return self.from_cell(v, t, n)

    def from_cell(self, v, t, n):
        if t[0] == 'i':
            if t[1] == 1:
                return self.th.trunc_bool(v, 8) if isinstance(v, N) else v
            if t[1] != 8 * n and isinstance(v, N):
                return self.th.trunc(v, 8 * n, t[1])
        if t[0] == 'fp':
            return OPAQUE
        return v

    def check_bounds(self, st, r, off, n, where):
        s = r.size
        if isinstance(s, int):
            if isinstance(off.e, int):
                if 0 <= off.e and off.e + n <= s:
                    return
                self.oblige(st, False, 'bounds', where, 'object access')
                return
            f = band(self.th.ule_m(self.th.const(0, 64), off) if self.th.kind == 'int' else True,
                     self.th.ule_m(off, self.th.const(s - n, 64)) if s >= n else False)
        else:
            f = band(self.th.ule_m(self.th.const(0, 64), off) if self.th.kind == 'int' else self.th.ult_m(off, s),
                     self.th.ule_m(self.th.addm(off, n), s))
        self.oblige(st, f, 'bounds', where, 'object access')

    def load_text(self, st, p, t, n, where):
        if t[0] != 'i':
            raise Unsupported('load of %r from text (%s)' % (t, where))
        self.text_bounds(st, p, n, where)
        bs = [self.th.T(self.th.addm(p.off, i)) for i in range(n)]
        v = self.th.join(bs) if n > 1 else bs[0]
        return self.from_cell(v, t, n)

    def text_bounds(self, st, p, n, where):
        if p.lo is None or p.hi is None:
            raise Unsupported('pointer with unknown limits (%s)' % where)
        f = band(self.th.ule_m(p.lo, p.off), self.th.ule_m(self.th.addm(p.off, n), p.hi))
        self.oblige(st, f, 'text', where, 'character access')

    def stride(self, r, off, n):
        return max(1, 1 << off.tz) if off.tz else n

    def load_sym(self, st, r, p, t, n, where):
        self.check_bounds(st, r, p.off, n, where)
        off = self.concretize(st, p.off)
        if off is not None:
            return self.load_at(st, r, off, n, t[0] == 'ptr', where)
        if r.const is not None and isinstance(r.size, int):
            return self.load_table(st, r, p.off, t, n, where)
        return self.load_array(st, r, p.off, t, n, where)

    def concretize(self, st, off):
        return None

    def load_table(self, st, r, off, t, n, where):
        raise Unsupported('symbolic index into constant table %s (%s)' % (r, where))

    def load_array(self, st, r, off, t, n, where):
        raise Unsupported('symbolic index into %s (%s)' % (r, where))

    def padd(self, p, c):
        if c == 0:
            return p
        if isinstance(p, Alt):
            return Alt([(k, self.padd(q, c)) for k, q in p.alts])
        return Ptr(p.region, self.th.addm(p.off, c), p.lo, p.hi)

    def store(self, st, mod, p, t, v, where):
        t = mod.res(t)
        if isinstance(p, Alt):
            prev = []
            for c, q in p.alts:
                cond = band(c, *[bnot(x) for x in prev])
                if c is not True:
                    prev.append(c)
                old = self.load(st, mod, q, t, where)
                self.store(st, mod, q, t, self.merge_val(cond, v, old, t), where)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if t[0] in ('struct', 'arr'):
            for i, x in enumerate(v.vals):
                if t[0] == 'struct':
                    self.store(st, mod, self.padd(p, mod.field_off(t, i)), t[1][i], x, where)
                else:
                    self.store(st, mod, self.padd(p, i * mod.sizeof(t[2])), t[2], x, where)
            return
        n = mod.sizeof(t)
        if t[0] == 'i' and t[1] == 1:
            v = self.th.zext_bool(v, 8)
        elif t[0] == 'i' and t[1] != 8 * n and isinstance(v, N):
            v = self.th.zext(v, t[1], 8 * n)
        if self.hooks and self.hooks.store(self, st, p, t, n, v, where):
            return
        if p.region is None:
            raise Unsupported('store to text (%s)' % where)
        r = p.region
        if not isinstance(p.off.e, int):
            self.check_bounds(st, r, p.off, n, where)
            off = self.concretize(st, p.off)
            if off is None:
                return self.store_sym(st, r, p.off, t, n, v, where)
        else:
            off = p.off.e
            if r.size is not None:
                self.check_bounds(st, r, p.off, n, where)
        self.store_at(st, r, off, n, v)

    def store_sym(self, st, r, off, t, n, v, where):
        raise Unsupported('store at symbolic index in %s (%s)' % (r, where))

    # -- merging ------------------------------------------------------------------------------
    def merge_ptr(self, c, a, b):
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.region is b.region:
                if a.region is None:
                    return Ptr(None, self.mi(c, a.off, b.off), self.mi(c, a.lo, b.lo), self.mi(c, a.hi, b.hi))
                return Ptr(a.region, self.mi(c, a.off, b.off))
            ta = a.region is None and not self.is_null(a)
            tb = b.region is None and not self.is_null(b)
            if (ta or tb) and self.textish(a) and self.textish(b):
                return self.merge_ptr(c, self.generic(a), self.generic(b))
        al = []
        for k, p in (a.alts if isinstance(a, Alt) else [(True, a)]):
            al.append((band(c, k), p))
        for k, p in (b.alts if isinstance(b, Alt) else [(True, b)]):
            al.append((k, p))
        return Alt(al)

    def textish(self, p):
        if p.region is None:
            return True
        return p.region.kind == 'glob' and p.region.type is not None and p.region.type[0] == 'arr' \
            and p.region.type[2] == ('i', 8)

    def is_null(self, p):
        return isinstance(p, Ptr) and p.region is None and isinstance(p.off.e, int) and p.off.e == 0

    def mi(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return None
        return self.named(self.th.ite(c, a, b, 64))

    def named(self, v):
        return v

    def merge_val(self, c, a, b, t=None, n=None):
        if a is b:
            return a
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
            return self.named_bool(bite(c, a, b))
        if isinstance(a, N) and isinstance(b, N):
            if n is None:
                n = t[1] if t is not None and t[0] == 'i' else 64
            return self.named(self.th.ite(c, a, b, n))
        if isinstance(a, Agg):
            return Agg([self.merge_val(c, x, y) for x, y in zip(a.vals, b.vals)])
        if a is OPAQUE or b is OPAQUE:
            return OPAQUE
        if isinstance(a, (Ptr, Alt, Fn)) and isinstance(b, (Ptr, Alt, Fn)):
            return self.merge_ptr(c, a, b)
        if isinstance(a, N) and isinstance(b, Ptr):
            return self.merge_val(c, self.convert(a, True, 8), b, t, n)
        if isinstance(b, N) and isinstance(a, Ptr):
            return self.merge_val(c, a, self.convert(b, True, 8), t, n)
        raise Unsupported('merge %r %r' % (a, b))

    def named_bool(self, b):
        return b

    # -- scalar operations ----------------------------------------------------------------------
    def binop(self, mod, op, t, a, b, fl):
        if t[0] == 'fp' or op[0] == 'f':
            return OPAQUE
        n = t[1]
        if n == 1:
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bnot(beq(a, b))
            if op == 'mul':
                return band(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PN) and isinstance(b, PN) and op == 'sub':
            d = self.ptr_diff(a.p, b.p)
            if d is not None:
                return d
        th = self.th
        if op == 'add':
            return th.add(a, b, n)
        if op == 'sub':
            return th.sub(a, b, n)
        if op == 'mul':
            return th.mul(a, b, n)
        if op == 'and':
            return th.and_(a, b, n)
        if op == 'or':
            return th.or_(a, b, n)
        return getattr(th, op)(a, b, n)

    def ptr_diff(self, p, q):
        if p.region is q.region and p.region is not None:
            d = self.th.subm(p.off, q.off)
        elif p.region is None and q.region is None:
            d = self.th.subm(p.off, q.off)
        else:
            return None
        if self.th.kind == 'int':
            return self.th.wrap(d.e, d.lo, d.hi, 64)
        return d

    def ptrtoint(self, p):
        if isinstance(p, Alt):
            p = self.generic(p)
        if isinstance(p, Fn):
            p = Ptr(self.region(('fn', p.name), 'fn'), self.th.const(0, 64))
        a = self.addr_of(p)
        r = PN(a.e, max(a.lo, 0), a.hi)
        r.p = p
        return r

    def cast(self, mod, op, st, x, dt):
        st = mod.res(st)
        dt = mod.res(dt)
        th = self.th
        if op == 'zext':
            if st[1] == 1:
                return th.zext_bool(x, dt[1])
            return th.zext(x, st[1], dt[1])
        if op == 'sext':
            if st[1] == 1:
                return th.sext_bool(x, dt[1])
            return th.sext(x, st[1], dt[1])
        if op == 'trunc':
            if dt[1] == 1:
                return th.trunc_bool(x, st[1])
            return th.trunc(x, st[1], dt[1])
        if op == 'ptrtoint':
            return self.ptrtoint(x)
        if op == 'inttoptr':
            return self.convert(x, True, 8)
        if op == 'bitcast':
            if dt[0] == 'fp' or st[0] == 'fp':
                return OPAQUE if dt[0] == 'fp' else th.fresh('fpbits', dt[1])
            return x
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return OPAQUE
        if op in ('fptosi', 'fptoui'):
            return th.fresh('fptoint', dt[1])
        raise Unsupported('cast ' + op)

    def icmp(self, mod, p, t, a, b):
        t = mod.res(t)
        if t[0] == 'ptr':
            return self.pcmp(p, a, b)
        n = t[1]
        if n == 1:
            if p == 'eq':
                return beq(a, b)
            if p == 'ne':
                return bnot(beq(a, b))
            if p == 'ugt':
                return band(a, bnot(b))
            if p == 'ult':
                return band(b, bnot(a))
            if p == 'uge':
                return bor(a, bnot(b))
            if p == 'ule':
                return bor(b, bnot(a))
            raise Unsupported('i1 icmp ' + p)
        return self.th.cmp(p, a, b, n)

    def pcmp(self, pred, a, b):
        th = self.th
        if isinstance(a, Alt) or isinstance(b, Alt):
            if isinstance(a, Alt):
                r = None
                for c, q in reversed(a.alts):
                    v = self.pcmp(pred, q, b)
                    r = v if r is None else bite(c, v, r)
                return r
            r = None
            for c, q in reversed(b.alts):
                v = self.pcmp(pred, a, q)
                r = v if r is None else bite(c, v, r)
            return r
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if isinstance(a, Fn) and isinstance(b, Fn) or self.is_null(a) or self.is_null(b):
                if pred == 'eq':
                    return same
                if pred == 'ne':
                    return not same
            raise Unsupported('function pointer compare')
        if a.region is not b.region:
            if a.region is not None and b.region is not None or self.is_null(a) or self.is_null(b):
                if (a.region is not None or self.is_null(a)) and (b.region is not None or self.is_null(b)):
                    if pred == 'eq':
                        return False
                    if pred == 'ne':
                        return True
            x, y = self.addr_of(a), self.addr_of(b)
        else:
            x, y = a.off, b.off
        if th.kind == 'int':
            q = pred if pred in ('eq', 'ne') else pred[1:]
            if q == 'eq':
                return th.eq(x, y)
            if q == 'ne':
                return bnot(th.eq(x, y))
            return {'lt': lambda: th.ult_m(x, y), 'le': lambda: th.ule_m(x, y),
                    'gt': lambda: th.ult_m(y, x), 'ge': lambda: th.ule_m(y, x)}[q]()
        return th.cmp(pred, x, y, 64)

    def fcmp(self):
        return self.th.fresh_bool('fcmp')

    # -- simple instructions -----------------------------------------------------------------------
    def simple(self, fr, st, I):
        """instructions without control flow or calls; returns value"""
        mod = fr.mod
        env = fr.env
        op = I.op
        val = self.value
        if op == 'load':
            return self.load(st, mod, val(mod, env, I.a[0]), I.ty, fr.where(I))
        if op == 'store':
            self.store(st, mod, val(mod, env, I.a[1]), I.a[0][0], val(mod, env, I.a[0]), fr.where(I))
            return None
        if op == 'getelementptr':
            return self.gep(mod, val(mod, env, I.a[0]), I.x, I.a[1:], env)
        if op == 'icmp':
            return self.icmp(mod, I.x, I.a[0][0], val(mod, env, I.a[0]), val(mod, env, I.a[1]))
        if op in ir.OPS2:
            return self.binop(mod, op, mod.res(I.ty), val(mod, env, I.a[0]), val(mod, env, I.a[1]), I.x)
        if op in ir.CASTS:
            return self.cast(mod, op, I.a[0][0], val(mod, env, I.a[0]), I.ty)
        if op == 'select':
            c = val(mod, env, I.a[0])
            a = val(mod, env, I.a[1])
            b = val(mod, env, I.a[2])
            if c is True:
                return a
            if c is False:
                return b
            return self.merge_val(c, a, b, mod.res(I.ty))
        if op == 'alloca':
            path = ('alloca', fr.name, I.res, fr.uid)
            r = self.regions.get(path)
            if r is None:
                if I.a and not (I.a[0][1][0] == 'c' and I.a[0][1][1] == 1):
                    raise Unsupported('variable-size alloca')
                r = self.region(path, 'alloca', I.x, mod)
                r.name = I.res
            return Ptr(r, self.th.const(0, 64))
        if op == 'extractvalue':
            v = val(mod, env, I.a[0])
            for i in I.x:
                v = v.vals[i]
            return v
        if op == 'insertvalue':
            v = val(mod, env, I.a[0])
            x = val(mod, env, I.a[1])
            return self.insert(v, I.x, x)
        if op == 'freeze':
            return val(mod, env, I.a[0])
        if op == 'fcmp':
            return self.fcmp()
        if op == 'fneg':
            return OPAQUE
        if op == 'fence':
            return None
        raise Unsupported('instruction ' + op)

    def insert(self, v, path, x):
        vals = list(v.vals)
        if len(path) == 1:
            vals[path[0]] = x
        else:
            vals[path[0]] = self.insert(vals[path[0]], path[1:], x)
        return Agg(vals)

    # -- intrinsics ---------------------------------------------------------------------------------
    def intrinsic(self, fr, st, I, name, args):
        """returns (handled, value)"""
        th = self.th
        if name.startswith('llvm.'):
            b = name.split('.')
            k = b[1]
            if k in ('lifetime', 'dbg', 'experimental', 'invariant', 'donothing', 'var', 'stacksave', 'stackrestore',
                     'prefetch', 'va_start', 'va_end', 'annotation', 'sideeffect'):
                if k == 'stacksave':
                    return True, self.null()
                return True, None
            if k == 'assume':
                self.oblige(st, args[0], 'assume', fr.where(I), 'llvm.assume')
                return True, None
            if k == 'expect':
                return True, args[0]
            if k in ('trap', 'debugtrap', 'ubsantrap'):
                self.oblige(st, False, 'trap', fr.where(I), k)
                return True, None
            if k in ('memcpy', 'memmove'):
                self.memcpy(fr, st, I, args[0], args[1], args[2])
                return True, None
            if k == 'memset':
                self.memset(fr, st, I, args[0], args[1], args[2])
                return True, None
            if k in ('umin', 'umax', 'smin', 'smax'):
                n = fr.mod.res(I.ty)[1]
                p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
                return True, self.merge_val(th.cmp(p, args[0], args[1], n), args[0], args[1], ('i', n))
            if k == 'abs':
                n = fr.mod.res(I.ty)[1]
                return True, self.merge_val(th.cmp('slt', args[0], th.const(0, n), n),
                                            th.sub(th.const(0, n), args[0], n), args[0], ('i', n))
            if k == 'ctlz':
                return True, th.clz(args[0], fr.mod.res(I.ty)[1])
            if k == 'cttz':
                return True, th.cttz(args[0], fr.mod.res(I.ty)[1])
            if k == 'ctpop':
                return True, th.ctpop(args[0], fr.mod.res(I.ty)[1])
            if k == 'bswap' or k == 'bitreverse' or k == 'fshl' or k == 'fshr':
                raise Unsupported(name)
            if len(b) > 2 and b[2] == 'with' and b[3] == 'overflow':
                n = int(b[4][1:])
                return True, self.overflow(k, args[0], args[1], n)
            if k == 'objectsize':
                return True, th.const(-1, 64)
            if k == 'is':
                return True, False
            if k in ('usub', 'uadd') and b[2] == 'sat':
                n = fr.mod.res(I.ty)[1]
                r = th.sub(args[0], args[1], n) if k == 'usub' else th.add(args[0], args[1], n)
                if k == 'usub':
                    c = th.cmp('ult', args[0], args[1], n)
                    return True, self.merge_val(c, th.const(0, n), r, ('i', n))
                c = th.cmp('ult', r, args[0], n)
                return True, self.merge_val(c, th.const(-1, n), r, ('i', n))
            if k in ('fabs', 'floor', 'fmuladd', 'pow', 'ceil'):
                return True, OPAQUE
            raise Unsupported('intrinsic ' + name)
        return False, None

    def overflow(self, k, a, b, n):
        th = self.th
        if th.kind == 'bv':
            x, y = th.x(a, n), th.x(b, n)
            op = {'uadd': (z3.ZeroExt, lambda p, q: p + q), 'sadd': (z3.SignExt, lambda p, q: p + q),
                  'usub': (z3.ZeroExt, lambda p, q: p - q), 'ssub': (z3.SignExt, lambda p, q: p - q),
                  'umul': (z3.ZeroExt, lambda p, q: p * q), 'smul': (z3.SignExt, lambda p, q: p * q)}[k]
            w = n if k.endswith('mul') else 1
            full = op[1](op[0](w, x), op[0](w, y))
            r = z3.Extract(n - 1, 0, full)
            ov = full != op[0](w, r)
            rv = {'uadd': th.add, 'sadd': th.add, 'usub': th.sub, 'ssub': th.sub, 'umul': th.mul, 'smul': th.mul}[k](a, b, n)
            if isinstance(rv.e, int):
                ov = z3.simplify(ov)
                return Agg([rv, z3.is_true(ov)])
            return Agg([rv, ov])
        s = k[0] == 's'
        x = th.signed(a, n) if s else a
        y = th.signed(b, n) if s else b
        lim = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
        if k.endswith('mul'):
            if isinstance(y.e, int):
                m = th.mulm(x, y.e)
            elif isinstance(x.e, int):
                m = th.mulm(y, x.e)
            else:
                return Agg([th.fresh('mul', n), th.fresh_bool('ov')])
        elif k.endswith('add'):
            m = th.addm(x, y)
        else:
            m = th.subm(x, y)
        r = th.wrap(m.e, m.lo, m.hi, n)
        if m.lo >= lim[0] and m.hi <= lim[1]:
            return Agg([r, False])
        if isinstance(m.e, int):
            return Agg([r, not (lim[0] <= m.e <= lim[1])])
        return Agg([r, z3.Or(m.e < lim[0], m.e > lim[1])])

    def memcpy(self, fr, st, I, d, s, n):
        if not isinstance(n.e, int):
            h = self.hooks.memcpy(self, st, d, s, n, fr.where(I)) if self.hooks else None
            if h:
                return
            raise Unsupported('memcpy of symbolic size (%s)' % fr.where(I))
        n = n.e
        if n == 0:
            return
        if isinstance(s, Alt) or isinstance(d, Alt):
            if isinstance(s, Alt) and isinstance(d, Ptr) and isinstance(d.off.e, int):
                # merge of copies
                base = None
                mems = []
                for c, q in s.alts:
                    s2 = State(dict(st.mem), st.reach)
                    self.memcpy(fr, s2, I, d, q, self.th.const(n, 64))
                    mems.append((c, s2.mem))
                keys = set()
                for c, m in mems:
                    keys |= {k for k in m if k[0] == d.region.id and d.off.e <= k[1] < d.off.e + n}
                for k in keys:
                    v = None
                    for c, m in reversed(mems):
                        x = m.get(k)
                        if x is None:
                            raise Unsupported('memcpy through alternatives')
                        v = x if v is None else (x[0], self.merge_val(c, x[1], v[1], None, 8 * x[0]))
                    self.store_at(st, d.region, k[1], v[0], v[1])
                return
            raise Unsupported('memcpy through alternatives')
        if self.hooks and self.hooks.memcpy_const(self, st, d, s, n, fr.where(I)):
            return
        if d.region is None:
            raise Unsupported('memcpy to text')
        if s.region is None:
            self.text_bounds(st, s, n, fr.where(I))
            for i in range(n):
                self.store_at(st, d.region, self.coff(d) + i, 1, self.th.T(self.th.addm(s.off, i)))
            return
        so, do = self.coff2(st, s, fr, I), self.coff2(st, d, fr, I)
        if s.region.size is not None:
            self.check_bounds(st, s.region, self.th.const(so, 64), n, fr.where(I))
        if d.region.size is not None:
            self.check_bounds(st, d.region, self.th.const(do, 64), n, fr.where(I))
        cells = self.cells_in(st, s.region, so, n, d.region.leaf_src if hasattr(d.region, 'leaf_src') else d)
        for o, (sz, v) in cells:
            self.store_at(st, d.region, do + (o - so), sz, v)

    def coff(self, p):
        if not isinstance(p.off.e, int):
            raise Unsupported('copy at symbolic offset')
        return p.off.e

    def coff2(self, st, p, fr, I):
        if isinstance(p.off.e, int):
            return p.off.e
        c = self.concretize(st, p.off)
        if c is None:
            raise Unsupported('copy at symbolic offset (%s)' % fr.where(I))
        return c

    def cells_in(self, st, r, off, n, d=None):
        out = []
        o = off
        while o < off + n:
            f = self.find_cell(st, r, o)
            if f is not None:
                lo, (sz, v) = f
                if lo < o or lo + sz > off + n:
                    out.append((o, (1, self.th.byte(v, o - lo, 8 * sz))))
                    o += 1
                else:
                    out.append((o, (sz, v)))
                    o += sz
                continue
            if not r.lazy:
                o += 1     # uninitialised: nothing to copy
                continue
            ec = self.entry.setdefault(r.id, {})
            f = None
            for k in range(0, 16):
                c = ec.get(o - k)
                if c is not None and c[0] > k:
                    f = (o - k, c)
                    break
            if f is None:
                leaf = self.leaf_at(r, o)
                if leaf is None and r.const is None:
                    # take the shape from the destination's type
                    if isinstance(d, Ptr) and d.region is not None and isinstance(d.off.e, int):
                        dl = self.leaf_at(d.region, d.off.e + (o - off))
                        if dl is not None and dl[0] == d.off.e + (o - off):
                            t = dl[3].res(dl[2])
                            if dl[4] is not None and dl[4] == dl[0]:
                                self.make_view_cells(r, o, ec)
                                f = (o, ec[o])
                            else:
                                v = self.entry_value(r, o, t, dl[1])
                                ec[o] = (dl[1], v)
                                self.note_entry(r, o)
                                f = (o, ec[o])
                        elif dl is None and self.has_type(d.region, d.off.e + (o - off)):
                            o += 1
                            continue
                    if f is None:
                        f = self.entry_cell(r, o, 1, False)
                elif leaf is None:
                    try:
                        f = self.entry_cell(r, o, 1, False)
                    except Unsupported:
                        o += 1   # padding
                        continue
                else:
                    f = self.entry_cell(r, o, leaf[1], leaf[3].res(leaf[2])[0] == 'ptr')
            lo, (sz, v) = f
            if lo < o or lo + sz > off + n:
                if lo + sz <= o:
                    o += 1
                    continue
                out.append((o, (1, self.th.byte(v, o - lo, 8 * sz))))
                o += 1
            else:
                out.append((o, (sz, v)))
                o += sz
        return out

    def has_type(self, r, off):
        """off is padding inside a typed object"""
        if r.type is not None and off < r.mod.sizeof(r.type):
            return True
        return any(o <= off < o + m.sizeof(t) for o, (m, t) in r.notes.items())

    def memset(self, fr, st, I, d, v, n):
        if not isinstance(n.e, int):
            raise Unsupported('memset of symbolic size (%s)' % fr.where(I))
        n = n.e
        if isinstance(d, Alt) or d.region is None:
            raise Unsupported('memset target')
        do = self.coff(d)
        o = do
        zero = isinstance(v.e, int) and v.e == 0
        while o < do + n:
            leaf = self.leaf_at(d.region, o)
            if leaf is not None and zero and leaf[0] == o and o + leaf[1] <= do + n:
                t = leaf[3].res(leaf[2])
                self.store_at(st, d.region, o, leaf[1], self.null() if t[0] == 'ptr' else
                              (OPAQUE if t[0] == 'fp' else self.th.const(0, 8 * leaf[1])))
                o += leaf[1]
            else:
                self.store_at(st, d.region, o, 1, v)
                o += 1


def pathname(p):
    k = p[0]
    if k == 'arg':
        return str(p[1])
    if k == 'deref':
        return pathname(p[1]) + '.%d*' % p[2]
    if k == 'glob':
        return p[2][-24:]
    if k == 'alloca':
        return p[2]
    return '_'.join(str(x) for x in p)


VIEW = re.compile(r'(class|struct)\.std::basic_string_view\b')


def leaf_in(m, t, off):
    """(leaf offset, size, type, view offset or None) or None for padding"""
    view = None
    base = 0
    while True:
        if t[0] == 'named' and VIEW.match(t[1]):
            view = base
        rt = m.res(t)
        if rt[0] == 'struct':
            for i, f in enumerate(rt[1]):
                fo = m.field_off(rt, i)
                if fo <= off < fo + m.sizeof(f):
                    t = f
                    base += fo
                    off -= fo
                    break
            else:
                return None
        elif rt[0] == 'arr':
            s = m.sizeof(rt[2])
            if s == 0:
                return None
            k = off // s
            t = rt[2]
            base += k * s
            off -= k * s
        elif rt[0] == 'opaque':
            return None
        else:
            return base, m.sizeof(rt), rt, view


def const_leaf(m, t, v, off):
    """leaf of a constant initialiser at byte offset: (leaf offset, type, value)"""
    base = 0
    while True:
        rt = m.res(t)
        if rt[0] == 'struct':
            for i, f in enumerate(rt[1]):
                fo = m.field_off(rt, i)
                if fo <= off < fo + m.sizeof(f):
                    t = f
                    if v[0] == 'agg':
                        v = v[1][i][1]
                    base += fo
                    off -= fo
                    break
            else:
                return None
        elif rt[0] == 'arr':
            s = m.sizeof(rt[2])
            k = off // s
            if k >= rt[1] or k < 0:
                return None
            if v[0] == 'agg':
                v = v[1][k][1]
            elif v[0] == 'str':
                v = ('c', v[1][k])
            t = rt[2]
            base += k * s
            off -= k * s
        else:
            return base, t, v


class Frame:
    __slots__ = ('F', 'mod', 'env', 'name', 'uid', 'block', 'tag')

    def __init__(self, F, uid, tag=''):
        self.F = F
        self.mod = F.mod
        self.env = {}
        self.name = F.name
        self.uid = uid
        self.block = None
        self.tag = tag

    def where(self, I):
        return '%s:%s' % (self.name, self.block)
