"""Per-property configuration of the harness checks."""
import os
import re

import z3

from . import build
from .fork import Hooks, ForkExec, ForkBool, Content, base_templates
from .vc import Ptr, Unsupported
from .theory import N, bor, zb

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TABLE_3_7 = [
    [(0x00, 0x7F)],
    [(0xC2, 0xDF), (0x80, 0xBF)],
    [(0xE0, 0xE0), (0xA0, 0xBF), (0x80, 0xBF)],
    [(0xE1, 0xEC), (0x80, 0xBF), (0x80, 0xBF)],
    [(0xED, 0xED), (0x80, 0x9F), (0x80, 0xBF)],
    [(0xEE, 0xEF), (0x80, 0xBF), (0x80, 0xBF)],
    [(0xF0, 0xF0), (0x90, 0xBF), (0x80, 0xBF), (0x80, 0xBF)],
    [(0xF1, 0xF3), (0x80, 0xBF), (0x80, 0xBF), (0x80, 0xBF)],
    [(0xF4, 0xF4), (0x80, 0x8F), (0x80, 0xBF), (0x80, 0xBF)],
]


def utf8_prefix(textf, off, n):
    """length of the well-formed sequence at off with n units available, else 0"""
    r = z3.BitVecVal(0, 64)
    for row in TABLE_3_7:
        c = [z3.UGE(n, len(row))]
        for i, (lo, hi) in enumerate(row):
            b = textf(off + i)
            c += [z3.UGE(b, lo), z3.ULE(b, hi)]
        r = z3.If(z3.And(c), z3.BitVecVal(len(row), 64), r)
    return r


VALID = z3.Function('valid', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


def c06_hooks(h):
    def spec_valid(ex, p, st, fr, I, args):
        n, q = args
        return VALID(ex.th.x(q.off, 64), ex.th.x(n, 64))
    h.extra['dv_spec_valid'] = spec_valid

    def spec_prefix(ex, p, st, fr, I, args):
        n, q = args
        return N(z3.Extract(31, 0, utf8_prefix(q.region.textf, ex.th.x(q.off, 64), ex.th.x(n, 64))), 0, 4)
    h.extra['dv_spec_prefix'] = spec_prefix


def c06_templates(ex, p, fr, C, g):
    th = ex.th
    ps = [(n, v) for n, v in g['entry'].items() if isinstance(v, Ptr) and v.region is not None and v.region.kind == 'text']
    ns = [n for n, v in g['entry'].items() if isinstance(v, N) and ex.width_of(n, fr, g['st']) == 64]
    out = []
    for a, v in ps:
        f = v.region.textf
        for b in ns:
            w0 = VALID(th.x(v.off, 64), th.x(g['entry'][b], 64))
            out.append((('valid', a, b), lambda cur, a=a, b=b, w0=w0: VALID(th.x(cur[a].off, 64), th.x(cur[b], 64)) == w0))

            def unfold(cur, a=a, b=b, f=f):
                o, n = th.x(cur[a].off, 64), th.x(cur[b], 64)
                k = utf8_prefix(f, o, n)
                return VALID(o, n) == z3.Or(n == 0, z3.And(k != 0, VALID(o + k, n - k)))
            g.setdefault('unfold', []).append(unfold)
    return out


def cut_named(*subs):
    def f(F):
        return any(s in F.name for s in subs)
    return f


def hl_enum(work):
    """hl_enum.h: every enumerator of ulight_highlight_type, mechanically from ulight.h"""
    t = open(build.REPO + '/include/ulight/ulight.h').read()
    names = re.findall(r'^\s*(ULIGHT_HL_\w+)\s*(?:=|,)', t, re.M)
    if len(names) < 10:
        raise build.BuildError('enumerators of ulight_highlight_type not found')
    with open(os.path.join(work, 'hl_enum.h'), 'w') as f:
        f.write('#define HL_LIST(X) ' + ' '.join('X(%s, "%s")' % (n, n[len('ULIGHT_HL_'):]) for n in names) + '\n')


def read_ranges(name):
    t = open(os.path.join(VERIF, 'harness', 'xid_table.h')).read()
    t = t[t.index(name + '[][2]'):]
    t = t[:t.index('};')]
    return [(int(a, 16), int(b, 16)) for a, b in re.findall(r'\{ (0x[0-9A-F]+), (0x[0-9A-F]+) \}', t)]


def c12_hooks(h):
    def spec(name):
        rs = read_ranges(name)

        def f(ex, p, st, fr, I, args):
            c = ex.th.x(args[0], 32)
            # only the ranges the path still allows
            lo, hi = bounds(ex, p, c)
            if lo is None:
                return z3.BoolVal(False)
            return bor(*[z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in rs if b >= lo and a <= hi])
        return f
    h.extra['dv_xid_start'] = spec('xid_start')
    h.extra['dv_xid_continue'] = spec('xid_continue')


def bounds(ex, p, c):
    """least and greatest value of c on this path, by bisection"""
    m = ex.sat(p)
    if m is None:
        return None, None
    v = m.eval(c, model_completion=True).as_long()
    lo, hi = 0, v
    while lo < hi:
        mid = (lo + hi) // 2
        m = ex.sat(p, z3.ULE(c, mid))
        if m is not None:
            hi = m.eval(c, model_completion=True).as_long()
        else:
            lo = mid + 1
    least = lo
    lo, hi = v, 2**c.size() - 1
    while lo < hi:
        mid = (lo + hi + 1) // 2
        m = ex.sat(p, z3.UGE(c, mid))
        if m is not None:
            lo = m.eval(c, model_completion=True).as_long()
        else:
            hi = mid - 1
    return least, lo


def c08_hooks(h):
    def none(ex, p, st, fr, I, args):
        n, q, frm, ch = args
        if q.region is None or q.region.kind != 'text':
            return None
        text_none(ex, p, q, frm, n, ch)
    h.extra['dv_text_none'] = none
    lib_hooks(h)


def text_none(ex, p, q, frm, n, ch):
    """no character ch from frm to n, counted from q"""
    p.ghost['axioms'] = p.ghost.get('axioms', ()) + ((q.region, q.off, n, frm, ch),)
    for r, e in p.ghost.get('loads', ()):
        if r is q.region:
            p.conds.append(none_at(ex, p.ghost['axioms'][-1], e))


def none_at(ex, a, e):
    r, base, n, frm, ch = a
    th = ex.th
    o = e - th.x(base, 64)
    c = r.textf(e)
    is_ch = z3.Or([c == k for k in ch]) if isinstance(ch, tuple) else c != th.x(ch, 8)
    return zb(z3.Implies(z3.And(th.ule(th.x(frm, 64), o), th.ult(o, th.x(n, 64))), is_ch))


def on_text_load(ex, st, region, off, bs):
    p = st.p
    for i in range(len(bs)):
        e = ex.th.x(ex.th.addm(off, i), 64)
        known = p.ghost.get('loads', ())
        if not any(r is region and x.eq(e) for r, x in known):
            p.ghost['loads'] = known + ((region, e),)
        else:
            continue
        for a in p.ghost.get('axioms', ()):
            if a[0] is region:
                p.conds.append(none_at(ex, a, e))


def lib_hooks(h):
    """C library functions, by their documented meaning"""
    h.on_text_load = on_text_load

    def memcmp(ex, p, st, fr, I, args):
        a, b, n = args
        k = ex.concretize(st, n)
        th = ex.th
        mod = fr.mod
        diff = None
        pairs = []
        for i in range(k):
            x = ex.load(st, mod, ex.padd(a, i), ('i', 8), fr.where(I))
            y = ex.load(st, mod, ex.padd(b, i), ('i', 8), fr.where(I))
            pairs.append((th.x(x, 8), th.x(y, 8)))
        r = th.cst(0, 32)
        for x, y in reversed(pairs):
            r = z3.If(x == y, r, z3.If(th.ult(x, y), th.cst(2**32 - 1, 32), th.cst(1, 32)))
        r = z3.simplify(r)
        if z3.is_bv_value(r) or z3.is_int_value(r):
            return th.const(r.as_long(), 32)
        return N(r, 0, 2**32 - 1)
    h.extra['memcmp'] = memcmp
    h.extra['bcmp'] = memcmp

    def strlen(ex, p, st, fr, I, args):
        q = args[0]
        k = 0
        while True:
            c = ex.load(st, fr.mod, ex.padd(q, k), ('i', 8), fr.where(I))
            if isinstance(c.e, int):
                if c.e == 0:
                    return ex.th.const(k, 64)
            else:
                raise Unsupported('strlen of symbolic text')
            k += 1
    h.extra['strlen'] = strlen

    def memchr(ex, p, st, fr, I, args):
        q, c, n = args
        th = ex.th
        if q.region is not None and q.region.kind == 'text':
            ex.check_span(st, q.region, q.off, n, fr.where(I))
            w = p.ghost.pop('memchr', None)
            if w is None:
                w = p.ghost['memchr'] = (th.fresh_bool('found'), th.fresh('at', 64))
                raise ForkBool([w[0], z3.Not(w[0])])
            ch = N(z3.Extract(7, 0, th.x(c, 32)) if th.kind == 'bv' else th.x(c, 32) % 256, 0, 255)
            if any(c.eq(w[0]) for c in reversed(p.conds)):
                o = w[1]
                d = Ptr(q.region, th.add(q.off, o, 64))
                ex.assume(st, th.ult(th.x(o, 64), th.x(n, 64)))
                x = ex.load(st, fr.mod, d, ('i', 8), fr.where(I))
                ex.assume(st, th.x(x, 8) == th.x(ch, 8))
                text_none(ex, p, q, th.const(0, 64), o, ch)
                return d
            text_none(ex, p, q, th.const(0, 64), n, ch)
            return ex.null()
        if q.region is None or q.region.const is None:
            raise Unsupported('memchr of a symbolic text')
        k, o = ex.concretize(st, n), ex.concretize(st, q.off)
        bs = ex.const_bytes(q.region)[o:o + k]
        for i, b in enumerate(bs):
            e = (th.x(c, 32) & 0xff if th.kind == 'bv' else th.x(c, 32) % 256) == b
            k = ex.feasible(p, e)
            if k is None:
                continue
            if k is not True and ex.feasible(p, z3.Not(e)) is not None:
                raise ForkBool([k, z3.Not(e)])
            return ex.padd(q, i)
        return ex.null()
    h.extra['memchr'] = memchr

    def text_is(ex, p, st, fr, I, args):
        n, q, o, m = args
        th = ex.th
        k = ex.concretize(st, m)
        const = ex.const_bytes(o.region)[ex.concretize(st, o.off):][:k]
        cs = [th.x(n, 64) == k]
        for i, c in enumerate(const):
            if q.region.kind == 'text':
                cs.append(q.region.textf(th.x(ex.padd(q, i).off, 64)) == c)
            else:
                x = ex.load(st, fr.mod, ex.padd(q, i), ('i', 8), fr.where(I))
                cs.append(th.x(x, 8) == c)
        return z3.simplify(z3.And(cs))
    h.extra['dv_text_is'] = text_is

    def nothing(ex, p, st, fr, I, args):
        return None
    h.extra['_ZNSt3pmr15memory_resourceD2Ev'] = nothing


def c10_hooks(h):
    lib_hooks(h)

    def calls(ex, p, st, fr, I, args):
        return ex.th.const(p.ghost.get('hl', (0, None))[0], 64)

    def result(ex, p, st, fr, I, args):
        return p.ghost['hl'][1]
    h.extra['dv_highlight_calls'] = calls
    h.extra['dv_highlight_result'] = result

    def pattern(ex, p, st, fr, I, name, args):
        if re.match(r'_ZN6ulight\d+highlight_\w+ERNS_17Non_Owning_BufferI12ulight_tokenEE', name) \
                and ex.prog.lookup(fr.mod, name) is None:
            n, b = p.ghost.get('hl', (0, None))
            b = ex.th.fresh_bool('hl')
            p.ghost['hl'] = (n + 1, b)
            return b
        return NotImplemented
    h.patterns.append(pattern)


def charset_hooks(h):
    """membership in a constant character set, by the bit layout that C11 proves"""
    def member(ex, p, st, fr, I, name, args):
        if not re.match(r'_ZNK6ulight7CharsetILm256EEclED[ui]$', name):
            return NotImplemented
        th = ex.th
        this, c = args
        ws = [ex.load(st, fr.mod, ex.padd(this, 8 * i), ('i', 64), fr.where(I)) for i in range(4)]
        if not all(isinstance(w, N) and isinstance(w.e, int) for w in ws):
            return NotImplemented
        bits = sum(w.e << 64 * i for i, w in enumerate(ws))
        if isinstance(c.e, int):
            return bool(c.e < 256 and bits >> c.e & 1)
        h.used['charset'] = h.used.get('charset', 0) + 1
        rs = []
        i = 0
        while i < 256:
            if bits >> i & 1:
                j = i
                while j < 255 and bits >> (j + 1) & 1:
                    j += 1
                rs.append((i, j))
                i = j
            i += 1
        w = 8 if name.endswith('Du') else 32
        e = th.x(c, w)
        return z3.simplify(zb(bor(*[e == a if a == b else z3.And(th.ule(th.cst(a, w), e), th.ule(e, th.cst(b, w))) for a, b in rs])))
    h.patterns.append(member)


def c14_hooks(h):
    charset_hooks(h)
    seq_hooks(h)

    def same_object(ex, p, st, fr, I, args):
        a, b = args
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is not None and a.region is b.region
    h.extra['dv_same_object'] = same_object

    def white(ex, p, st, fr, I, args):
        n, q, frm, to = args
        text_none(ex, p, q, frm, to, (9, 10, 12, 13, 32))
    h.extra['dv_text_white'] = white


def lang_hooks(h):
    charset_hooks(h)
    seq_hooks(h)


def seq_hooks(h):
    def seq(ex, p, st, fr, I, args):
        q, k, stride, off, width, v = args
        p.ghost['seqs'] = p.ghost.get('seqs', ()) + ((q, k, stride.e, off.e, width.e, v),)
    h.extra['dv_seq'] = seq

    def at(ex, p, st, fr, I, args):
        q, k, stride, off, width, v = args
        p.ghost['ats'] = p.ghost.get('ats', ()) + ((q, k, stride.e, off.e, width.e, v),)
    h.extra['dv_at'] = at
    lib_hooks(h)


def ints64(ex, fr, g):
    out = []
    for name, v in g['entry'].items():
        if isinstance(v, N) and ex.width_of(name, fr, g['st']) == 64:
            out.append((name, lambda c: ex.th.x(c, 64)))
        elif isinstance(v, Ptr) and v.region is not None:
            out.append((name, lambda c: ex.th.x(c.off, 64)))
    return out


def sum3_templates(ex, p, fr, C, g):
    """x + y - z stays what it was on entry"""
    vs = ints64(ex, fr, g)
    out = []
    for i, (a, fa) in enumerate(vs):
        for b, fb in vs[i + 1:]:
            for c, fc in vs:
                if c in (a, b):
                    continue
                e0 = fa(g['entry'][a]) + fb(g['entry'][b]) - fc(g['entry'][c])
                out.append((('sum3', a, b, c), lambda cur, a=a, b=b, c=c, fa=fa, fb=fb, fc=fc, e0=e0:
                            fa(cur[a]) + fb(cur[b]) - fc(cur[c]) == e0))
    return out


def moved_templates(ex, p, fr, C, g):
    """y is positive once x has changed (and reached its end)"""
    vs = ints64(ex, fr, g)
    strides = {1} | set(s[2] for s in p.ghost.get('seqs', ()))
    ends = [(k, ex.th.x(v[0], 64)) for k, (kind, v) in enumerate(p.inputs) if kind == 'text']
    ends += [((k, s), s * ex.th.x(v, 64)) for k, (kind, v) in enumerate(p.inputs) if kind == 'u64' for s in strides]
    out = []
    for a, fa in vs:
        for b, fb in vs:
            if a != b:
                e0 = fa(g['entry'][a])
                out.append((('moved', a, b), lambda cur, a=a, b=b, fa=fa, fb=fb, e0=e0: z3.Or(
                    fa(cur[a]) == e0, ex.th.ule(ex.th.cst(1, 64), fb(cur[b])))))
                for n, e in ends:
                    out.append((('movedto', a, b, n), lambda cur, a=a, b=b, fa=fa, fb=fb, e0=e0, e=e: z3.Or(
                        fa(cur[a]) == e0, ex.th.ule(ex.th.cst(1, 64), fb(cur[b])), ex.th.ult(fa(cur[a]), e))))
    return out


def scaled_templates(ex, p, fr, C, g):
    """pointers advance by whole elements"""
    th = ex.th
    strides = set(s[2] for s in p.ghost.get('seqs', ())) - {1}
    out = []
    ps = [(n, v) for n, v in g['entry'].items() if isinstance(v, Ptr) and v.region is not None]
    for s in strides:
        for x, v in ps:
            for y, w in ps:
                if x != y:
                    d0 = th.x(v.off, 64) - s * th.x(w.off, 64)
                    out.append((('scaledp', s, x, y), lambda cur, x=x, y=y, s=s, d0=d0:
                                th.x(cur[x].off, 64) - s * th.x(cur[y].off, 64) == d0))
    ps = [(n, v) for n, v in g['entry'].items() if isinstance(v, Ptr) and v.region is not None]
    vs = [v for v in ints64(ex, fr, g) if isinstance(v[0], tuple)]
    ns = [(k, th.x(v, 64)) for k, (kind, v) in enumerate(p.inputs) if kind == 'u64']
    for s in strides:
        for x, v in ps:
            o0 = th.x(v.off, 64)
            for a, fa in ints64(ex, fr, g):
                if isinstance(g['entry'][a], N):
                    d0 = o0 - s * fa(g['entry'][a])
                    out.append((('scaled1', s, x, a), lambda cur, x=x, a=a, fa=fa, s=s, d0=d0:
                                th.x(cur[x].off, 64) - s * fa(cur[a]) == d0))
            for a, fa in vs:
                for b, fb in vs:
                    if str(a) < str(b):
                        e0 = o0 - s * (fa(g['entry'][a]) + fb(g['entry'][b]))
                        out.append((('scaled', s, x, a, b), lambda cur, x=x, a=a, b=b, fa=fa, fb=fb, s=s, e0=e0:
                                    th.x(cur[x].off, 64) == e0 + s * (fa(cur[a]) + fb(cur[b]))))
            for k, e in ns:
                out.append((('scaledle', s, x, k), lambda cur, x=x, s=s, e=e: th.ule(th.x(cur[x].off, 64), s * e)))
    return out


def seq_templates(ex, p, fr, C, g):
    """elements x .. x + y of the sequence are in the array"""
    th = ex.th
    vs = [v for v in ints64(ex, fr, g) if isinstance(v[0], tuple)]
    ptrs = [v for v in ints64(ex, fr, g) if isinstance(g['entry'][v[0]], Ptr)]
    fixed = {}
    for k2, (n, v) in p.mem.items():
        if n == 8 and isinstance(v, N) and ex.region_by_id(k2[0]).kind == 'glob' and ('cell',) + k2 not in g['entry']:
            fixed[('fix',) + k2] = v
    cs = [n for n, v in g['entry'].items() if isinstance(v, Content)]
    out = []
    for j, (q, k, stride, off, width, val) in enumerate(p.ghost.get('seqs', ())):
        ke = th.x(k, 64)
        for n in cs:
            if n[1] != q.region.id:
                continue
            grain = q.region.grain
            va = th.part(th.x(val, 64), 0, width, 8)

            def holds(cur, x, n=n, ke=ke, stride=stride, off=off, width=width, va=va):
                w = cur[n].f(stride * (ke - x) + off - off % grain)
                return th.part(w, off % grain, width, grain) == va
            for a, fa in vs:
                # first unflushed element a, b elements in the array
                for b, fb in vs:
                    if a != b:
                        out.append((('seq', j, a, b), lambda cur, a=a, b=b, fa=fa, fb=fb, n=n, ke=ke, holds=holds: z3.Implies(
                            z3.And(th.ule(fa(cur[a]), ke), th.ult(ke - fa(cur[a]), fb(cur[b]))),
                            holds(cur, fa(cur[a])))))
            for a, v in fixed.items():
                for b, fb in ptrs:
                    va0 = th.x(v, 64)
                    out.append((('seqf', j, a, b), lambda cur, b=b, fb=fb, ke=ke, va0=va0, holds=holds: z3.Implies(
                        z3.And(th.ule(va0, ke), th.ult(ke - va0, fb(cur[b]))), holds(cur, va0))))
            for b, fb in vs:
                out.append((('seq0', j, b), lambda cur, b=b, fb=fb, ke=ke, holds=holds: z3.Implies(
                    th.ult(ke, fb(cur[b])), holds(cur, th.cst(0, 64)))))
    return out


def at_templates(ex, p, fr, C, g):
    """a word of an array, while a loop passes over it"""
    th = ex.th
    out = []
    vs = ints64(ex, fr, g)
    for j, (q, k, stride, off, width, val) in enumerate(p.ghost.get('ats', ())):
        ke = th.x(k, 64)
        va = th.part(th.x(val, 64), 0, width, 8)
        for n in [n for n, v in g['entry'].items() if isinstance(v, Content) and n[1] == q.region.id]:
            grain = q.region.grain

            def holds(cur, n=n, ke=ke, stride=stride, off=off, width=width, va=va):
                return th.part(cur[n].f(stride * ke + off - off % grain), off % grain, width, grain) == va
            out.append((('at', j), holds))
            for a, fa in vs:
                s = stride if isinstance(g['entry'][a], Ptr) else 1
                out.append((('atlo', j, a), lambda cur, a=a, fa=fa, s=s, ke=ke, holds=holds: z3.Implies(
                    th.ult(s * ke, fa(cur[a])), holds(cur))))
                out.append((('athi', j, a), lambda cur, a=a, fa=fa, s=s, ke=ke, holds=holds: z3.Implies(
                    th.ule(fa(cur[a]), s * ke), holds(cur))))
    return out


def c05_hooks(h):
    seq_hooks(h)

    def same_object(ex, p, st, fr, I, args):
        a, b = args
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is not None and a.region is b.region
    h.extra['dv_same_object'] = same_object

    def tokens(ex, p, st, fr, I, args):
        n, frm, end = args
        th = ex.th
        size = th.mul(n, th.const(24, 64), 64) if not isinstance(n.e, int) else th.const(24 * n.e, 64)
        k = p.ghost['ntokens'] = p.ghost.get('ntokens', 0) + 1
        q = ex.new_array(p, ('tokens', fr.uid + (k,)), size, 8)
        p.ghost['tokens'] = (q.region, p.mem[(q.region.id, -1)][1].f, frm, end)
        return q
    h.extra['dv_tokens'] = tokens

    def on_array_load(ex, st, r, off):
        t = st.p.ghost.get('tokens')
        if t is None or t[0] is not r:
            return
        _, f, frm, end = t
        th = ex.th
        o = th.x(off, 64)
        k = z3.simplify(o % 24)
        b = z3.simplify(o - k) if z3.is_int_value(k) else o - k
        lo, hi, cs = th.x(frm, 64), th.x(end, 64), []
        size = th.x(r.size, 64)

        def ok(b):
            return [f(b) >= lo, f(b + 8) >= 1, f(b) + f(b + 8) <= hi]
        cs += ok(b)
        cs.append(z3.Implies(b >= 24, z3.And(ok(b - 24) + [f(b - 24) + f(b - 16) <= f(b)])))
        cs.append(z3.Implies(b + 24 < size, z3.And(ok(b + 24) + [f(b) + f(b + 8) <= f(b + 24)])))
        key = ('tok', str(f(0)), b.get_id())
        if key not in st.p.ghost:
            st.p.ghost[key] = b
            st.p.conds.append(z3.And(cs))
    h.on_array_load = on_array_load


def c05_templates(ex, p, fr, C, g):
    """the source position is the end of the token before"""
    t = p.ghost.get('tokens')
    if t is None:
        return []
    f = t[1]
    th = ex.th
    cells = {}
    for name in ('pos', 'j', 'from'):
        for r in ex.regions.values():
            if r.kind == 'glob' and r.path[-1].endswith('%d%sE' % (len(name), name)):
                cells[name] = r.id
    if len(cells) < 3:
        return []

    def val(cur, n):
        k = ('cell', cells[n], 0)
        if k in cur:
            return th.x(cur[k], 64)
        return th.x(p.mem[(cells[n], 0)][1], 64)

    def end(cur):
        j = val(cur, 'j')
        e = 24 * (j - 1)
        return val(cur, 'pos') == z3.If(j == 0, val(cur, 'from'), f(e) + f(e + 8))
    return [(('end',), end)]


def leaves(e):
    """the constants at the leaves of a tree of conditionals"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return leaves(e.arg(1)) | leaves(e.arg(2))
    if z3.is_int_value(e) or z3.is_bv_value(e):
        return {e.as_long()}
    return set()


def mode_templates(ex, p, fr, C, g):
    """state machines: what holds in each state (a small variable that is only set to constants)"""
    th = ex.th
    consts = C.__dict__.setdefault('consts', {})
    modes = []
    for name, v in g['entry'].items():
        if isinstance(v, N) and isinstance(v.e, int) and ex.width_of(name, fr, g['st']) in (8, 32):
            consts.setdefault(name, set()).add(v.e)
            modes.append(name)
    out = []
    vs = ints64(ex, fr, g)
    pts = [(th.x(i, 64), zb(P)) for i, P in p.ghost.get('points', ())]
    extra = []
    for a, fa in vs:
        for r in ex.regions.values():
            if r.kind == 'text':
                extra.append((('afterlf', a, r.path), lambda cur, a=a, fa=fa, r=r: z3.Or(fa(cur[a]) == 0, r.textf(fa(cur[a]) - 1) == 10)))
        for b, fb in vs:
            if a != b:
                for k, (i, P) in enumerate(pts):
                    extra.append((('ptrange', a, b, k), lambda cur, a=a, b=b, fa=fa, fb=fb, i=i, P=P: z3.Implies(
                        z3.And(fa(cur[a]) <= i, i < fb(cur[b])), P)))
                extra.append((('less', a, b), lambda cur, a=a, b=b, fa=fa, fb=fb: fa(cur[a]) < fb(cur[b])))
    ins = [th.x(v, 64) for kind, v in p.inputs if kind == 'u64']
    for a, fa in vs:
        for i, u in enumerate(ins):
            for j, w in enumerate(ins):
                if i != j:
                    extra.append((('outside', a, i, j), lambda cur, a=a, fa=fa, u=u, w=w: z3.Or(fa(cur[a]) <= u, fa(cur[a]) > w)))
                    for b, fb in vs:
                        if a != b:
                            extra.append((('outside', a, b, i, j), lambda cur, a=a, fa=fa, b=b, fb=fb, u=u, w=w: z3.Or(fa(cur[a]) > u, fb(cur[b]) <= w)))
                            for c, fc in vs:
                                if c not in (a, b):
                                    extra.append((('outside', a, b, c, i, j), lambda cur, a=a, fa=fa, b=b, fb=fb, c=c, fc=fc, u=u, w=w: z3.Or(
                                        fa(cur[a]) > u, fb(cur[b]) < u, fb(cur[b]) > w, fc(cur[c]) <= w)))
    out += extra
    if not modes:
        return out
    base = [x for x in base_templates(ex, p, fr, C, g) + extra if x[0][0] in ('le', 'lt', 'ge', 'pt', 'ptrange', 'less', 'afterlf', 'outside')]
    for v in modes:
        def among(cur, v=v):
            x = cur[v]
            if isinstance(x.e, int):
                if x.e not in consts[v]:
                    consts[v].add(x.e)
                    ex.changed = True
                return True
            for k in leaves(x.e):
                if k not in consts[v]:
                    consts[v].add(k)
                    ex.changed = True
            return z3.Or([th.x(x, 32) == k for k in sorted(consts[v])])
        out.append((('among', v), among))
        for k in sorted(consts[v]):
            for cid, f in base:
                def when(cur, v=v, k=k, f=f):
                    x = cur[v]
                    if isinstance(x.e, int):
                        return True if x.e != k else f(cur)
                    c = f(cur)
                    return True if c is True else z3.Implies(x.e == k, zb(c))
                out.append((('when', v, k) + cid, when))
    return out


def flag_templates(ex, p, fr, C, g):
    """flags that are raised where a claim fails, and the character before the current one"""
    th = ex.th
    vs = ints64(ex, fr, g)
    small = [n for n, v in g['entry'].items() if isinstance(v, N) and ex.width_of(n, fr, g['st']) in (1, 8)]
    texts = [r for r in ex.regions.values() if r.kind == 'text']
    out = []
    for n in small:
        e0 = th.x(g['entry'][n], 8)
        out.append((('bit', n), lambda cur, n=n: th.ule(th.x(cur[n], 8), th.cst(1, 8))))
        for a, fa in vs:
            for k, (i, P) in enumerate(p.ghost.get('points', ())):
                out.append((('ptor', a, n, k), lambda cur, a=a, fa=fa, n=n, i=i, P=P: z3.Or(
                    z3.Not(th.ult(th.x(i, 64), fa(cur[a]))), zb(P), th.x(cur[n], 8) != 0)))
            for r in texts:
                out.append((('before', a, n, r.path), lambda cur, a=a, fa=fa, n=n, r=r: th.x(cur[n], 8) == z3.If(
                    fa(cur[a]) == 0, e0, r.textf(fa(cur[a]) - 1))))
    return out


def small_templates(ex, p, fr, C, g):
    """enumerations and flags stay within a range"""
    th = ex.th
    out = []
    for n, v in g['entry'].items():
        if isinstance(v, N) and ex.width_of(n, fr, g['st']) < 64:
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32):
                out.append((('atmost', n, k), lambda cur, n=n, k=k: th.x(cur[n], 8) <= k))
    return out


def lang_words():
    t = open(build.REPO + '/src/main/cpp/ulight.cpp').read()
    ws = re.findall(r'make_lang_entry\("([^"]+)"', t)
    return ws + ['.' + w for w in ws] + ['/' + w for w in ws] + ['a.b/', '.', '/', 'x.']


HL = r'_ZN6ulight\d+highlight_\w+ERNS_17Non_Owning_BufferI12ulight_tokenEE'
TOKEN_TEMPLATES = [sum3_templates, moved_templates, scaled_templates, seq_templates]
HLANG = r'_ZN6ulight9highlightERNS_17Non_Owning_BufferI12ulight_tokenEE'

EMIT = r'_ZN6ulight16Highlighter_Base4emitEmm'
EMPLACE = r'_ZN6ulight17Non_Owning_BufferI12ulight_tokenE12emplace_back'
NESTED = r'_ZN6ulight16Highlighter_Base23consume_nested_language'
LANG_FILE = dict(c='cpp', javascript='js', typescript='js', jsonc='json')
LANGS = 'bash c cowel cpp css diff ebnf html java javascript json jsonc kotlin llvm lua markdown nasm python rust tex typescript xml yaml'.split()


def lang_tus(fname):
    l = fname[4:]
    return ['parse_utils.cpp', 'chars.cpp', 'lang/%s.cpp' % LANG_FILE.get(l, l)]


def has_loop(F):
    h = getattr(F, 'loop_headers', None)
    if h is None:
        from .vc import cfg
        order, rpo, loops, chain = cfg(F)
        h = F.loop_headers = dict(loops)
    return bool(h)


def pick(F):
    n = F.name
    if n.startswith(('dv', '_ZN12_GLOBAL__N_1')) or 'assert_fail' in n:
        return False
    return re.match(r'_ZNK?6ulight', n) is not None and (len(F.blocks) >= 4 or has_loop(F))


PROVED = ['llvm', 'jsonc', 'json', 'ebnf', 'tex', 'diff']


def lang_main(*a):
    from . import lang
    return lang.main(*a)


def edit_main(*a):
    from . import edit
    return edit.main(*a)


def json_main(*a):
    from . import lang
    return lang.json_main(*a)


CONFIG = {
    'C01': dict(prove=PROVED, layers=['C17'], main=lang_main, hooks=lang_hooks, templates=[sum3_templates, small_templates],
                contracts_re=[(EMIT, 'dvk_emit'), (EMPLACE, 'dvk_emplace'), (NESTED, 'dvk_nested')]),
    'C02': dict(prove=PROVED, main=lang_main),
    'C03': dict(prove=PROVED, main=lang_main),
    'C15': dict(main=edit_main, level='exploration'),
    'C16': dict(prove=['json_events'], layers=['C16L'], main=json_main, hooks=lang_hooks, templates=[sum3_templates, small_templates],
                contracts_re=[(r'_ZN6ulight4json21match_escape_sequence', 'dvk_match_escape'),
                              (r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]I', 'dvk_string'),
                              (r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev', 'dvk_string_end'),
                              (r'_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv', 'dvk_c_str'),
                              (r'strtod$', 'dvk_strtod')]),
    'C16L': dict(harness='C16L', th='int', tus=['lang/json.cpp', 'parse_utils.cpp'], contracts_re=[(r'_ZSt10from_charsI', 'dvk_from_chars4')]),
    'C05': dict(harness='C05', search=40, th='int', fopts={'dvh_html': {'unroll': 1, 'own_unroll': 8}}, tus=['ulight.cpp'], hooks=c05_hooks, templates=[c05_templates], native=['C05_native.cpp'], native_tus='all',
                words=lambda: ['<', '>', '&', '<>&', 'a', ' ', '/*', '*/', 'int', '"', '&amp;', '\n', '1', '//', '<b>', '</b>', 'x=1'],
                contracts_re_in={'dvh_html': [
                    (r'_ZN6ulight17Non_Owning_BufferIcE6append', 'dvk_append'),
                    (r'_ZN6ulight17Non_Owning_BufferIcE(9push_back|12emplace_back)', 'dvk_push'),
                    (r'_ZN6ulight17Non_Owning_BufferIcE5flushEv', 'dvk_flush'),
                    (r'ulight_highlight_type_short_string(_u8)?$', 'dvk_short_string_c'),
                    (r'_ZN6ulight\d+highlight_type_short_string(_u8)?ENS_', 'dvk_short_string'),
                    (r'ulight_source_to_tokens$', 'dvk_source_to_tokens'),
                    (r'_ZNKSt17basic_string_viewI(c|Du)St11char_traitsI(c|Du)EE13find_first_ofEPK(c|Du)mm', 'dvk_find_first_of')]}),
    'C18': dict(harness='C18', th='int', limit=450, th_in={'dvh_html': None}, tus=['lang/html.cpp'], hooks=seq_hooks, templates=TOKEN_TEMPLATES + [at_templates],
                native=['C18_native.cpp'], native_tus='all',
                contracts_re_in={'dvh_nested': [(HLANG, 'dvk_highlight_lang')],
                                 'dvh_html': [(HLANG, 'dvk_html_nested'), (r'_ZN6ulight4html14match_raw_text', 'dvk_match_raw_text')]}),
    'C17': dict(harness='C17', th='int', tus=['ulight.cpp', 'lang/lua.cpp'], real=['dvh_lua'], native_exclude=['lang/cpp.cpp'], hooks=seq_hooks, templates=TOKEN_TEMPLATES, native=['C17_native.cpp'],
                native_tus='all', contracts_re=[(HL, 'dvk_highlight')]),
    'C04': dict(harness='C04', th='int', tus=[], hooks=seq_hooks, templates=[sum3_templates, moved_templates, scaled_templates, seq_templates], native=['C04_native.cpp']),
    'C06': dict(harness='C06', tus=[], hooks=c06_hooks, templates=[c06_templates], native=['C06_native.cpp'],
                contracts_in={'dvh_is_valid_view': {
                    '_ZN6ulight4utf817decode_and_lengthESt17basic_string_viewIDuSt11char_traitsIDuEE': 'dvk_decode_and_length'}}),
    'C07': dict(harness='C07', tus=[]),
    'C08': dict(contracts_in={k: {'ulight_get_lang': 'dvk_get_lang'} for k in ('dvh_path_dot', 'dvh_path_dot_u8')}, harness='C08', tus=['ulight.cpp'], hooks=c08_hooks, native=['C08_native.cpp'], native_tus='all', heavy=['dvh_path_dot', 'dvh_path_dot_u8'], words=lang_words),
    'C09': dict(harness='C09', tus=['ulight.cpp'], gen=hl_enum, hooks=lib_hooks, native_tus='all'),
    'C10': dict(harness='C10', tus=['ulight.cpp'], hooks=c10_hooks, native_tus='all'),
    'C11': dict(harness='C11', tus=[]),
    'C14': dict(contracts_re_in={k: [(r'_ZSt10from_charsI', 'dvk_from_chars')] for k in ('dvh_integer', 'dvh_uinteger')} | {
                    'dvh_escapable': [(r'_ZNKSt17basic_string_viewIDuSt11char_traitsIDuEE13find_first_ofEPKDumm', 'dvk_find_first_of')]}, harness='C14', th='int', tus=['parse_utils.cpp', 'lang/html.cpp'], native=['C14_native.cpp'], hooks=c14_hooks, fopts={'dvh_blank_last': {'templates': [mode_templates]}, 'dvh_blank_first': {'templates': [mode_templates]}, 'dvh_blank': {'templates': [mode_templates]}}, native_tus='all'),
    'C13': dict(harness='C13', bounds='lists of prefixes, exponent separators and suffixes: at most two entries of at most two characters',
                alphabet='0123456789abefxpul.+-_\'', opts=dict(batch=True), limit=600, heavy=('dvh_number_exponent', 'dvh_number_all', 'dvh_number_suffix', 'dvh_number_prefix'), templates=[flag_templates], th='int', tus=['parse_utils.cpp'], native_tus='all', hooks=c14_hooks, native=['C14_native.cpp'],
                contracts_re_in={k: [(r'_ZN6ulight19Is_ASCII_Digit_BaseclEDui', 'dvk_digit')] for k in (
                    'dvh_digits', 'dvh_digits_as_result', 'dvh_separated', 'dvh_not_separated', 'dvh_separators', 'dvh_trailing_separator')} | {
                    'dvh_number_' + k: [(r'_ZN6ulight22match_separated_digitsESt', 'dvk_separated'), (r'_ZN6ulight12match_digitsESt', 'dvk_digits')]
                    for k in ('plain', 'prefix', 'exponent', 'suffix', 'all', 'callback')}),
    'C12': dict(harness='C12', tus=['chars.cpp'], hooks=c12_hooks, native=['C12_native.cpp']),
}
