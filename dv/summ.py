"""Modular verification: every function is checked once against its own contract, and a call uses the
contract of the callee, not its body.

The contracts are inferred (Houdini): a function starts with every candidate pre- and postcondition of
the families below.  A precondition that some call site does not establish is dropped, a postcondition
that some return does not establish is dropped, until nothing changes.  What is left is inductive: the
last verification of each function took place under the final contracts.
"""
import re
import time

import z3

from . import fastz3, fork
from .fork import ForkExec, FState, Path, PathEnd, NeedCut, Cut, Content, NOMODEL, Stop, Failure
from .theory import N, bnot, bor, zb
from .vc import Agg, Alt, Fn, Frame, Ptr, Region, Unsupported, OPAQUE

MAXC = 127


class NoShape(Exception):
    pass


class Conflict(Exception):
    pass


class Summ:
    root = False

    def __init__(self, key, F):
        self.key = key
        self.F = F
        self.pre_dropped = set()
        self.post_dropped = set()
        self.pre = None             # list of (id, fn)
        self.post = None
        self.exits = {}             # name -> kind
        self.results = None         # list of kinds
        self.returns = False
        self.version = 0
        self.verified = False
        self.dirty = True
        self.running = False
        self.used = {}              # key -> version
        self.cuts = {}
        self.cutset = set()
        self.failures = []
        self.chars = {}
        self.chset = {}
        self.consts = {}
        self.stats = {}
        self.calls = {}             # call edges: (site, callee key) -> {measure: (weak, strict)}
        self.covers = {}

    def ptrs(self):
        out = {n for n, k in self.kinds.items() if k[0] == 'p'}
        out |= {n for n, (_, k) in self.exits.items() if k[0] == 'p'}
        out |= {('r', i) for i, k in enumerate(self.results or ()) if k[0] == 'p'}
        return out


class Shape:
    """what a call can reach: arguments, memory, texts"""

    def __init__(self, ex, p, F, args):
        self.ex = ex
        self.p = p
        self.regions = []           # Region objects, by number
        self.num = {}
        self.vals = {}              # name -> value
        self.kinds = {}             # name -> kind
        self.texts = []
        self.cells = []             # per region: list of (off, size, kind)
        self.args = []
        for r in ex.mutable_globals(p):
            self.number(r)
        self.nglob = len(self.regions)
        for i, a in enumerate(args):
            self.args.append(self.kind(('a', i), a, F.params[i] if i < len(F.params) else None, True))
        k = 0
        by = {}
        for (rid, off), c in p.mem.items():
            by.setdefault(rid, []).append((off, c))
        while k < len(self.regions):
            r = self.regions[k]
            cs = []
            if r.kind != 'text' and r.const is None:
                for off, (n, v) in sorted(by.get(r.id, ()), key=lambda x: x[0]):
                    if off == -1:
                        raise NoShape('array')
                    cs.append((off, n, self.kind(('c', k, off), v, None, False)))
                # tables: constants next to pointers to constants stay constants
                if any(kd[0] == 'ptr' and self.regions[kd[1]].const is not None for _, _, kd in cs):
                    mem = {off: v for off, (n, v) in by[r.id]}
                    for i, (off, n, kd) in enumerate(cs):
                        if kd[0] == 'n' and isinstance(mem[off].e, int):
                            nm = ('c', k, off)
                            del self.vals[nm], self.kinds[nm]
                            cs[i] = (off, n, ('const', mem[off].e, 8 * n))
            self.cells.append(tuple(cs))
            k += 1
        self.key = (F.name, F.mod.tag, tuple(self.args), tuple(
            (r.kind if r.kind != 'glob' else r.path, r.size if isinstance(r.size, int) else None, self.cells[i])
            for i, r in enumerate(self.regions)))

    def number(self, r):
        k = self.num.get(r.id)
        if k is None:
            k = self.num[r.id] = len(self.regions)
            self.regions.append(r)
        return k

    def kind(self, name, v, param, arg):
        ex = self.ex
        if v is None:
            return ('none',)
        if isinstance(v, bool):
            return ('const', v)
        if isinstance(v, N):
            if arg and isinstance(v.e, int):
                return ('const', v.e)
            if arg:
                t = param[0]
                w = t[1]
            else:
                w = 8 * self.width_hint(name)
            self.vals[name] = v
            self.kinds[name] = ('n', w)
            return ('n', w)
        if isinstance(v, Ptr):
            if v.region is None:
                if isinstance(v.off.e, int) and v.off.e == 0:
                    return ('null',)
                return ('uninit',)
            r = v.region
            if r.kind == 'text':
                k = self.number(r)
                self.vals[name] = v
                self.kinds[name] = ('p', k)
                return ('p', k)
            if r.kind not in ('alloca', 'glob'):
                raise NoShape('region ' + r.kind)
            if not isinstance(v.off.e, int):
                raise NoShape('symbolic offset')
            k = self.number(r)
            return ('ptr', k, v.off.e)
        if isinstance(v, Fn):
            return ('fn', v.name)
        if v is OPAQUE:
            return ('opaque',)
        if z3.is_bool(v):
            self.vals[name] = v
            self.kinds[name] = ('b',)
            return ('b',)
        if isinstance(v, Alt):
            raise NoShape('alt')
        raise NoShape('value %r' % (v,))

    def width_hint(self, name):
        _, k, off = name
        return self.p.mem[(self.regions[k].id, off)][0]


def components(graph):
    """node -> its strongly connected component"""
    import networkx
    g = networkx.DiGraph()
    g.add_nodes_from(graph)
    g.add_edges_from((a, b) for a in graph for b in graph[a])
    out = {}
    for c in networkx.strongly_connected_components(g):
        c = frozenset(c)
        for x in c:
            out[x] = c
    return out


def lexicographic(edges, most=99):
    """measures that together decrease on every edge: (measures, edges left over)"""
    left = list(edges)
    used = []
    while left and len(used) < most:
        common = set.intersection(*[set(w) for w, s in left])
        best = max(sorted(common, key=str), key=lambda m: sum(m in s for w, s in left), default=None)
        if best is None or not any(best in s for w, s in left):
            break
        used.append(str(best))
        left = [(w, s) for w, s in left if best not in s]
    return used, left


class World:
    """the contracts of one program under verification"""

    def __init__(self, prog, make, pick, verbose=False, deadline=None, focus=None):
        self.prog = prog
        self.make = make            # () -> executor
        self.pick = pick            # F -> is it verified on its own
        self.summs = {}
        self.noshape = {}
        self.inline = set()
        self.verbose = verbose
        self.deadline = deadline
        self.depth = 0
        self.memo = {}
        self.measures = []
        self.loops_measured = self.loop_edges = self.call_edges = 0
        self.failed_inline = set()
        self.total = dict(obl=0, triv=0, queries=0, solver=0.0, paths=0)

    def say(self, *a):
        if self.verbose:
            print('  ' * self.depth, *a, flush=True)

    # -- snapshots: conclusions drawn while a loop's effects are not all known are withdrawn ----------
    def snapshot(self):
        return {k: (set(S.pre_dropped), set(S.post_dropped), S.verified) for k, S in self.summs.items()}

    def restore(self, snap, keep):
        for k, S in list(self.summs.items()):
            if k in snap:
                a, b, v = snap[k]
                if a != S.pre_dropped or b != S.post_dropped:
                    S.pre_dropped, S.post_dropped = set(a), set(b)
                    S.dirty = True
                    S.version += 1
                    for C in S.cuts.values():
                        C.dropped.clear()
            elif not S.running:
                S.pre_dropped.clear()
                S.post_dropped.clear()
                S.fresh = True
                S.chars = {}
                S.chset = {}
                S.dirty = True
                S.version += 1
                for C in S.cuts.values():
                    C.dropped.clear()

    def verify(self, S):
        """verify the body until it and everything it uses is final"""
        S.running = True
        self.depth += 1
        t = time.time()
        rounds = 0
        rn = Region._n
        try:
            while True:
                rounds += 1
                if rounds > 100:
                    raise Unsupported('contracts did not stabilise: ' + S.F.name)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time limit in ' + S.F.name)
                S.dirty = False
                ex = self.make()
                ex.deadline = self.deadline
                ex.world = self
                ex.me = S
                ex.cuts = S.cuts
                ex.cutset = S.cutset
                S.used = {}
                ex.run_body(S)
                S.failures = ex.failures
                S.stats = dict(obl=ex.n_obl, triv=ex.n_triv, paths=ex.paths)
                S.by_label = dict(ex.by_label)
                S.covers = dict(ex.covers)
                S.seen = dict(ex.calls_seen)
                S.edges = dict(ex.edges)
                S.hooks_used = dict(ex.hooks.used)
                self.total['queries'] += ex.queries
                self.total['solver'] += ex.solver_s
                self.total['cvc5'] = self.total.get('cvc5', 0) + getattr(ex, 'cvc5_used', 0)
                S.verified = True
                self.settle(S)
                if S.dirty or self.stale(S):
                    continue
                break
        finally:
            S.running = False
            self.depth -= 1
            Region._n = rn
        self.say('verified', S.F.name[:90], '%.1fs' % (time.time() - t), 'rounds', rounds, 'paths', S.stats.get('paths'),
                 'pre', len(S.pre or ()) - len(S.pre_dropped), 'post', len(S.post or ()) - len(S.post_dropped), 'fail', len(S.failures),
                 'mods', len(S.exits))

    def stale(self, S):
        return any(u not in self.summs or self.summs[u].version != v for u, v in S.used.items())

    def settle(self, S):
        """bring everything below S up to date"""
        while True:
            todo = None
            seen = set()
            work = list(S.used)
            while work:
                k = work.pop()
                if k in seen or k not in self.summs:
                    continue
                seen.add(k)
                T = self.summs[k]
                if not T.running and (T.dirty or self.stale(T)):
                    todo = T
                    break
                work += list(T.used)
            if todo is None:
                return
            self.verify(todo)

    def may_inline(self, S):
        """a function that does not verify from its inferred precondition is verified at its calls instead"""
        if len(self.failed_inline) >= 12 or len(S.F.blocks) > 60 or self.recursive(S):
            return False
        self.failed_inline.add(S.F.name)
        return True

    def recursive(self, S):
        seen = set()
        work = [k for k in S.used]
        while work:
            k = work.pop()
            if k in seen or k not in self.summs:
                continue
            seen.add(k)
            if self.summs[k].F is S.F or self.summs[k].running:
                return True
            work += list(self.summs[k].used)
        return False

    # -- termination ------------------------------------------------------------------------------------
    def termination(self):
        """every loop that was cut and every cycle of calls has a measure that decreases"""
        graph = {k: {u for u in S.used if u in self.summs} for k, S in self.summs.items()}
        self.scc = components(graph)
        out = []
        calls = []
        for S in list(self.summs.values()):
            ex = self.make()
            ex.deadline = self.deadline
            ex.world = self
            ex.me = S
            ex.cuts = S.cuts
            ex.cutset = S.cutset
            ex.measuring = True
            ex.back = {}
            S.call_edges = []
            rn = Region._n
            before = self.snapshot()
            ex.changed = ex.modified = False
            ex.entry_S = S
            ex.reset()
            p = ex.build_entry(S)
            if p is not None:
                ex.run_path(p)
            Region._n = rn
            if ex.changed or ex.modified or self.snapshot() != before:
                raise Unsupported('contracts changed: ' + S.F.name)
            self.total['queries'] += ex.queries
            self.total['solver'] += ex.solver_s
            for key, edges in ex.back.items():
                self.loops_measured += 1
                self.loop_edges += len(edges)
                used, left = lexicographic(edges)
                where = '%s:%s' % key[:2]
                if left:
                    out.append(('termination', 'every loop ends', where))
                else:
                    self.measures.append('loop %s: %s' % (where, '; '.join(used)))
            calls += S.call_edges
        for comp in sorted({tuple(sorted(map(str, c))) for c in self.scc.values() if len(c) > 1 or any(x in graph[x] for x in c)}):
            es = [e for e in calls if str(e[0]) in comp]
            self.call_edges += len(es)
            used = []
            rest = es
            while True:
                g = {}
                for a, b, weak, strict in rest:
                    g.setdefault(a, set()).add(b)
                    g.setdefault(b, set())
                sc = components(g)
                rest = [e for e in rest if sc[e[0]] is sc[e[1]] and (len(sc[e[0]]) > 1 or e[0] == e[1])]
                if not rest:
                    break
                u, left = lexicographic([(w, s) for a, b, w, s in rest], 1)
                if not u:
                    break
                used += u
                rest = [e for e in rest if (e[2], e[3]) in left]
            names = sorted({str(e[0][0]) for e in es})
            if rest:
                out.append(('termination', 'recursion ends', ', '.join(sorted({e[0][0] for e in rest}))[:300]))
            else:
                self.measures.append('calls among %s: %s' % (', '.join(names), '; '.join(used)))
        return out

    def give_up(self, S, why):
        """verify at every call instead"""
        self.say('inline', S.F.name, why)
        self.inline.add(S.F.name)
        for k in [k for k, T in self.summs.items() if T.F is S.F]:
            del self.summs[k]


class ModExec(ForkExec):
    world = None
    me = None
    measuring = False

    def mutable_globals(self, p):
        out = []
        for r in self.regions.values():
            if r.kind == 'glob' and r.const is None and any(k[0] == r.id for k in p.mem):
                out.append(r)
        out.sort(key=lambda r: str(r.path))
        return out

    # -- verification of a body ---------------------------------------------------------------------
    def run_body(self, S):
        W = self.world
        self.entry_S = S
        for rounds in range(80):
            self.changed = False
            self.modified = False
            snap = W.snapshot()
            self.reset()
            pd = len(S.post_dropped)
            try:
                p = self.build_entry(S)
                if p is not None:
                    self.run_path(p)
            except NeedCut as e:
                self.cutset.add(e.key)
                continue
            if self.modified:
                W.restore(snap, S)
                S.dirty = False
                for C in self.cuts.values():
                    C.dropped.clear()
                continue
            if self.changed or len(S.post_dropped) != pd:
                continue
            if S.key in S.used and S.used[S.key] != S.version:
                continue
            return
        raise Unsupported('invariants did not stabilise in ' + S.F.name)

    def run_path(self, p):
        work = [p]
        try:
            while work:
                q = work.pop()
                try:
                    self.advance(q, work)
                except PathEnd:
                    pass
        except Stop:
            pass

    def build_entry(self, S):
        F = S.F
        if S.root:
            self.edges = {}
            return self.start(F, ())
        self.edges = {}
        th = self.th
        p = Path()
        p.mem, p.conds, p.hints, p.inputs, p.ghost, p.visits = {}, [], {}, [], {}, 0
        p.stack = []
        fr = self.frame(F)
        self.regs = []
        for i, (kind, path, typ, mod, size, const, notes) in enumerate(S.rspecs):
            if kind == 'text':
                n = self.glob_fresh(lambda: th.fresh('text.len', 64, 0, self.MAXLEN))
                r = self.region(('text', i), 'text', None, None, n)
                r.textf = th.fn('text%d' % i, 8)
            elif kind == 'glob':
                r = self.region(path, 'glob', typ, mod, size)
                r.const = const
            else:
                r = self.region(('alloca', 'entry', i), 'alloca', None, None, size)
                r.type, r.mod = typ, mod
            r.notes = dict(notes)
            self.regs.append(r)
        E = {}
        for k, cs in enumerate(S.cells):
            for off, n, kd in cs:
                v = self.make_value(kd, ('c', k, off), E)
                if v is not None:
                    p.mem[(self.regs[k].id, off)] = (n, v)
        env = {}
        for i, ((t, n, at, aty), kd) in enumerate(zip(F.params, S.args)):
            env[n] = self.make_value(kd, ('a', i), E, t)
        self.E = E
        p.stack = [[fr, F.entry, 0, env, None]]
        self.mem0 = {(k, off): (n, kd) for k, cs in enumerate(S.cells) for off, n, kd in cs}
        p.ghost['terms'] = tuple(('T%d' % i, r.size) for i, r in enumerate(self.regs) if r.kind == 'text') + tuple(
            ('E%s' % (x,), v) for x, v in sorted(E.items(), key=lambda x: str(x[0])) if isinstance(v, N) and S.kinds[x] == ('n', 64))[:6]
        self.flush_defs(p)
        vals = self.exprs(E, self.regs)
        for cid, f in strongest(S.pre, S.pre_dropped, S.ptrs()):
            p.conds.append(f(vals, self.regs))
        if self.sat(p, None, False) is None:
            return None      # no call yet
        return p

    def make_value(self, kd, name, E, t=None):
        th = self.th
        k = kd[0]
        if k == 'none':
            return None
        if k == 'const':
            if isinstance(kd[1], bool):
                return kd[1]
            return th.const(kd[1], t[1] if t is not None else kd[2])
        if k == 'n':
            v = E[name] = th.fresh('e', kd[1])
            return v
        if k == 'b':
            v = E[name] = th.fresh_bool('e')
            return v
        if k == 'p':
            v = E[name] = Ptr(self.regs[kd[1]], th.fresh_off('ep'))
            return v
        if k == 'null':
            return self.null()
        if k == 'uninit':
            x = th.fresh('uninit', 64, 0, self.MAXLEN)
            return Ptr(None, x, x, x)
        if k == 'ptr':
            return Ptr(self.regs[kd[1]], th.const(0, 64) if kd[2] == 0 else N(kd[2], kd[2], kd[2]))
        if k == 'fn':
            return Fn(kd[1])
        if k == 'opaque':
            return OPAQUE
        raise Unsupported('entry value ' + k)

    def done(self, p, ret):
        self.paths += 1
        S = self.me
        if S.root:
            return
        th = self.th
        W = self.world
        cur = dict(self.E)
        # result
        flat = flatten(ret)
        kinds = []
        rt = S.F.rets
        for i, v in enumerate(flat):
            kinds.append(self.exit_kind(v, rt[i]))
        if S.results is None:
            S.results = kinds
            S.version += 1
            self.changed = True
        elif S.results != kinds:
            raise Conflict('results of different kinds: %s %s' % (S.results, kinds))
        for i, v in enumerate(flat):
            if kinds[i][0] in ('n', 'b', 'p'):
                cur[('r', i)] = v
                self.note_const(S, ('r', i), v, kinds[i])
        # effects
        num = {r.id: i for i, r in enumerate(self.regs)}
        seen = set()
        for (rid, off), (n, v) in p.mem.items():
            k = num.get(rid)
            if k is None:
                r = self.region_by_id(rid)
                if r.kind == 'glob' and r.const is None:
                    raise Conflict('effect on a global')
                continue
            if self.regs[k].kind == 'text' or self.regs[k].const is not None:
                continue
            old = self.mem0.get((k, off))
            name = ('x', k, off)
            if old is not None and old[0] == n and name not in S.exits:
                e = self.E.get(('c', k, off))
                if e is not None and self.same_val(e, v):
                    continue
                if e is None and self.exit_kind(v, 8 * n) == old[1]:
                    continue
            kd = self.exit_kind(v, 8 * n)
            o = S.exits.get(name)
            if o is None:
                for d in range(-15, n):
                    if d and ('x', k, off + d) in S.exits and off + d + S.exits[('x', k, off + d)][0] > off:
                        raise Conflict('overlapping effects')
                S.exits[name] = (n, kd)
                S.version += 1
                S.post = None
                self.changed = True
            elif o[0] != n:
                raise Conflict('effects of different sizes')
            elif o[1] != kd:
                if o[1][0] == 'uninit':
                    S.exits[name] = (n, kd)
                    S.version += 1
                    S.post = None
                    self.changed = True
                elif kd[0] == 'uninit':
                    pass
                else:
                    raise Conflict('effects of different kinds: %s %s' % (o, kd))
            if kd[0] in ('n', 'b', 'p'):
                cur[name] = v
                self.note_const(S, name, v, kd)
            seen.add(name)
        for name, (n, kd) in S.exits.items():
            if name in cur:
                continue
            e = self.E.get(('c',) + name[1:])
            if name not in seen and kd[0] in ('n', 'b', 'p') and e is not None:
                cur[name] = e
            elif kd[0] == 'n':
                cur[name] = th.fresh('undef', kd[1])
            elif kd[0] == 'b':
                cur[name] = th.fresh_bool('undef')
            elif kd[0] == 'p':
                cur[name] = Ptr(self.regs[kd[1]], th.fresh_off('undef'))
        self.flush_defs(p)
        if not S.returns:
            S.returns = True
            S.version += 1
            self.changed = True
        if S.post is None:
            S.post = post_candidates(S)
        if self.drop(p, S.post, S.post_dropped, cur, self.regs, S):
            S.version += 1

    def note_const(self, S, name, v, kd):
        """small results: the constants that are returned"""
        if kd[0] != 'n' or kd[1] >= 64 or not isinstance(v, N):
            return
        e = v.e
        if not isinstance(e, int):
            e = z3.simplify(e)
            if not z3.is_int_value(e):
                return
            e = e.as_long()
        cs = S.consts.setdefault(name, set())
        if e not in cs and len(cs) < 120:
            cs.add(e)
            S.post = None
            S.version += 1
            self.changed = True

    def exit_kind(self, v, w):
        if v is None:
            return ('none',)
        if isinstance(v, bool) or z3.is_bool(v):
            return ('b',)
        if isinstance(v, N):
            return ('n', w)
        if isinstance(v, Ptr):
            if v.region is None:
                return ('null',) if isinstance(v.off.e, int) and v.off.e == 0 else ('uninit',)
            for i, r in enumerate(self.regs):
                if r is v.region:
                    if r.kind == 'text':
                        return ('p', i)
                    if isinstance(v.off.e, int):
                        return ('ptr', i, v.off.e)
                    raise Conflict('pointer result')
            if v.region.kind == 'glob' and v.region.const is not None and isinstance(v.off.e, int):
                return ('glob', v.region.path, v.off.e)
            if v.region.kind == 'alloca':
                return ('uninit',)
            raise Conflict('pointer result into %s' % (v.region,))
        if isinstance(v, Fn):
            return ('fn', v.name)
        if v is OPAQUE:
            return ('opaque',)
        raise Unsupported('result %r' % (v,))

    def same_val(self, a, b):
        if z3.is_bool(a) and z3.is_bool(b):
            return a.eq(b)
        return self.same(a, b)

    def drop(self, p, cands, dropped, cur, regs, S):
        """drop the candidates that do not hold here; True if some were"""
        vals = self.exprs(cur, regs)
        any_dropped = False
        alive = [c for c in cands if c[0] not in dropped]
        first = len(alive) > 60
        built = {}
        while alive:
            self.n_obl += 1
            if first:
                m = self.sat(p)
            else:
                goals = []
                for cid, f in strongest(alive, (), S.ptrs()):
                    g = built.get(cid)
                    if g is None:
                        g = f(vals, regs)
                        g = built[cid] = z3.BoolVal(not g) if isinstance(g, bool) else fastz3.Not(g)
                    goals.append(g)
                m = self.sat(p, fastz3.Or(goals))
            if m is None:
                break
            if m is NOMODEL:
                raise Unsupported('no model for a candidate')
            mv = {n: (m.eval(e, model_completion=True).as_long() if not isinstance(e, int) else e) for n, e in vals.items()}
            mr = [ModelText(m, r) for r in regs]
            keep = []
            for c in alive:
                if c[1](mv, mr):
                    keep.append(c)
                else:
                    dropped.add(c[0])
                    any_dropped = True
            if not first and len(keep) == len(alive):
                raise Unsupported('model does not falsify')
            first = False
            alive = keep
        return any_dropped

    def exprs(self, cur, regs):
        th = self.th
        out = {}
        for n, v in cur.items():
            if isinstance(v, Ptr):
                out[n] = th.x(v.off, 64)
            elif isinstance(v, N):
                out[n] = th.x(v, 64)
            else:
                out[n] = z3.If(zb(v), z3.IntVal(1), z3.IntVal(0))
        for i, r in enumerate(regs):
            if r.kind == 'text':
                out[('T', i)] = th.x(r.size, 64)
        return out

    # -- calls --------------------------------------------------------------------------------------
    def do_call(self, p, st, fr, env, I):
        W = self.world
        if W is None:
            return super().do_call(p, st, fr, env, I)
        c = I.x['callee']
        if c[0] != 'g':
            return super().do_call(p, st, fr, env, I)
        name = c[1]
        if name in self.contracts or any(re.match(r, name) for r, _ in self.contracts_re):
            return super().do_call(p, st, fr, env, I)
        F = self.prog.lookup(fr.mod, name)
        if F is None or not W.pick(F) or F.name in W.inline:
            return super().do_call(p, st, fr, env, I)
        args = []
        for t, v in I.a:
            args.append(None if t[0] == 'metadata' else self.value(fr.mod, env, (t, v)))
        if any('byval' in at for (t, n, at, aty) in F.params):
            return super().do_call(p, st, fr, env, I)
        try:
            sh = Shape(self, p, F, args)
        except NoShape as e:
            W.noshape[F.name] = str(e)
            return super().do_call(p, st, fr, env, I)
        self.calls_seen[name] = self.calls_seen.get(name, 0) + 1
        try:
            return self.call_summ(p, st, fr, I, F, sh)
        except Conflict as e:
            S = W.summs.get(sh.key)
            if S is None or S.running or S is self.me:
                raise
            W.give_up(S, str(e))
            return super().do_call(p, st, fr, env, I)

    def call_summ(self, p, st, fr, I, F, sh):
        W = self.world
        th = self.th
        S = W.summs.get(sh.key)
        if S is None:
            S = Summ(sh.key, F)
            S.args = sh.args
            S.cells = sh.cells
            S.kinds = dict(sh.kinds)
            S.rspecs = [(r.kind, r.path, r.type, r.mod, r.size if isinstance(r.size, int) else None, r.const, dict(r.notes)) for r in sh.regions]
            S.pre = None
            F.rets = ret_types(F)
            W.summs[sh.key] = S
        self.flush_defs(p)
        if S.pre is None or getattr(S, 'fresh', False):
            S.fresh = False
            m = self.sat(p)
            if m is None:
                raise PathEnd()
            if not S.chars and m is not NOMODEL:
                for n, kd in S.kinds.items():
                    if kd[0] == 'p':
                        r = sh.vals[n]
                        for i in range(3):
                            S.chars[(n, i)] = m.eval(r.region.textf(th.x(r.off, 64) + i), model_completion=True).as_long()
            S.pre = pre_candidates(S)
        if self.first_chars(p, S, sh):
            S.pre = pre_candidates(S)
            S.dirty = True
        if self.drop(p, S.pre, S.pre_dropped, sh.vals, sh.regions, S):
            S.dirty = True
        if not S.running and (not S.verified or S.dirty or W.stale(S)):
            W.verify(S)
            if S.failures and W.may_inline(S):
                raise Conflict('%s fails on its own: %s' % (F.name, S.failures[0].label))
        self.me_used(S)
        if not S.returns:
            raise PathEnd()
        # the effects of the call
        cur = dict(sh.vals)
        for name, (n, kd) in sorted(S.exits.items()):
            r = sh.regions[name[1]]
            v = self.exit_value(kd, name, cur, sh.regions)
            self.store_at(st, r, name[2], n, v)
        flat = []
        for i, kd in enumerate(S.results):
            flat.append(self.exit_value(kd, ('r', i), cur, sh.regions))
        self.flush_defs(p)
        if S.post is None:
            S.post = post_candidates(S)
        vals = self.exprs(cur, sh.regions)
        for cid, f in strongest(S.post, S.post_dropped, S.ptrs()):
            p.conds.append(f(vals, sh.regions))
        if self.sat(p, None, False) is None:
            raise PathEnd()
        self.edge(p, fr, I, S, sh)
        if not F.rets:
            return None
        return unflatten(F, flat)

    def edge(self, p, fr, I, S, sh):
        """a call within a cycle of calls: what decreases"""
        W = self.world
        if not self.measuring or self.me.key not in W.scc or S.key not in W.scc[self.me.key]:
            return
        if self.me.root:
            return
        a = self.common(self.me.args, self.E)
        b = self.common(sh.args, sh.vals)
        ms = {m: (a[m], b[m]) for m in a if m in b}
        w, s = self.decreasing(p, ms)
        self.me.call_edges.append((self.me.key, S.key, w, s))

    def common(self, args, vals):
        """the measures of a call: 64-bit arguments and members of *this"""
        out = {}
        for i, k in enumerate(args):
            if ('a', i) in vals and k == ('n', 64):
                out['argument %d' % i] = self.th.x(vals[('a', i)], 64)
        if args and args[0][0] == 'ptr':
            for n, v in vals.items():
                if n[0] == 'c' and n[1] == args[0][1] and isinstance(v, N):
                    out['member at %d' % n[2]] = self.th.x(v, 64)
        return out

    def decreasing(self, p, ms):
        """the measures (name -> (before, after)) that do not increase, and those that decrease and are bounded, on this path"""
        def keep(claims):
            alive = dict(claims)
            while alive:
                self.n_obl += 1
                m = self.sat(p, bor(*[bnot(c) for c in alive.values()]))
                if m is None:
                    break
                if m is NOMODEL:
                    raise Unsupported('no model for a measure')
                n = {k: c for k, c in alive.items() if z3.is_true(m.eval(c, model_completion=True))}
                if len(n) == len(alive):
                    raise Unsupported('model does not falsify')
                alive = n
            return frozenset(alive)
        ms = {k: (a, b) for k, (a, b) in ms.items() if not (isinstance(a, int) and isinstance(b, int))}
        weak = keep({k: b <= a for k, (a, b) in ms.items()})
        strict = keep({k: z3.And(b < a, a >= 0) for k, (a, b) in ms.items() if k in weak})
        return weak, strict

    def check_measure(self, p, C, g, cur):
        if not self.measuring:
            return
        th = self.th
        head = g['head']
        terms = {}
        small = {}
        for n, v in head.items():
            u = cur.get(n)
            if isinstance(v, N) and isinstance(u, N):
                terms[n] = (th.x(v, 64), th.x(u, 64))
                small[n] = True
            elif isinstance(v, Ptr) and isinstance(u, Ptr) and v.region is not None and v.region is u.region:
                terms[n] = (th.x(v.off, 64), th.x(u.off, 64))
            elif (isinstance(v, bool) or z3.is_bool(v)) and (isinstance(u, bool) or z3.is_bool(u)):
                terms[n] = tuple(z3.If(zb(x), z3.IntVal(1), z3.IntVal(0)) for x in (v, u))
        fixed = {}
        for k, (kind, v) in enumerate(p.inputs):
            if kind == 'text':
                fixed['length of text %d' % k] = th.x(v[0], 64)
        for n, v in p.ghost.get('terms', ()):
            fixed[n] = th.x(v, 64)
        fr = p.stack[-1][0]
        for n in fork.limits(self, fr, C.key[1]):
            v = g['env'].get(n)
            if n in g['entry']:
                continue
            if isinstance(v, Ptr) and v.region is not None:
                fixed['limit ' + n] = th.x(v.off, 64)
            elif isinstance(v, N):
                fixed['limit ' + n] = th.x(v, 64)
        ms = {}
        zero = z3.IntVal(0)
        for n, (a, b) in terms.items():
            s = self.nice(n)
            ms[s] = (a + zero, b + zero)
            ms['255 - ' + s] = (255 - a, 255 - b)
            for t, e in fixed.items():
                ms['%s - %s' % (t, s)] = (e - a, e - b)
            for n2, (a2, b2) in terms.items():
                if n2 != n:
                    ms['%s - %s' % (self.nice(n2), s)] = (a2 - a, b2 - b)
        ms = {k: (z3.simplify(a), z3.simplify(b)) for k, (a, b) in ms.items()}
        self.back.setdefault(C.key + fr.uid, []).append(self.decreasing(p, ms))

    def nice(self, n):
        if isinstance(n, tuple):
            return 'cell %s+%s' % (self.region_by_id(n[1]).path, n[2])
        return str(n)

    def first_chars(self, p, S, sh):
        """the few characters that a text can begin with at the calls; True if there are more than before"""
        more = False
        for n, kd in S.kinds.items():
            if kd[0] != 'p':
                continue
            have = S.chset.setdefault(n, set())
            if have is None or ('char', n, 0) not in S.pre_dropped and have:
                continue
            r = sh.vals[n]
            c = r.region.textf(self.th.x(r.off, 64))
            while True:
                m = self.sat(p, z3.And([c != k for k in sorted(have)]) if have else None)
                if m is None:
                    break
                if m is NOMODEL or len(have) >= 5:
                    S.chset[n] = None
                    break
                have.add(m.eval(c, model_completion=True).as_long())
                more = True
        return more

    def me_used(self, S):
        if self.me is not None:
            self.me.used[S.key] = S.version

    def exit_value(self, kd, name, cur, regs):
        th = self.th
        k = kd[0]
        if k == 'n':
            v = cur[name] = th.fresh('x', kd[1])
            return v
        if k == 'b':
            v = cur[name] = th.fresh_bool('x')
            return v
        if k == 'p':
            v = cur[name] = Ptr(regs[kd[1]], th.fresh_off('xp'))
            return v
        if k == 'none':
            return None
        if k == 'null':
            return self.null()
        if k == 'uninit':
            x = th.fresh('uninit', 64, 0, self.MAXLEN)
            return Ptr(None, x, x, x)
        if k == 'ptr':
            return Ptr(regs[kd[1]], N(kd[2], kd[2], kd[2]))
        if k == 'glob':
            for r in self.regions.values():
                if r.path == kd[1]:
                    return Ptr(r, N(kd[2], kd[2], kd[2]))
            return Ptr(self.global_ptr_path(kd[1]), N(kd[2], kd[2], kd[2]))
        if k == 'fn':
            return Fn(kd[1])
        if k == 'opaque':
            return OPAQUE
        raise Unsupported('exit value ' + k)

    def global_ptr_path(self, path):
        for m in self.prog.mods:
            if path[2] in m.globals and (path[1] == '' or m.tag == path[1]):
                return self.global_ptr(m, path[2]).region
        raise Unsupported('global %s' % (path,))


def ret_types(F):
    t = F.mod.res(F.ret) if F.ret is not None else ('void',)
    out = []

    def go(t):
        t = F.mod.res(t)
        if t[0] == 'struct':
            for x in t[1]:
                go(x)
        elif t[0] == 'i':
            out.append(t[1])
        elif t[0] == 'void':
            pass
        else:
            out.append(64)
    go(t)
    return out


def flatten(v):
    if v is None:
        return []
    if isinstance(v, Agg):
        return [y for x in v.vals for y in flatten(x)]
    return [v]


def unflatten(F, flat):
    it = iter(flat)

    def go(t):
        t = F.mod.res(t)
        if t[0] == 'struct':
            return Agg([go(x) for x in t[1]])
        return next(it)
    return go(F.ret)


MAXK = {'ge', 'c0', 'c1', 'case', 'arg', 'nz', 'room'}


def strongest(cands, dropped, ptrs=()):
    """the candidates left, without those that others of the same family imply"""
    alive = [(c, f) for c, f in cands if c not in dropped]
    ids = {c for c, _ in alive}
    best = {}
    for c in ids:
        if isinstance(c[-1], int) and not isinstance(c[-1], bool):
            k = c[:-1]
            if c[0] in MAXK:
                best[k] = max(best.get(k, 0), c[-1])
            elif c[0] == 'ble' or c[0] == 'le':
                best[k] = min(best.get(k, 1 << 64), c[-1])
    out = []
    pos = {c[1] for c in ids if c[0] == 'ge' and c[2] >= 1 or c[0] == 'b1'}
    zero = {c[1] for c in ids if c[0] in ('eq0', 'b0')}
    twin = {c[2] for c in ids if c[0] == 'eq' and (c[1] in ptrs) == (c[2] in ptrs)}
    for c in ids:
        if c[0] == 'same':
            twin.add(('x',) + c[1][1:])
    for c, f in alive:
        t = c[0]
        if t not in ('eq', 'same') and any(x in twin for x in c if isinstance(x, tuple)):
            continue
        if t == 'eq' and c[1] in twin:
            continue
        if t in ('c0', 'b0b0', 'b0b1') and c[1] in pos or t in ('c1', 'cle', 'b1b0', 'b1b1', 'arg') and c[1] in zero:
            continue
        if t in ('csame', 'cup1', 'cdown1') and (c[1] in pos and c[2] or c[1] in zero and not c[2]):
            continue
        if isinstance(c[-1], int) and not isinstance(c[-1], bool) and c[:-1] in best and best[c[:-1]] != c[-1]:
            continue
        t = c[0]
        if t == 'le' and len(c) == 3:
            if isinstance(c[2], int):
                if ('eq0', c[1]) in ids:
                    continue
            elif ('eq', c[1], c[2]) in ids or ('eq', c[2], c[1]) in ids or ('lt', c[1], c[2]) in ids:
                continue
        if t == 'suml' and ('sum',) + c[1:] in ids:
            continue
        if t == 'nz' and (('ge', c[1], 1) in ids and False or ('eq0', c[1]) in ids):
            continue
        if t == 'ble' and ('b0', c[1]) in ids:
            continue
        if t == 'up' and (('up1', c[1]) in ids or ('same', c[1]) in ids) or t == 'down' and (('down1', c[1]) in ids or ('same', c[1]) in ids):
            continue
        if t in ('c0', 'c1') and ('eq0', c[2]) in ids and len(c) == 3:
            continue
        out.append((c, f))
    return out


def imp(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else fastz3.Not(a)
    return fastz3.Implies(a, b)


def conj(*xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(xs) if xs else True


def orr(xs):
    if isinstance(xs[0], bool):
        return any(xs)
    return fastz3.Or(xs)


class ModelText:
    """the characters of a text in a model"""

    def __init__(self, m, r):
        self.m = m
        self.r = r

    def textf(self, i):
        return self.m.eval(self.r.textf(z3.IntVal(i)), model_completion=True).as_long()


# -- families of candidates --------------------------------------------------------------------------------
def split_names(kinds):
    W = [n for n, k in kinds.items() if k == ('n', 64) or k[0] == 'p']
    B = [n for n, k in kinds.items() if k[0] == 'b' or k[0] == 'n' and k[1] < 64]
    return W, B


def relations(out, W, B, ptrs, T, fresh=None):
    """relations over the names; if fresh is given, only those that mention one of these"""
    def rel(*ns):
        return fresh is None or any(n in fresh for n in ns)

    def add(cid, f):
        out.append((cid, f))
    ints = [x for x in W if x not in ptrs]
    A = W + T
    for x in W:
        if not rel(x):
            continue
        if x in ptrs:
            add(('ge0', x), lambda v, r, x=x: v[x] >= 0)
        else:
            add(('eq0', x), lambda v, r, x=x: v[x] == 0)
            for k in (2, 3, 4, 5, 6, 7, 8):
                add(('nz', x, k), lambda v, r, x=x, k=k: orr([v[x] == 0, v[x] >= k]))
            for k in (1, 2, 3, 4):
                add(('ge', x, k), lambda v, r, x=x, k=k: v[x] >= k)
                add(('le', x, k), lambda v, r, x=x, k=k: v[x] <= k)
    for i, x in enumerate(A):
        for j, y in enumerate(A):
            if i == j or not rel(x, y):
                continue
            if x in ptrs and y in T:
                for k in (2, 3, 4):
                    add(('room', x, y, k), lambda v, r, x=x, y=y, k=k: v[x] + k <= v[y])
            add(('le', x, y), lambda v, r, x=x, y=y: v[x] <= v[y])
            add(('lt', x, y), lambda v, r, x=x, y=y: v[x] < v[y])
            if i < j:
                add(('eq', x, y), lambda v, r, x=x, y=y: v[x] == v[y])
                for z in A:
                    if z == x or z == y or not rel(x, y, z) or len(A) > 14 and not (z in T or x in ptrs and z in ptrs or y in ptrs and z in ptrs):
                        continue
                    if i > j:
                        break
                    add(('sum', x, y, z), lambda v, r, x=x, y=y, z=z: v[x] + v[y] == v[z])
                    add(('suml', x, y, z), lambda v, r, x=x, y=y, z=z: v[x] + v[y] <= v[z])
    for b in B:
        if rel(b):
            add(('b0', b), lambda v, r, b=b: v[b] == 0)
            add(('b1', b), lambda v, r, b=b: v[b] != 0)
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 32, 127):
                add(('ble', b, k), lambda v, r, b=b, k=k: v[b] <= k)
        for c in B:
            if c != b and rel(b, c):
                add(('b0b0', b, c), lambda v, r, b=b, c=c: imp(v[b] == 0, v[c] == 0))
                add(('b1b0', b, c), lambda v, r, b=b, c=c: imp(v[b] != 0, v[c] == 0))
                add(('b0b1', b, c), lambda v, r, b=b, c=c: imp(v[b] == 0, v[c] != 0))
                add(('b1b1', b, c), lambda v, r, b=b, c=c: imp(v[b] != 0, v[c] != 0))
    for x in ints:
        for b in B + [y for y in ints if y != x]:
            if not rel(b, x):
                continue
            add(('c0', b, x), lambda v, r, b=b, x=x: imp(v[b] == 0, v[x] == 0))
            add(('c1', b, x), lambda v, r, b=b, x=x: imp(v[b] != 0, v[x] == 0))
            for k in (1, 2, 3, 4, 5, 6, 7, 8):
                add(('c0', b, x, k), lambda v, r, b=b, x=x, k=k: imp(v[b] == 0, v[x] >= k))
                add(('c1', b, x, k), lambda v, r, b=b, x=x, k=k: imp(v[b] != 0, v[x] >= k))
        if rel(x):
            for b in B:
                for y in A:
                    if y != x and y not in ptrs:
                        add(('cle', b, x, y), lambda v, r, b=b, x=x, y=y: imp(v[b] != 0, v[x] <= v[y]))
    # sums of consecutive members
    groups = {}
    for x in ints:
        if x[0] in ('c', 'x'):
            groups.setdefault(x[:2], []).append(x)
        elif x[0] == 'r':
            groups.setdefault(('r',), []).append(x)
    for g in groups.values():
        g.sort(key=lambda x: x[-1])
        for i, x in enumerate(g):
            rest = g[i + 1:]
            if len(rest) >= 3 and rel(x):
                add(('total', x), lambda v, r, x=x, rest=rest: v[x] == sum([v[y] for y in rest]))
    return out


def pre_candidates(S):
    W, B = split_names(S.kinds)
    ptrs = {n for n, k in S.kinds.items() if k[0] == 'p'}
    T = [('T', i) for i, r in enumerate(S.rspecs) if r[0] == 'text']
    out = []
    relations(out, W, B, ptrs, T)
    for (n, i), c in S.chars.items():
        k = S.kinds[n][1]
        out.append((('char', n, i), lambda v, r, n=n, i=i, c=c, k=k: r[k].textf(v[n] + i) == c))
    for n, cs in S.chset.items():
        if cs and len(cs) > 1:
            k = S.kinds[n][1]
            out.append((('chin', n, str(sorted(cs))), lambda v, r, n=n, cs=sorted(cs), k=k: orr([r[k].textf(v[n]) == c for c in cs])))
    return out


def post_candidates(S):
    kinds = dict(S.kinds)
    new = {}
    for name, (n, kd) in S.exits.items():
        if kd[0] in ('n', 'b', 'p'):
            new[name] = kd
    for i, kd in enumerate(S.results or ()):
        if kd[0] in ('n', 'b', 'p'):
            new[('r', i)] = kd
    T = [('T', i) for i, r in enumerate(S.rspecs) if r[0] == 'text']
    W0, B0 = split_names(S.kinds)
    W1, B1 = split_names(new)
    kinds.update(new)
    ptrs = {n for n, k in kinds.items() if k[0] == 'p'}
    out = []
    # what is not changed
    kept = [x for x in W0 if ('x',) + x[1:] not in new or x[0] != 'c']
    relations(out, W1 + kept, B1, ptrs, T, fresh=set(new))
    pairs = [(('c',) + x[1:], x) for x in new if x[0] == 'x' and ('c',) + x[1:] in S.kinds and S.kinds[('c',) + x[1:]] == new[x]]

    def add(cid, f):
        out.append((cid, f))
    for a, b in pairs:
        add(('same', a), lambda v, r, a=a, b=b: v[a] == v[b])
        if b in W1:
            add(('up', a), lambda v, r, a=a, b=b: v[a] <= v[b])
            add(('up1', a), lambda v, r, a=a, b=b: v[a] < v[b])
            add(('down', a), lambda v, r, a=a, b=b: v[a] >= v[b])
            add(('down1', a), lambda v, r, a=a, b=b: v[a] > v[b])
            for c, d in pairs:
                if d in W1 and d != b:
                    add(('dif', a, c), lambda v, r, a=a, b=b, c=c, d=d: v[b] - v[a] == v[d] - v[c])
                    add(('cup', a, c), lambda v, r, a=a, b=b, c=c, d=d: imp(v[b] != v[a], v[d] > v[c]))
                    if str(a) < str(c):
                        add(('tot', a, c), lambda v, r, a=a, b=b, c=c, d=d: v[b] + v[d] == v[a] + v[c])
            for x in W1:
                if x[0] == 'r':
                    add(('by', a, x), lambda v, r, a=a, b=b, x=x: v[b] - v[a] == v[x])
            for x in W0:
                if x not in ptrs and x != a:
                    add(('byin', a, x), lambda v, r, a=a, b=b, x=x: v[b] - v[a] == v[x])
                    add(('byup', a, x), lambda v, r, a=a, b=b, x=x: v[b] - v[a] <= v[x])
        for b2 in B1 + [x for x in W1 if x[0] == 'r' and x not in ptrs]:
            if b2 == b:
                continue
            for neg in (False, True):
                def cond(v, b2=b2, neg=neg):
                    return v[b2] == 0 if neg else v[b2] != 0
                add(('csame', b2, neg, a), lambda v, r, a=a, b=b, cond=cond: imp(cond(v), v[a] == v[b]))
                if b in W1:
                    add(('cup1', b2, neg, a), lambda v, r, a=a, b=b, cond=cond: imp(cond(v), v[a] < v[b]))
                    add(('cdown1', b2, neg, a), lambda v, r, a=a, b=b, cond=cond: imp(cond(v), v[a] > v[b]))
    # what each of the small results says
    for b, cs in S.consts.items():
        if len(cs) > 1 and b in new:
            cs = sorted(cs)
            tag = len(cs)
            add(('in', b, tag), lambda v, r, b=b, cs=cs: orr([v[b] == c for c in cs]))
            hi = [c for c in cs if c >= 256]
            if hi:
                add(('in256', b, tag), lambda v, r, b=b, hi=hi: imp(v[b] >= 256, orr([v[b] == c for c in hi])))
            for c in cs:
                for x in kept:
                    if x not in ptrs:
                        for k in (1, 2, 3, 4, 5):
                            add(('case', b, c, x, k), lambda v, r, b=b, c=c, x=x, k=k: imp(v[b] == c, v[x] >= k))
    # digits are accepted
    for n, kd in S.kinds.items():
        if n[0] == 'a' and kd[0] == 'n' and kd[1] < 64:
            for b2 in [y for y in new if y[0] == 'r' and y not in ptrs]:
                add(('isdigit', b2, n), lambda v, r, n=n, b2=b2: imp(conj(v[n] >= 48, v[n] <= 57), v[b2] != 0))
    # a text that begins with a digit is matched
    for n, kd in S.kinds.items():
        if kd[0] != 'p':
            continue
        x = n[:-1] + (n[-1] - (1 if n[0] == 'a' else 8),)
        if S.kinds.get(x) != ('n', 64):
            continue
        for b2 in [y for y in new if y[0] == 'r' or ('c',) + y[1:] not in S.kinds]:
            if b2 not in ptrs:
                add(('digit', b2, n), lambda v, r, n=n, x=x, b2=b2, k=kd[1]: imp(conj(
                    v[x] >= 1, r[k].textf(v[n]) >= 48, r[k].textf(v[n]) <= 57), v[b2] != 0))
    # a result that is not zero says something about the argument
    for b2 in [x for x in new if x[0] == 'r' or x in B1]:
        if b2 in ptrs:
            continue
        for x in kept:
            if x not in ptrs:
                for k in (1, 2):
                    add(('arg', b2, x, k), lambda v, r, b2=b2, x=x, k=k: imp(v[b2] != 0, v[x] >= k))
    return out


def verify_program(W, F):
    """the harness function F, modularly"""
    S = Summ(('root',), F)
    S.root = True
    S.args = S.cells = ()
    S.kinds = {}
    S.rspecs = []
    F.rets = []
    W.summs[S.key] = S
    W.verify(S)
