"""Exhaustive symbolic path exploration (exact bit-vector semantics).

Every feasible path of a harness over the real code is followed to its end;
there is no bound other than the ones the code itself has: exceeding the step
or visit limits is an error, never a verdict.
"""
import re
import subprocess
import time

import z3

from . import ir
from .theory import N, band, bnot, bor, zb, BVTh, IntTh
from .vc import Exec, Frame, State, Ptr, Fn, Alt, Agg, OPAQUE, Unsupported, Region, PN
from .vc import cfg  # noqa: F401  (re-export)


class ForkValue(Exception):
    def __init__(self, n, width):
        self.n = n
        self.width = width


class PathEnd(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Path:
    __slots__ = ('stack', 'mem', 'conds', 'hints', 'inputs', 'trace', 'ghost', 'visits')

    def copy(self):
        p = Path()
        p.stack = [[fr, b, i, dict(env), prev] for fr, b, i, env, prev in self.stack]
        p.mem = dict(self.mem)
        p.conds = list(self.conds)
        p.hints = dict(self.hints)
        p.inputs = list(self.inputs)
        p.ghost = dict(self.ghost)
        p.visits = self.visits
        return p


class FState:
    """adapter giving Exec a .mem / .reach view of a Path"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    @property
    def mem(self):
        return self.p.mem

    @property
    def reach(self):
        return True

    @reach.setter
    def reach(self, v):
        pass


class Content:
    """contents of an array region: f(byte offset, a multiple of the grain) -> word"""
    __slots__ = ('f', 'grain')

    def __init__(self, f, grain):
        self.f = f
        self.grain = grain


class Failure:
    def __init__(self, kind, where, label, model, inputs, path):
        self.kind = kind
        self.where = where
        self.label = label
        self.model = model
        self.inputs = inputs
        self.path = path

    def __repr__(self):
        return 'Failure(%s %s %s %s)' % (self.kind, self.label, self.where, self.inputs)


class ForkExec(Exec):
    def __init__(self, prog, hooks=None, opts=None, th=None, deadline=None):
        self.defs_ = []
        if th == 'int':
            th = IntTh(self.defs_)
        th = th or BVTh(self.defs_)
        super().__init__(prog, th, self.defs_, hooks, opts)
        self.new_solver()
        self.synced = []
        self.gdefs = []
        self.ndefs = 0
        self.failures = []
        self.paths = 0
        self.n_obl = 0
        self.n_triv = 0
        self.by_label = {}
        self.max_fail = 40
        self.max_steps = 4000000
        self.steps = 0
        self.deadline = deadline
        self.solver_s = 0.0
        self.queries = 0
        self.slow = 0
        self.covers = {}
        self.records = []
        self.uid = 0
        self.cutset = set()     # (function, header) of loops cut by invariants (found on demand)
        self.unroll = self.opts.get('unroll', 24)
        self.contracts = {}     # function name -> name of the harness function that is its contract
        self.contracts_re = ()
        self.cuts = {}          # (function, header) -> Cut
        self.templates = [base_templates]     # extra candidate generators
        self.changed = False
        self.modified = False

    # -- solver -----------------------------------------------------------------
    def sync(self, conds):
        k = 0
        s = self.synced
        while k < len(s) and k < len(conds) and s[k] is conds[k]:
            k += 1
        while len(s) > k:
            self.solver.pop()
            s.pop()
        for c in conds[k:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def flush_defs(self, p):
        # definitions of symbols of this path
        if self.defs_:
            p.conds += [zb(d) for d in self.defs_]
            del self.defs_[:]
        # facts that hold on every path go in at the bottom level
        if self.ndefs < len(self.gdefs):
            while self.synced:
                self.solver.pop()
                self.synced.pop()
            for d in self.gdefs[self.ndefs:]:
                self.solver.add(zb(d))
            self.ndefs = len(self.gdefs)

    def fork(self, p):
        self.flush_defs(p)
        return p.copy()

    def new_solver(self):
        self.solver = z3.Solver()
        if self.th.kind == 'int':
            self.solver.set('arith.solver', 2)
            self.solver.set('timeout', 2000)
        else:
            self.solver.set('timeout', 60000)

    def cvc5(self, text):
        self.cvc5_used = getattr(self, 'cvc5_used', 0) + 1
        try:
            r = subprocess.run(['cvc5', '--force-logic=QF_UFLIA', '--tlimit=60000', '-'], input=text, capture_output=True,
                               text=True, timeout=90)
            return r.stdout.strip()
        except (OSError, subprocess.TimeoutExpired):
            return 'unknown'

    def sat(self, p, extra=None, need=True):
        t = time.time()
        self.flush_defs(p)
        self.sync(p.conds)
        self.queries += 1
        if extra is None:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        else:
            self.solver.push()
            self.solver.add(zb(extra))
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        if r == z3.unknown:
            # another solver, then a fresh one
            s2 = z3.SolverFor('QF_UFBV') if self.th.kind == 'bv' else z3.Solver()
            s2.add([zb(d) for d in self.gdefs] + list(p.conds))
            if extra is not None:
                s2.add(zb(extra))
            a = self.cvc5(s2.to_smt2()) if self.th.kind == 'int' else ''
            if a == 'unsat' or a == 'sat' and not need:
                self.solver_s += time.time() - t
                return None if a == 'unsat' else NOMODEL
            for cfg in ({'arith.solver': 2}, {}) if self.th.kind == 'int' else ({},):
                s3 = z3.SolverFor('QF_UFBV') if self.th.kind == 'bv' else z3.Solver()
                s3.add(s2.assertions())
                s3.set('timeout', 60000)
                for k, v in cfg.items():
                    s3.set(k, v)
                r = s3.check()
                m = s3.model() if r == z3.sat else None
                if r != z3.unknown:
                    break
            if r == z3.unknown and a == 'sat':
                self.solver_s += time.time() - t
                return NOMODEL
            self.slow += 1
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver gave up: ' + self.solver.reason_unknown())
        return m

    # -- obligations -----------------------------------------------------------------
    def settle(self, p):
        # before anything is assumed, and where the path ends
        pend = p.ghost.pop('pending', ())
        if not pend:
            return
        if self.sat(p, bor(*[bnot(f) for f, _, _, _ in pend])) is None:
            return
        for f, k, w, d in pend:
            self.n_obl -= 1
            self.by_label[d or k] -= 1
            self.oblige(FState(p), f, k, w, d, now=True)

    def oblige(self, st, fact, kind, where, detail='', now=False):
        p = st.p
        self.n_obl += 1
        key = detail or kind
        self.by_label[key] = self.by_label.get(key, 0) + 1
        if fact is True:
            self.n_triv += 1
            return
        if not isinstance(fact, bool):
            fact = z3.simplify(fact)
            if z3.is_true(fact):
                self.n_triv += 1
                return
        if self.opts.get('batch') and kind == 'assert' and not now and not isinstance(fact, bool):
            # discharged together with the others of this path, under what the path has found by then
            p.ghost['pending'] = p.ghost.get('pending', ()) + ((fact, kind, where, detail),)
            return
        m = self.sat(p, bnot(fact) if not isinstance(fact, bool) else True)
        if m is not None:
            if m is not NOMODEL:
                m = self.small_model(p, fact, m)
            self.failures.append(Failure(kind, where, detail, m, self.input_values(m, p) if m is not NOMODEL else [], None))
            if len([f for f in self.failures if not f.label.startswith('KNOWN ')]) >= self.max_fail:
                raise Stop()
            if fact is False:
                raise PathEnd()
            if self.sat(p, fact, False) is None:
                raise PathEnd()
        if fact is not False:
            p.conds.append(zb(fact))
        else:
            raise PathEnd()

    def padd(self, q, k):
        return Ptr(q.region, self.th.addm(q.off, k), q.lo, q.hi)

    def small_model(self, p, fact, m):
        texts = [v[0] for k, v in p.inputs if k in ('text', 'array')]
        if not texts:
            return m
        nf = bnot(fact) if not isinstance(fact, bool) else z3.BoolVal(True)
        for lim in (4, 16, 64, 1024, 65536, 2**31 + 64, 2**33):
            c = z3.And([nf] + [self.th.ule(self.th.x(n, 64), lim) for n in texts])
            try:
                m2 = self.sat(p, c)
            except Unsupported:
                return m
            if m2 is not None and m2 is not NOMODEL:
                return m2
        return m

    def input_values(self, m, p):
        out = []
        for kind, v in p.inputs:
            if kind == 'bool':
                out.append((kind, int(z3.is_true(m.eval(zb(v), model_completion=True)))))
            elif kind == 'array':
                n, r, f = v
                ln = m.eval(self.th.x(n, 64), model_completion=True).as_long()
                bs = []
                for i in range(0, min(ln, 1 << 16 if len(self.failures) < 4 else 4096), r.grain):
                    w = m.eval(f(self.th.cst(i, 64)), model_completion=True).as_long() % 256**r.grain
                    bs += list(w.to_bytes(r.grain, 'little'))
                out.append((kind, (ln, bs)))
            elif kind == 'text':
                n, r = v
                ln = m.eval(self.th.x(n, 64), model_completion=True).as_long()
                bs = []
                for i in range(min(ln, 256)):
                    bs.append(m.eval(r.textf(self.th.cst(i, 64)), model_completion=True).as_long() % 256)
                while bs and bs[-1] == 0:
                    bs.pop()
                out.append((kind, (ln, bs)))
            else:
                w = int(kind[1:])
                out.append((kind, m.eval(self.th.x(v, w), model_completion=True).as_long()))
        return out

    def assume(self, st, fact):
        p = st.p
        if fact is True:
            return
        self.settle(p)
        if fact is False:
            raise PathEnd()
        if self.sat(p, fact, False) is None:
            raise PathEnd()
        p.conds.append(zb(fact))

    def feasible(self, p, cond):
        """simplified condition, or None if impossible"""
        if isinstance(cond, bool):
            return cond or None
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return None
        return c if self.sat(p, c, False) is not None else None

    def concretize(self, st, off):
        if isinstance(off.e, int):
            return off.e
        p = st.p
        k = off.e.get_id()
        if k in p.hints:
            return p.hints[k][0]
        e = z3.simplify(off.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        if z3.is_int_value(e):
            return e.as_long()
        raise ForkValue(off, 64)

    # -- driver -------------------------------------------------------------------------
    def start(self, F, args):
        p = Path()
        fr = self.frame(F)
        env = {}
        for (t, n, at, aty), a in zip(F.params, args):
            env[n] = a
        p.stack = [[fr, F.entry, 0, env, None]]
        p.mem = {}
        p.conds = []
        p.hints = {}
        p.inputs = []
        p.ghost = {}
        p.visits = 0
        return p

    def frame(self, F, p=None):
        if p is None or not p.stack:
            return Frame(F, ())
        top = p.stack[-1]
        return Frame(F, top[0].uid + ((top[1], top[2]),))

    # -- loops cut by inferred invariants ------------------------------------------------
    def headers(self, F):
        h = getattr(F, 'loop_headers', None)
        if h is None:
            order, rpo, loops, chain = cfg(F)
            h = F.loop_headers = dict(loops)
        return h

    def visit(self, p, fr, b, prev):
        """count rounds of a loop; too many distinct rounds: cut it and start over"""
        L = self.headers(fr.F)[b]
        k = ('v', fr.uid, b)
        env = p.stack[-1][3]
        sig = []
        for I in fr.F.blocks[b].insts:
            if I.op != 'phi':
                break
            v = env[I.res]
            if isinstance(v, Ptr):
                v = v.off
            if isinstance(v, N) and isinstance(v.e, int):
                sig.append((I.res, v.e))
        # iterators over tables that live in memory
        for kk, c in p.mem.items():
            v = c[1]
            if isinstance(v, Ptr) and v.region is not None and v.region.const is not None and isinstance(v.off.e, int) and v.off.e:
                sig.append((kk, v.off.e))
        old = p.ghost.get(k)
        if prev not in L.body or old is None:
            p.ghost[k] = (0, sig, len(p.conds))
            return
        n, osig, nc = old
        counted = sig != osig       # some loop variable is a changing constant
        n += 1
        own = fr.F.name.startswith(('dvh_', 'dvk_', '_ZN12_GLOBAL__N_1')) and fr.mod is self.prog.mods[0]
        if n > (self.opts.get('own_unroll', 600) if own else self.unroll if counted else min(self.unroll, 3)) and len(p.conds) >= nc + n // 2 or n > 600:
            raise NeedCut((fr.F.name, b))
        p.ghost[k] = (n, sig, nc)

    def at_header(self, p, st, fr, env, b, prev, nphi):
        L = self.headers(fr.F)[b]
        key = (fr.F.name, b)
        # one set of invariants per call context
        C = self.cuts.get(key + fr.uid)
        if C is None:
            C = self.cuts[key + fr.uid] = Cut(key)
            self.changed = True
        phis = [I for I in fr.F.blocks[b].insts[:nphi]]
        if prev in L.body:
            # back edge: invariants must hold again
            g = p.ghost[('cut', fr.uid, b)]
            cur = {}
            for I in phis:
                cur[I.res] = env[I.res]
            self.diff_mem(p, g, C)
            for k2, (n, v) in g['cells'].items():
                c = p.mem.get(k2)
                cur[('cell',) + k2] = c[1] if c is not None else None
            self.check_cands(p, C, g, cur, 'preservation')
            self.check_measure(p, C, g, cur)
            raise PathEnd()
        g = {'entry': {}, 'cells': {}, 'head': {}, 'env': dict(env), 'st': st}
        for I in phis:
            g['entry'][I.res] = env[I.res]
        for (path, off), (n, isptr) in sorted(C.mods.items(), key=str):
            r = self.regions.get(self.cut_path(path, fr, C))
            if r is None:
                continue
            k2 = (r.id, off)
            c = p.mem.get(k2)
            if off == -1:
                if c is None:
                    continue
            elif c is None or c[0] != n:
                v = self.load_at(st, r, off, n, isptr, 'loop')
                c = p.mem[k2] = (n, v)
            g['entry'][('cell',) + k2] = c[1]
            g['cells'][k2] = c
        cands = self.candidates(p, fr, C, g)
        g['cands'] = cands
        self.check_cands(p, C, g, g['entry'], 'establishment')
        # havoc
        for name, v in g['entry'].items():
            h = self.havoc(p, st, v, name, fr)
            g['head'][name] = h
            if isinstance(name, tuple):
                k2 = name[1:]
                p.mem[k2] = (g['cells'][k2][0], h)
            else:
                env[name] = h
        g['mem'] = dict(p.mem)
        p.ghost[('cut', fr.uid, b)] = g
        for cid, f in cands:
            if cid in C.dropped:
                continue
            c = f(g['head'])
            if c is True:
                continue
            if c is False:
                raise PathEnd()
            p.conds.append(zb(c))
        for f in g.get('unfold', ()):
            p.conds.append(zb(f(g['head'])))
        if self.sat(p, None, False) is None:
            raise Unsupported('contradictory invariant at ' + str(key))
        self.covers['loop ' + fr.F.name + ':' + b] = 1

    def cut_path(self, path, fr, C):
        return path

    def diff_mem(self, p, g, C):
        old = g['mem']
        for k, c in p.mem.items():
            o = old.get(k)
            if o is not None and o[0] == c[0] and (o[1] is c[1] or self.same(o[1], c[1])):
                continue
            if k in g['cells'] and o is not None and o[0] == c[0]:
                continue
            r = self.region_by_id(k[0])
            if r.kind == 'alloca' and o is None:
                continue    # created inside the loop body
            pk = (r.path, k[1])
            if pk not in C.mods:
                C.mods[pk] = (c[0], isinstance(c[1], (Ptr, Alt, Fn)))
                self.changed = self.modified = True

    def region_by_id(self, i):
        m = getattr(self, '_rid', None)
        if m is None or len(m) != len(self.regions):
            m = self._rid = {r.id: r for r in self.regions.values()}
        return m[i]

    def same(self, a, b):
        if isinstance(a, N) and isinstance(b, N):
            if isinstance(a.e, int) or isinstance(b.e, int):
                return isinstance(a.e, int) and isinstance(b.e, int) and a.e == b.e
            return a.e.eq(b.e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.region is b.region and self.same(a.off, b.off)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        return False

    def havoc(self, p, st, v, name, fr):
        if isinstance(v, N):
            return self.th.fresh('h', self.width_of(name, fr, st))
        if isinstance(v, bool) or z3.is_bool(v):
            return self.th.fresh_bool('h')
        if isinstance(v, Ptr):
            return Ptr(v.region, self.th.fresh_off('hp'), v.lo, v.hi)
        if isinstance(v, Content):
            return Content(self.array_fn(v.grain), v.grain)
        return v

    def width_of(self, name, fr, st):
        if isinstance(name, tuple):
            return 8 * st.mem[name[1:]][0]
        for I in fr.F.blocks[fr.block].insts:
            if I.res == name:
                return fr.mod.res(I.ty)[1]

    def candidates(self, p, fr, C, g):
        out = []
        for t in self.templates:
            out += t(self, p, fr, C, g)
        return out

    def check_cands(self, p, C, g, cur, what):
        alive = []
        for cid, f in g['cands']:
            if cid in C.dropped:
                continue
            try:
                c = f(cur)
            except (TypeError, AttributeError):
                c = False
            if c is True:
                continue
            alive.append((cid, c))
        if not alive:
            return
        while alive:
            bad = bor(*[bnot(c) for _, c in alive])
            m = self.sat(p, bad) if bad is not True else self.sat(p)
            self.n_obl += 1
            if m is None:
                return
            if m is NOMODEL:
                raise Unsupported('no model for a candidate')
            keep = []
            for cid, c in alive:
                v = c if isinstance(c, bool) else z3.is_true(m.eval(c, model_completion=True))
                if v:
                    keep.append((cid, c))
                else:
                    C.dropped.add(cid)
                    self.changed = True
            if len(keep) == len(alive):
                raise Unsupported('model does not falsify')
            alive = keep

    def check_measure(self, p, C, g, cur):
        pass

    def simple(self, fr, st, I):
        v = super().simple(fr, st, I)
        if I.op == 'alloca':
            rid = v.region.id
            for k in [k for k in st.p.mem if k[0] == rid]:
                del st.p.mem[k]
        return v

    def run_fix(self, F, args=()):
        """run to a fixpoint of the loop invariants, then once more with obligations"""
        for rounds in range(60):
            self.changed = False
            self.reset()
            try:
                self.run(F, args)
            except NeedCut as e:
                self.cutset.add(e.key)
                self.changed = True
                if self.opts.get('verbose'):
                    print('cut', e.key, flush=True)
                continue
            if self.opts.get('verbose'):
                print('round', rounds, 'paths', self.paths, 'steps', self.steps, 'queries', self.queries,
                      {k[1]: (len(C.mods), len(C.dropped)) for k, C in self.cuts.items()}, flush=True)
            if not self.changed:
                return self.failures
            if self.modified:
                # what was dropped before all effects were known may still hold
                self.modified = False
                for C in self.cuts.values():
                    C.dropped.clear()
        raise Unsupported('invariants did not stabilise')

    def reset(self):
        self.failures = []
        self.paths = 0
        self.n_obl = self.n_triv = 0
        self.by_label = {}
        self.covers = {}
        self.uid = 0
        self.th.k = 0
        self.entry = {}
        self.regions = {}
        self.const_cache = {}
        self._rid = None
        Region._n = 0
        del self.defs_[:]
        self.gdefs = []
        self.ndefs = 0
        self.new_solver()
        self.synced = []
        self.steps = 0

    def run(self, F, args=()):
        work = [self.start(F, args)]
        try:
            while work:
                p = work.pop()
                try:
                    self.advance(p, work)
                    self.settle(p)
                except PathEnd:
                    try:
                        self.settle(p)
                    except PathEnd:
                        pass
        except Stop:
            pass
        return self.failures

    def done(self, p, ret):
        self.paths += 1

    def advance(self, p, work):
        st = FState(p)
        while True:
            top = p.stack[-1]
            fr, b, i, env, prev = top
            fr_mod = fr.mod
            blk = fr.F.blocks[b]
            insts = blk.insts
            if i == 0:
                # phis
                k = 0
                new = []
                while insts[k].op == 'phi':
                    I = insts[k]
                    for v, lb in I.x:
                        if lb == prev:
                            new.append((I.res, self.value(fr_mod, env, (I.ty, v))))
                            break
                    else:
                        raise Unsupported('phi without edge')
                    k += 1
                for n, v in new:
                    env[n] = v
                i = top[2] = k
                if b in self.headers(fr.F):
                    if (fr.F.name, b) in self.cutset:
                        self.settle(p)
                        fr.env = env
                        fr.block = b
                        self.at_header(p, st, fr, env, b, prev, k)
                    else:
                        self.visit(p, fr, b, prev)
            fr.env = env
            fr.block = b
            n = len(insts)
            while i < n:
                I = insts[i]
                op = I.op
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
                    raise Unsupported('time limit')
                if op in ('br', 'switch', 'ret', 'unreachable', 'call', 'invoke'):
                    break
                try:
                    v = self.simple(fr, st, I)
                except ForkValue as f:
                    top[2] = i
                    self.fork_value(p, f, work)
                    raise PathEnd()
                if I.res is not None:
                    env[I.res] = v
                i += 1
            top[2] = i
            if op == 'br':
                if len(I.x) == 1:
                    self.jump(p, top, I.x[0])
                    continue
                c = self.value(fr_mod, env, I.a[0])
                if I.x[0] == I.x[1]:
                    self.jump(p, top, I.x[0])
                    continue
                ct = self.feasible(p, c)
                if ct is True:
                    self.jump(p, top, I.x[0])
                    continue
                if ct is None:
                    self.jump(p, top, I.x[1])
                    continue
                cf = self.feasible(p, bnot(c))
                if cf is None:
                    self.jump(p, top, I.x[0])
                    continue
                q = self.fork(p)
                q.conds.append(zb(cf))
                self.jump(q, q.stack[-1], I.x[1])
                work.append(q)
                p.conds.append(zb(ct))
                self.jump(p, top, I.x[0])
                continue
            if op == 'switch':
                v = self.value(fr_mod, env, I.a[0])
                w = fr_mod.res(I.a[0][0])[1]
                if isinstance(v, bool) or w == 1:
                    raise Unsupported('switch on i1')
                d, cases = I.x
                if isinstance(v.e, int):
                    for cv, lb in cases:
                        if cv == v.e:
                            self.jump(p, top, lb)
                            break
                    else:
                        self.jump(p, top, d)
                    continue
                targets = {}
                for cv, lb in cases:
                    targets.setdefault(lb, []).append(self.th.eq(v, self.th.const(cv, w), w))
                allc = [c for cs in targets.values() for c in cs]
                dflt = band(*[bnot(c) for c in allc])
                outs = []
                for lb, cs in targets.items():
                    c = self.feasible(p, bor(*cs))
                    if c is not None:
                        outs.append((lb, c))
                c = self.feasible(p, dflt)
                if c is not None:
                    outs.append((d, c))
                if not outs:
                    raise PathEnd()
                for lb, c in outs[1:]:
                    q = self.fork(p)
                    if c is not True:
                        q.conds.append(zb(c))
                    self.jump(q, q.stack[-1], lb)
                    work.append(q)
                if outs[0][1] is not True:
                    p.conds.append(zb(outs[0][1]))
                self.jump(p, top, outs[0][0])
                continue
            if op == 'ret':
                v = self.value(fr_mod, env, I.a[0]) if I.a else None
                p.stack.pop()
                if not p.stack:
                    self.done(p, v)
                    return
                self.finish_call(p, v)
                continue
            if op == 'unreachable':
                self.oblige(st, False, 'unreachable', fr.where(I), 'unreachable code')
                raise PathEnd()
            # calls
            try:
                r = self.do_call(p, st, fr, env, I)
            except ForkValue as f:
                self.fork_value(p, f, work)
                raise PathEnd()
            except ForkBool as f:
                for c in f.conds[1:]:
                    q = self.fork(p)
                    q.conds.append(zb(c))
                    work.append(q)
                p.conds.append(zb(f.conds[0]))
                continue
            if r is not PUSHED:
                self.finish_call(p, r)

    def jump(self, p, top, lb):
        top[4] = top[1]
        top[1] = lb
        top[2] = 0
        p.visits += 1

    def finish_call(self, p, v):
        top = p.stack[-1]
        fr, b, i, env, prev = top
        I = fr.F.blocks[b].insts[i]
        if I.res is not None:
            env[I.res] = v
        if I.op == 'invoke':
            self.jump(p, top, I.x['to'])
        else:
            top[2] = i + 1

    def fork_value(self, p, f, work):
        vals = []
        e = f.n.e
        w = e.size() if z3.is_bv(e) else 0
        extra = []
        while True:
            m = self.sat(p, z3.And(extra) if extra else None)
            if m is None:
                break
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            extra.append(e != v)
            if len(vals) > self.opts.get('max_fork', 300):
                raise Unsupported('too many values for a symbolic index')
        for v in vals:
            q = self.fork(p)
            q.conds.append(e == v)
            sv = v - (1 << w) if w and v >> (w - 1) else v
            q.hints[e.get_id()] = (sv, e)
            work.append(q)

    def do_call(self, p, st, fr, env, I):
        c = I.x['callee']
        args = []
        for t, v in I.a:
            args.append(None if t[0] == 'metadata' else self.value(fr.mod, env, (t, v)))
        if c[0] == 'l':
            f = env[c[1]]
        else:
            f = self.value(fr.mod, env, (('ptr',), c))
        if isinstance(f, Alt):
            for cond, q in f.alts:
                k = self.feasible(p, cond)
                if k is True:
                    f = q
                    break
                if k is not None:
                    raise ForkBool([k, bnot(k)])
        if not isinstance(f, Fn):
            raise Unsupported('indirect call in ' + fr.name)
        name = f.name
        done, v = self.intrinsic(fr, st, I, name, args)
        if done:
            return v
        if self.hooks:
            r = self.hooks.call(self, p, st, fr, I, name, args)
            if r is not NotImplemented:
                return r
        if name in self.contracts and not any(x[0].F.name == self.contracts[name] for x in p.stack):
            self.calls_seen['contract ' + name] = self.calls_seen.get('contract ' + name, 0) + 1
            name = self.contracts[name]
        F = None
        # functions that are known by their contract only
        for r, k in self.contracts_re:
            if re.match(r, name) and not any(x[0].F.name == k for x in p.stack):
                F = self.prog.lookup(fr.mod, k)
                if F is not None:
                    self.calls_seen['contract ' + name] = self.calls_seen.get('contract ' + name, 0) + 1
                    break
        if F is None:
            F = self.prog.lookup(fr.mod, name)
        if F is None:
            raise Unsupported('external function %s called in %s' % (name, fr.name))
        if len(p.stack) > 200:
            raise Unsupported('recursion in ' + name)
        nf = self.frame(F, p)
        env2 = {}
        for (t, n, at, aty), a in zip(F.params, args):
            if 'byval' in at:
                r = self.region(('alloca', F.name, 'byval.' + n, nf.uid), 'alloca', aty, F.mod)
                d = Ptr(r, self.th.const(0, 64))
                self.memcpy(nf, st, I, d, a, self.th.const(F.mod.sizeof(aty), 64))
                a = d
            env2[n] = a
        self.calls_seen[name] = self.calls_seen.get(name, 0) + 1
        p.stack.append([nf, F.entry, 0, env2, None])
        return PUSHED

    def text_region(self, p):
        """a fresh read-only text of symbolic length"""
        k = len(p.inputs)
        r = self.regions.get(('text', k))
        if r is not None:
            return r.size, Ptr(r, self.th.const(0, 64))
        n = self.glob_fresh(lambda: self.th.fresh('text.len', 64, 0, self.MAXLEN))
        r = self.region(('text', k), 'text', None, None, n)
        r.textf = self.th.fn('text%d' % k, 8)
        return n, Ptr(r, self.th.const(0, 64))

    # -- arrays of symbolic size -------------------------------------------------------------
    def new_array(self, p, path, size, grain):
        # one region for all paths, with a size of its own on each
        if not isinstance(size, N) or isinstance(size.e, int):
            path += (size.e if isinstance(size, N) else size,)
        r = self.regions.get(path)
        if r is None:
            z = size
            if len(path) == 2:
                z = self.glob_fresh(lambda: self.th.fresh('arr.size', 64))
            r = self.region(path, 'arr', None, None, z)
            r.grain = grain
        if r.size is not size and isinstance(r.size, N) and not isinstance(r.size.e, int):
            p.conds.append(self.th.x(r.size, 64) == self.th.x(size, 64))
        p.mem[(r.id, -1)] = (0, Content(self.array_fn(grain), grain))
        return Ptr(r, self.th.const(0, 64))

    def array_fn(self, grain):
        self.th.k += 1
        return self.th.fn('arr!%d' % self.th.k, 8 * grain)

    def glob_fresh(self, make):
        """symbols shared by all paths: their definitions hold on every path"""
        n = len(self.defs_)
        v = make()
        self.gdefs += self.defs_[n:]
        del self.defs_[n:]
        return v

    def entry_value(self, r, off, t, size):
        return self.glob_fresh(lambda: super(ForkExec, self).entry_value(r, off, t, size))

    def base_of(self, r):
        return self.glob_fresh(lambda: super(ForkExec, self).base_of(r))

    def loaded(self, st, e, w):
        """range of a word read from a function"""
        c = self.th.in_range(e, w)
        if c is not None:
            k = ('rng', e.get_id())
            if k not in st.p.ghost:
                st.p.ghost[k] = e
                st.p.conds.append(c)
        return N(e, 0, (1 << w) - 1)

    def in_word(self, st, off, g):
        if g == 1:
            return 0
        if isinstance(off.e, int):
            return off.e % g
        if self.th.kind == 'int':
            e = z3.simplify(off.e % g)
            if z3.is_int_value(e):
                return e.as_long()
        elif g & (g - 1):
            e = z3.simplify(z3.URem(off.e, g))
        else:
            e = z3.simplify(z3.Extract(g.bit_length() - 2, 0, off.e))
        if z3.is_bv_value(e):
            return e.as_long()
        m = self.sat(st.p)
        v = m.eval(e, model_completion=True).as_long()
        if self.sat(st.p, e != v) is not None:
            raise Unsupported('unaligned array access')
        return v

    def arr_load(self, st, p, n, where):
        r = p.region
        th = self.th
        self.check_bounds(st, r, p.off, n, where)
        c = st.p.mem[(r.id, -1)][1]
        g = c.grain
        if self.hooks.on_array_load is not None:
            self.hooks.on_array_load(self, st, r, p.off)
        k = self.in_word(st, p.off, g)
        if k + n <= g:
            w = c.f(th.x(th.addm(p.off, -k), 64))
            self.loaded(st, w, 8 * g)
            return N(z3.simplify(th.part(w, k, n, g)), 0, (1 << 8 * n) - 1)
        if k or n % g:
            raise Unsupported('array access across words')
        ws = [c.f(th.x(th.addm(p.off, i), 64)) for i in range(0, n, g)]
        for w in ws:
            self.loaded(st, w, 8 * g)
        return N(th.concat(ws, g), 0, (1 << 8 * n) - 1)

    def arr_store(self, st, p, n, v, where):
        r = p.region
        th = self.th
        self.check_bounds(st, r, p.off, n, where)
        c = st.p.mem[(r.id, -1)][1]
        g = c.grain
        if not isinstance(v, N):
            raise Unsupported('pointer stored in an array')
        k = self.in_word(st, p.off, g)
        x = th.x(v, 8 * n)
        f = c.f
        if k + n <= g:
            o = th.x(th.addm(p.off, -k), 64)
            if n < g:
                old = f(o)
                self.loaded(st, old, 8 * g)
                x = th.put(old, k, n, g, x)
            nf = lambda i, f=f, o=o, x=x: z3.If(i == o, x, f(i))
        else:
            if k or n % g:
                raise Unsupported('array access across words')
            o = th.x(p.off, 64)

            def nf(i, f=f, o=o, x=x):
                r = f(i)
                for j in range(0, n, g):
                    r = z3.If(i == o + j, th.part(x, j, g, n), r)
                return r
        st.p.mem[(r.id, -1)] = (0, Content(nf, g))

    def memcpy(self, fr, st, I, d, s, n):
        where = fr.where(I)
        da = isinstance(d, Ptr) and d.region is not None and d.region.kind == 'arr'
        sa = isinstance(s, Ptr) and s.region is not None and s.region.kind == 'arr'
        if not da and not sa:
            return super().memcpy(fr, st, I, d, s, n)
        th = self.th
        g = (d if da else s).region.grain
        if isinstance(n.e, int) and n.e <= 64:
            if n.e % g:
                g = 1
            vs = [self.load(st, fr.mod, self.padd(s, i), ('i', 8 * g), where) for i in range(0, n.e, g)]
            for i, v in enumerate(vs):
                self.store(st, fr.mod, self.padd(d, i * g), ('i', 8 * g), v, where)
            return
        if not da:
            raise Unsupported('copy of symbolic size out of an array to %r (%s)' % (d, where))
        self.check_span(st, d.region, d.off, n, where)
        so, do, m = th.x(s.off, 64), th.x(d.off, 64), th.x(n, 64)
        if sa:
            self.check_span(st, s.region, s.off, n, where)
            src = st.p.mem[(s.region.id, -1)][1].f
            if s.region.grain != g:
                raise Unsupported('copy between arrays')
        elif s.region.kind == 'text':
            self.check_span(st, s.region, s.off, n, where)
            src = s.region.textf
            if g != 1:
                raise Unsupported('copy of text to words')
        elif s.region.const is not None and g == 1:
            bs = self.const_bytes(s.region)
            self.check_span(st, s.region, s.off, n, where)

            def src(i):
                r = th.cst(0, 8)
                for j, b in enumerate(bs):
                    r = z3.If(i == j, th.cst(b, 8), r)
                return r
        else:
            raise Unsupported('copy of symbolic size to an array')
        f = st.p.mem[(d.region.id, -1)][1].f

        def nf(i):
            return z3.If(z3.And(th.ule(do, i), th.ult(i - do, m)), src(i - do + so), f(i))
        st.p.mem[(d.region.id, -1)] = (0, Content(nf, g))

    def check_span(self, st, r, off, n, where):
        th = self.th
        x, m = th.x(off, 64), th.x(n, 64)
        s = th.x(r.size, 64) if isinstance(r.size, N) else th.cst(r.size, 64)
        f = [th.ule(m, s), th.ule(x, s - m)] + ([x >= 0] if th.kind == 'int' else [])
        self.oblige(st, z3.Or(m == 0, z3.And(f)), 'bounds', where, 'copied span')

    def store(self, st, mod, p, t, v, where):
        if isinstance(p, Ptr) and p.region is not None and p.region.kind == 'arr':
            t = mod.res(t)
            if t[0] == 'i' and t[1] % 8 == 0:
                return self.arr_store(st, p, t[1] // 8, v, where)
            if t[0] == 'i':
                raise Unsupported('bit stored in an array')
            if t[0] not in ('struct', 'arr'):
                raise Unsupported('store of %r to an array' % (t,))
        return super().store(st, mod, p, t, v, where)

    def load(self, st, mod, p, t, where):
        if isinstance(p, Ptr) and p.region is not None and p.region.kind == 'arr':
            t = mod.res(t)
            if t[0] == 'i' and t[1] % 8 == 0:
                return self.arr_load(st, p, t[1] // 8, where)
            if t[0] not in ('struct', 'arr'):
                raise Unsupported('load of %r from an array' % (t,))
        if isinstance(p, Ptr) and p.region is not None and p.region.kind == 'text':
            t = mod.res(t)
            if t[0] != 'i':
                raise Unsupported('load of %r from text' % (t,))
            n = mod.sizeof(t)
            self.check_bounds(st, p.region, p.off, n, where)
            bs = [self.loaded(st, p.region.textf(self.th.x(self.th.addm(p.off, i), 64)), 8) for i in range(n)]
            if self.hooks.on_text_load is not None:
                self.hooks.on_text_load(self, st, p.region, p.off, bs)
            return self.from_cell(self.th.join(bs), t, n)
        return super().load(st, mod, p, t, where)

    # fork mode: tables and arrays are indexed concretely
    def load_table(self, st, r, off, t, n, where):
        raise ForkValue(off, 64)

    load_array = load_table


class Cut:
    def __init__(self, key):
        self.key = key
        self.mods = {}
        self.dropped = set()
        self.w64 = None


class ForkBool(Exception):
    def __init__(self, conds):
        self.conds = conds


class Stop(Exception):
    pass


PUSHED = object()
NOMODEL = object()


def base_templates(ex, p, fr, C, g):
    """linear relations between what the loop changes, text lengths and fixed values"""
    th = ex.th
    W = 64
    vs = []
    for name, v in g['entry'].items():
        if isinstance(v, N) and (name in C.w64 if C.w64 is not None else True):
            w = ex.width_of(name, fr, g['st'])
            if w == 64:
                vs.append((name, 'i'))
        elif isinstance(v, Ptr) and v.region is not None:
            vs.append((name, 'p'))

    def val(cur, x):
        v = cur[x[0]]
        return th.x(v if x[1] == 'i' else v.off, W)
    fixed = []
    for k, (kind, v) in enumerate(p.inputs):
        if kind == 'text':
            fixed.append(('len%d' % k, th.x(v[0], W)))
        elif kind == 'u64':
            fixed.append(('in%d' % k, th.x(v, W)))
    for t, n, at, aty in fr.F.params:
        v = g['env'].get(n)
        if isinstance(v, N) and t == ('i', 64):
            fixed.append(('arg ' + n, th.x(v, W)))
    for n, v in p.ghost.get('terms', ()):
        fixed.append((n, th.x(v, W)))
    # what the loop compares with
    for n in limits(ex, fr, C.key[1]):
        v = g['env'].get(n)
        if isinstance(v, Ptr) and v.region is not None and n not in g['entry']:
            fixed.append(('limit ' + n, th.x(v.off, W)))
        elif isinstance(v, N) and n not in g['entry']:
            fixed.append(('limit ' + n, th.x(v, W)))
    for x in vs:
        fixed.append(('entry %s' % (x[0],), val(g['entry'], x)))
    out = []
    seen = set()
    uniq = []
    for n, e in fixed:
        if e.get_id() not in seen:
            seen.add(e.get_id())
            uniq.append((n, e))
    fixed = uniq

    def add(cid, f):
        out.append((cid, f))
    for i, x in enumerate(vs):
        for n, e in fixed:
            add(('le', x[0], n), lambda cur, x=x, e=e: th.ule(val(cur, x), e))
            add(('ge', x[0], n), lambda cur, x=x, e=e: th.ule(e, val(cur, x)))
            add(('lt', x[0], n), lambda cur, x=x, e=e: th.ult(val(cur, x), e))
        for j, y in enumerate(vs):
            if i == j:
                continue
            add(('le', x[0], y[0]), lambda cur, x=x, y=y: th.ule(val(cur, x), val(cur, y)))
            if i < j:
                s0 = val(g['entry'], x) + val(g['entry'], y)
                d0 = val(g['entry'], x) - val(g['entry'], y)
                add(('sum', x[0], y[0]), lambda cur, x=x, y=y, s0=s0: val(cur, x) + val(cur, y) == s0)
                add(('dif', x[0], y[0]), lambda cur, x=x, y=y, d0=d0: val(cur, x) - val(cur, y) == d0)
                for n, e in fixed:
                    add(('sumis', x[0], y[0], n), lambda cur, x=x, y=y, e=e: val(cur, x) + val(cur, y) == e)
        for gn, (gi, P) in enumerate(p.ghost.get('points', ())):
            gie = th.x(gi, W)
            Pe = zb(P)
            add(('pt', x[0], gn), lambda cur, x=x, gie=gie, Pe=Pe: z3.Implies(th.ult(gie, val(cur, x)), Pe))
            for n, e in fixed:
                add(('ptfrom', x[0], gn, n), lambda cur, x=x, gie=gie, Pe=Pe, e=e: z3.Implies(
                    z3.And(th.ule(e, gie), th.ult(gie, val(cur, x))), Pe))
    return out


def limits(ex, fr, b):
    """names defined outside of the loop that it compares with"""
    L = ex.headers(fr.F)[b]
    inside = {I.res for x in L.body for I in fr.F.blocks[x].insts if I.res}
    out = []
    for x in L.body:
        for I in fr.F.blocks[x].insts:
            if I.op == 'icmp' and fr_wide(fr, I.a[0][0]):
                for t, o in I.a:
                    if o[0] == 'l' and o[1] not in inside and o[1] not in out:
                        out.append(o[1])
    return sorted(out)


def fr_wide(fr, t):
    t = fr.mod.res(t)
    return t == ('i', 64) or t[0] == 'ptr'


class Hooks:
    """dv_* harness primitives and a few library contracts."""

    def __init__(self):
        self.extra = {}
        self.used = {}
        self.patterns = []
        self.on_text_load = None
        self.on_array_load = None

    def load(self, ex, st, p, t, n, where):
        return None

    def store(self, ex, st, p, t, n, v, where):
        return False

    def memcpy(self, ex, st, d, s, n, where):
        return False

    def memcpy_const(self, ex, st, d, s, n, where):
        return False

    def cstr(self, ex, ptr):
        r = ptr.region
        bs = ex.const_bytes(r)[ptr.off.e:]
        return bytes(bs[:bs.index(0)]).decode()

    def call(self, ex, p, st, fr, I, name, args):
        th = ex.th
        h = self.extra.get(name)
        if h is not None:
            r = h(ex, p, st, fr, I, args)
            if r is not NotImplemented:
                self.used[name] = self.used.get(name, 0) + 1
                return r
        for f in self.patterns:
            r = f(ex, p, st, fr, I, name, args)
            if r is not NotImplemented:
                self.used['pattern'] = self.used.get('pattern', 0) + 1
                return r
        if name.startswith('dv_'):
            if name in ('dv_u8', 'dv_u16', 'dv_u32', 'dv_u64'):
                w = int(name[4:])
                v = th.fresh(name, w)
                p.inputs.append(('u%d' % w, v))
                return v
            if name in ('dv_havoc_u8', 'dv_havoc_u16', 'dv_havoc_u32', 'dv_havoc_u64'):
                return th.fresh(name, int(name[10:]))
            if name == 'dv_bool':
                v = th.fresh_bool(name)
                p.inputs.append(('bool', v))
                return v
            if name == 'dv_assume':
                ex.assume(st, args[0])
                return None
            if name == 'dv_assert':
                ex.oblige(st, args[0], 'assert', fr.where(I), self.cstr(ex, args[1]))
                return None
            if name == 'dv_cover':
                lb = self.cstr(ex, args[0])
                ex.covers[lb] = ex.covers.get(lb, 0) + 1
                return None
            if name == 'dv_point':
                # an arbitrary position and what is claimed of it, for loop invariants
                p.ghost['points'] = p.ghost.get('points', ()) + ((args[0], args[1]),)
                return None
            if name == 'dv_term':
                p.ghost['terms'] = p.ghost.get('terms', ()) + (('term%d' % len(p.ghost.get('terms', ())), args[0]),)
                return None
            if name == 'dv_array':
                # memory of the given size in bytes, accessed in words of the given size
                n, g = args
                k = len(p.inputs)
                q = ex.new_array(p, ('array', k), n, g.e)
                p.inputs.append(('array', (n, q.region, p.mem[(q.region.id, -1)][1].f)))
                return q
            if name == 'dv_text':
                # view returned as {len, ptr}
                n, q = ex.text_region(p)
                p.inputs.append(('text', (n, q.region)))
                return Agg([n, q])
        if name == '_ZN6ulight11assert_failERKNS_15Assertion_ErrorE' or 'assert_fail' in name:
            ex.oblige(st, False, 'assertion', fr.where(I), 'assertion in ' + fr.name)
            raise PathEnd()
        if '__glibcxx_assert_fail' in name or name.startswith('_ZSt') and '__throw' in name or name in (
                '__cxa_throw', 'abort', '__cxa_call_unexpected', '_ZSt9terminatev', '__clang_call_terminate'):
            ex.oblige(st, False, 'library check', fr.where(I), name + ' in ' + fr.name)
            raise PathEnd()
        if name in ('__cxa_allocate_exception', '__cxa_free_exception'):
            return ex.null()
        return NotImplemented
