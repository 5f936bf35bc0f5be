"""python3-vt -m dv.check ID: decides one property by proving the obligations of its harness
functions over the current sources of the repository."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

from . import build, fcheck, props
from .fork import ForkExec, Hooks, Failure
from .vc import Unsupported

VERIF = fcheck.VERIF
EVID = os.environ.get('DV_EVID', os.path.join(VERIF, 'evidence'))

COMMON_TRUST = [
    'clang 18 -O0 front end and the LLVM passes sroa, early-cse, simplifycfg, instsimplify, lcssa',
    'the verification-condition generator in /verif/dv (IR semantics, memory model)',
    'z3 (python bindings)',
]
COMMON_ASSUME = [
    'exception-unwinding edges are not followed: every throw, failed assertion and failed library check is itself an obligation that must be unreachable',
    'operator new / delete and the C library are not modelled unless named; texts are at most 2^60 code units and do not alias writable memory',
]


def worker(args):
    prop, fname, prog_key = args
    t = time.time()
    prog = PROG[0]
    cf = props.CONFIG[prop]
    F = prog.mods[0].funcs[fname]
    h = Hooks()
    if 'hooks' in cf:
        cf['hooks'](h)
    ex = ForkExec(prog, h, opts=dict(cf.get('opts', {}), **cf.get('fopts', {}).get(fname, {})),
                  th=cf.get('th_in', {}).get(fname, cf.get('th')), deadline=time.time() + cf.get('limit', 700))
    ct = cf.get('contracts', {})
    ex.contracts = {k: v for k, v in ct.items() if not (fname in cf.get('proves', {}).get(k, ()))}
    if 'contracts_in' in cf:
        ex.contracts = {k: v for k, v in cf['contracts_in'].get(fname, {}).items()}
    ex.contracts_re = () if fname in cf.get('real', ()) else cf.get('contracts_re', ())
    if 'contracts_re_in' in cf:
        ex.contracts_re = cf['contracts_re_in'].get(fname, ())
    ex.templates = ex.templates + cf.get('templates', []) + cf.get('fopts', {}).get(fname, {}).get('templates', [])
    try:
        fs = ex.run_fix(F)
        err = None
    except Unsupported as e:
        fs, err = ex.failures, str(e)
    except Exception as e:
        import traceback
        fs, err = ex.failures, 'generator: %s %s' % (type(e).__name__, traceback.format_exc()[-700:])
    seen = {}
    out = []
    for f in fs:
        k = (f.kind, f.label)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            out.append((f.kind, f.label, f.where, f.inputs))
    return dict(name=fname, failures=out, error=err, paths=ex.paths, obl=ex.n_obl, triv=ex.n_triv,
                labels=ex.by_label, covers=list(ex.covers), queries=ex.queries, solver=ex.solver_s,
                t=time.time() - t, cuts=['%s:%s' % k for k in ex.cutset], calls=ex.calls_seen, hooks=h.used, cvc5=getattr(ex, 'cvc5_used', 0),
                dropped=ex.infeasible_cuts if hasattr(ex, 'infeasible_cuts') else 0)


PROG = [None]


def cover_labels(prog, fname):
    """labels of every dv_cover reachable from a harness function inside the harness module"""
    m = prog.mods[0]
    out = set()
    seen = set()
    todo = [fname]
    while todo:
        n = todo.pop()
        if n in seen or n not in m.funcs:
            continue
        seen.add(n)
        F = m.funcs[n]
        for b in F.blocks.values():
            for I in b.insts:
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if c[0] == 'g':
                        if c[1] == 'dv_cover':
                            out.add(str(I.a[0]))
                        elif not c[1].startswith('dvh_'):
                            todo.append(c[1])
    return out


def native(work, cf, prop):
    exe = os.path.join(work, 'native')
    srcs = [os.path.join(VERIF, 'harness', cf['harness'] + '.cpp'), os.path.join(VERIF, 'harness', 'runtime.cpp')]
    srcs += [os.path.join(VERIF, 'harness', x) for x in cf.get('native', [])]
    for g in cf.get('native_gen', []):
        srcs.append(g(work))
    srcs += build.repo_sources() if cf.get('native_tus') == 'all' else [build.REPO + '/src/main/cpp/' + t for t in cf['tus']]
    # sources the harness includes itself
    srcs = [x for x in srcs if not x.endswith(tuple(cf.get('native_exclude', ())) or ' ')]
    flags = ['-std=c++23', '-D__cpp_concepts=202002L', '-w', '-fsized-deallocation', '-D_GLIBCXX_ASSERTIONS', '-I' + build.REPO + '/include',
             '-I' + build.REPO + '/src/main/cpp', '-I' + fcheck.HERE, '-I' + work, '-DDV_NATIVE', '-O1', '-g1', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=undefined', '-rdynamic'] + list(cf.get('defines', ()))
    objs = []
    import concurrent.futures

    def one(s):
        o = os.path.join(work, 'n_' + os.path.basename(s) + '.o')
        build.run([build.CLANG] + flags + ['-c', s, '-o', o])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    build.run([build.CLANG] + flags + objs + ['-ldl', '-o', exe])
    return exe


def run_native(exe, args, timeout, cf):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0',
               UBSAN_OPTIONS='print_stacktrace=0')
    if cf.get('alphabet'):
        env['DV_ALPHABET'] = cf['alphabet']
    if cf.get('words'):
        w = cf['words']
        env['DV_WORDS'] = '\x1f'.join(w() if callable(w) else w)
    try:
        r = subprocess.run([exe] + args, capture_output=True, timeout=timeout, env=env)
        return r.returncode, (r.stdout + r.stderr).decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def write_replay(path, head, inputs):
    with open(path, 'w') as f:
        for l in head:
            f.write('# ' + l.replace('\n', '\n# ') + '\n')
        for kind, v in inputs:
            if kind in ('text', 'array'):
                f.write('%s %d %s\n' % (kind, v[0], ''.join('%02x' % b for b in v[1])))
            else:
                f.write('%s %d\n' % (kind, v))


def confirm(prop, cf, work, results):
    """replay the verifier's counterexamples natively, else search; returns (path, confirmed)"""
    os.makedirs(EVID, exist_ok=True)
    seed = os.environ.get('VERIF_SEED', '1')
    path = os.path.join(EVID, prop + '.replay')
    bad = [r for r in results if r['failures'] or r['error']]
    r0 = bad[0]
    k, lb, wh, ins = r0['failures'][0] if r0['failures'] else ('not discharged', r0['error'], r0['name'], [])
    head = ['property %s' % prop, 'harness function %s' % r0['name'], 'failed obligation: %s: %s' % (k, lb),
            'at %s' % wh]
    head += ['not discharged: %s: %s' % (r['name'], r['error']) for r in bad if r['error']][:20]
    head += ['also failed: %s: %s: %s at %s' % (r['name'], f[0], f[1], f[2]) for r in bad for f in r['failures'][:20]][:40]
    write_replay(path, head + (['verifier model of the inputs (not reproduced on the real code):'] if ins else []), ins)
    try:
        exe = native(work, cf, prop)
    except build.BuildError as e:
        open(path, 'a').write('# native build failed\n')
        print('native build failed:', str(e)[-1500:])
        return path, False
    tried = 0
    for r in bad:
        for k, lb, wh, ins in r['failures']:
            if tried >= 40:
                break
            tried += 1
            p2 = os.path.join(work, 'r.txt')
            write_replay(p2, [], ins)
            rc, o = run_native(exe, [r['name'], 'replay', p2], 60, cf)
            if rc not in (0, 2):
                write_replay(path, ['property %s' % prop, 'harness function %s' % r['name'],
                                    'failed obligation: %s: %s' % (k, lb), 'at %s' % wh,
                                    'replayed on the real code (exit %s): ' % rc + o[-1500:]], ins)
                return path, True
    names = [r['name'] for r in bad]
    for n in names[:6]:
        p2 = os.path.join(work, 's.txt')
        rc, o = run_native(exe, [n, 'search', seed, str(cf.get('search', 15)), p2], 60, cf)
        if rc == 1 and os.path.exists(p2):
            body = open(p2).read()
            with open(path, 'w') as f:
                f.write('# property %s\n# harness function %s\n# failing input found by native search\n# %s\n' % (
                    prop, n, o[-1500:].replace('\n', '\n# ')))
                f.write(body)
            return path, True
    return path, False


def run_harnesses(prop, cf, work, only=None):
    if 'gen' in cf:
        os.makedirs(work, exist_ok=True)
        cf['gen'](work)
    prog = fcheck.load(work, cf['harness'], cf['tus'], defines=cf.get('defines', ()))
    PROG[0] = prog
    names = [f.name for f in fcheck.harness_functions(prog)]
    if only:
        names = [n for n in names if only in n]
    heavy = cf.get('heavy', ())
    names.sort(key=lambda n: (n not in heavy, n))
    ctx = mp.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        results = pool.map(worker, [(prop, n, None) for n in names], chunksize=1)
    for r in results:
        r['cover_labels'] = len(cover_labels(prog, r['name']))
    return prog, results


def main(prop, only=None, verbose=False):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    cf = props.CONFIG[prop]
    if 'main' in cf:
        return cf['main'](prop, only, verbose)
    work = build.workdir()
    try:
        prog, results = run_harnesses(prop, cf, work, only)
    except build.BuildError as e:
        print('ERROR: build failed:', str(e)[-3000:])
        return 2
    code = 0
    viol = 0
    errors = []
    known = load_known(prop)
    for r in results:
        # an assertion labelled `KNOWN ...` states what a listed finding breaks, and nothing else
        hit = [f for f in r['failures'] if f[1].startswith('KNOWN ') and '[%s]' % f[1][6:] in ''.join(known)]
        r['failures'] = [f for f in r['failures'] if f not in hit]
        for lb in sorted(set(f[1][6:] for f in hit)):
            l = [k for k in known if '[%s]' % lb in k][0]
            print('KNOWN-FINDING: property=%s %s' % (prop, l.split(' ', 2)[2]))
        ncov = len([c for c in r['covers'] if not c.startswith('loop ')])
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        elif not r['failures'] and (ncov < r['cover_labels'] or r['obl'] == 0 or ncov == 0):
            r['error'] = 'vacuous (%d of %d cover points reached, %d obligations)' % (ncov, r['cover_labels'], r['obl'])
            errors.append('%s: %s' % (r['name'], r['error']))
        if verbose or r['failures']:
            print(r['name'], 'paths', r['paths'], 'obligations', r['obl'], 'trivial', r['triv'], 'queries', r['queries'],
                  'solver %.1f' % r['solver'], 't %.1f' % r['t'], 'cuts', len(r['cuts']), r['error'] or '',
                  [f[:3] for f in r['failures'][:4]], str([f[3] for f in r['failures'][:1]])[:300])
        viol += len(r['failures'])
    for e in errors:
        print('NOT DISCHARGED:', e)
    if viol or errors:
        # an obligation the verifier does not accept, for whatever reason, is not proved
        path, ok = confirm(prop, cf, work, results)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if ok else ' no-failing-input-found'))
        code = 1
    total = sum(r['obl'] for r in results)
    evidence(prop, tier, cf, results, total, viol, time.time() - t0, work)
    print('%s: %d obligations over %d harness functions, %d failed, %.1f s' % (prop, total, len(results), viol, time.time() - t0))
    return code


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop):
                out.append(l.strip())
    return out


def under_contract(results):
    fs = set()
    for r in results:
        fs |= set(n for n in r['calls'] if 'ulight' in n)
    return sorted(x for x in build.demangle(sorted(fs)).values() if x)


def evidence(prop, tier, cf, results, total, viol, wall, work):
    os.makedirs(EVID, exist_ok=True)
    fns = under_contract(results)
    cov = dict(
        obligations=total, discharged=total - viol if viol <= total else 0,
        checker_cmd='python3-vt -m dv.check ' + prop,
        trusted_base=COMMON_TRUST + cf.get('trust', []),
        back_end='z3: %d queries (%d of them handed to cvc5); syntactic simplification: %d obligations' % (
            sum(r['queries'] for r in results), sum(r['cvc5'] for r in results), sum(r['triv'] for r in results)),
        solver_s=round(sum(r['solver'] for r in results), 1),
        paths=sum(r['paths'] for r in results),
        functions_under_contract=fns,
        harness_functions={r['name']: dict(obligations=r['obl'], paths=r['paths'], loops_cut=len(r['cuts']),
                                           seconds=round(r['t'], 1)) for r in results},
        obligations_by_label={k: sum(r['labels'].get(k, 0) for r in results)
                              for k in sorted(set(x for r in results for x in r['labels']))[:60]},
        contracts_used=sorted(set(x for r in results for x in r['calls'] if x.startswith('contract '))
                              | set('hook ' + x for r in results for x in r['hooks'])),
        bounds=cf.get('bounds', 'none'),
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=cf.get('level', 'proof'),
              coverage=cov, assumptions=COMMON_ASSUME + cf.get('assume', []), wall_s=round(wall, 1), violations=1 if viol or any(r['error'] for r in results) else 0)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    a = sys.argv[1:]
    v = '-v' in a
    a = [x for x in a if x != '-v']
    sys.exit(main(a[0], a[1] if len(a) > 1 else None, v))
