"""C01 - C03: the highlighters.  Every language is verified modularly (summ.py) as far as the verifier reaches;
the languages outside its reach are exercised by a bounded stand-in (bounded.py), labelled as such."""
import json
import multiprocessing as mp
import os
import sys
import time

from . import bounded, build, check, fcheck, native, props, summ
from .fork import Hooks
from .vc import Unsupported

EMIT_LABELS = ('tokens are not empty', 'tokens begin in the source', 'tokens end in the source', 'tokens are in order and disjoint')
FILES = [None]
FUZZ = [None]
PROGS = {}


def relevant(prop, f):
    """does the failed obligation f decide prop"""
    if prop == 'C01':
        return f[1] in EMIT_LABELS
    if prop == 'C03':
        return f[0] == 'termination'
    return f[0] != 'termination'


def prove(prop, lang, limit):
    sys.setrecursionlimit(20000)
    t = time.time()
    cf = props.CONFIG['C16' if prop == 'C16' else 'C01']
    out = dict(task='proof', lang=lang, failures=[], error=None)
    W = None
    try:
        prog = fcheck.load_closure(FILES[0], 'dvh_' + lang, [r for r, _ in cf['contracts_re']])

        def make():
            h = Hooks()
            cf['hooks'](h)
            ex = summ.ModExec(prog, h, opts=cf.get('opts', {}), th='int')
            ex.contracts_re = cf['contracts_re']
            ex.templates = ex.templates + cf.get('templates', [])
            return ex
        W = summ.World(prog, make, props.pick, False, time.time() + limit)
        summ.verify_program(W, prog.mods[0].funcs['dvh_' + lang])
    except Unsupported as e:
        out['error'] = str(e)
    except RecursionError:
        out['error'] = 'recursion'
    except Exception as e:
        import traceback
        out['error'] = 'generator: %s %s' % (type(e).__name__, traceback.format_exc()[-600:])
    fs = {}
    labels = {}
    fns = set()
    obl = triv = paths = loops = 0
    covers = {}
    hooks = set()
    if W is not None:
        for S in W.summs.values():
            fns.add(S.F.name)
            fns |= set(getattr(S, 'seen', ()))
            obl += S.stats.get('obl', 0)
            triv += S.stats.get('triv', 0)
            paths += S.stats.get('paths', 0)
            loops += len(S.cutset)
            hooks |= set(getattr(S, 'hooks_used', ()))
            for k, v in getattr(S, 'by_label', {}).items():
                labels[k] = labels.get(k, 0) + v
            if S.root:
                covers = S.covers
            for f in S.failures:
                fs.setdefault((S.F.name, f.kind, f.label, f.where), (f.kind, f.label, '%s in %s' % (f.where, S.F.name), f.inputs))
        if out['error'] is None and prop in ('C03', 'C16'):
            for f in W.termination():
                fs.setdefault(f[:3], f + ([],))
        if not out['error'] and not fs and (obl == 0 or 'end' not in covers):
            out['error'] = 'vacuous'
    out.update(failures=list(fs.values()), labels=labels, fns=sorted(fns), obl=obl, triv=triv, paths=paths, loops=loops, hooks=sorted(hooks),
               summaries=len(W.summs) if W else 0, inline=sorted(W.inline) if W else [], total=dict(W.total) if W else {}, t=time.time() - t,
               measures=W.measures if W else [], contracts=contracts(W) if W and out['error'] is None else {})
    return out


def contracts(W):
    out = {}
    for S in W.summs.values():
        if S.root:
            continue
        a, b = out.get(S.F.name, (0, 0))
        out[S.F.name] = (a + len([1 for c, _ in S.pre or () if c not in S.pre_dropped]),
                         b + len([1 for c, _ in S.post or () if c not in S.post_dropped]))
    return out


def task(a):
    kind, prop, what, secs, seed = a
    if kind == 'proof':
        return prove(prop, what, secs)
    if kind == 'fuzz':
        t = time.time()
        bad, runs = bounded.fuzz(FUZZ[0], prop, what, secs, seed)
        return dict(task='fuzz', lang=what, bad=bad, runs=runs, t=time.time() - t)
    check.PROG[0] = PROGS[kind]
    r = check.worker((kind, what, None))
    r['task'] = 'layer'
    r['of'] = kind
    return r


def write_input(prop, path, bad, lang):
    msg, data = bad
    with open(path, 'w') as f:
        f.write('# property %s, language %s\n# %s\n' % (prop, lang, msg))
        if data is not None:
            f.write('# the first byte: bit 0 and 1 the flags, bit 2 a token buffer of one; the rest is the source text\n')
            f.write('# reproduce: build the fuzzer (dv/bounded.py) and run it with DVF_PROP=%d DVF_LANG=%d on the bytes below\n' % (
                int(prop[1:]), bounded.lang_numbers()[lang]))
            f.write('input %s\n' % data.hex())


def main(prop, only=None, verbose=False):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cf = props.CONFIG[prop]
    work = build.workdir()
    langs = props.LANGS
    proved_langs = [l for l in cf['prove'] if not only or l == only]
    rest = [l for l in langs if l not in cf['prove'] and (not only or l == only)]
    try:
        FILES[0] = fcheck.compile_opt(work, 'C01')
        FUZZ[0] = bounded.make(work, prop)
        for q in cf.get('layers', ()):
            w = os.path.join(work, q)
            os.makedirs(w)
            c2 = props.CONFIG[q]
            if 'gen' in c2:
                c2['gen'](w)
            PROGS[q] = fcheck.load(w, c2['harness'], c2['tus'], defines=c2.get('defines', ()))
    except build.BuildError as e:
        print('ERROR: build failed:', str(e)[-3000:])
        return 2
    slow = tier == 'thorough'
    secs = cf.get('fuzz_s', 90) * (2 if slow else 1)
    tasks = [('proof', prop, l, cf.get('proof_s', 420), seed) for l in proved_langs]
    for q in cf.get('layers', ()):
        tasks += [(q, prop, f.name, 0, seed) for f in fcheck.harness_functions(PROGS[q])]
    tasks += [('fuzz', prop, l, secs, seed) for l in rest]
    # the token layer below the contracts is exercised in every language
    tasks += [('fuzz', prop, l, 6, seed) for l in proved_langs]
    ctx = mp.get_context('fork')
    violations = []             # (head lines, lang, input or None)
    res = []
    undecided = []
    found = None
    pool = ctx.Pool(8, maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(task, tasks, chunksize=1):
            res.append(r)
            if verbose:
                print(r['task'], r.get('lang') or r.get('name'), '%.0f s' % r['t'], r.get('bad') or '', r.get('runs') or '', r.get('error') or '',
                      [f[:3] for f in r.get('failures', ())][:5], flush=True)
            if r['task'] == 'fuzz' and r['bad']:
                violations.append((r['bad'][0], r['lang'], r['bad']))
                found = found or (r['bad'], r['lang'])
                break           # a failing input decides
            if r['task'] == 'proof':
                fs = [f for f in r['failures'] if relevant(prop, f)]
                if fs:
                    violations += [('%s: %s at %s' % f[:3], r['lang'], None) for f in fs]
                elif r['error']:
                    undecided.append((r['lang'], r['error']))
            if r['task'] == 'layer':
                if r['failures'] or r['error']:
                    violations.append((str(r['failures'][:1] or r['error']), r['of'] + ' ' + r['name'], None))
    finally:
        pool.terminate()
        pool.join()
    bad_langs = sorted({v[1] for v in violations if v[2] is None and v[1] in langs})
    again = [l for l, _ in undecided]
    left = max(20, min(75, (780 - (time.time() - t0)) / 2.2))
    if not found and (bad_langs or again):
        # a failing input for the obligations that fail, and the bounded stand-in for what was not decided
        todo = bad_langs or again
        n = max(1, 8 // len(todo))
        pool = ctx.Pool(8, maxtasksperchild=1)
        try:
            for r in pool.imap_unordered(task_seeded, [('fuzz', prop, l, int(left), seed + 10 + k) for l in todo for k in range(n)], chunksize=1):
                res.append(r)
                if r['bad']:
                    violations.append((r['bad'][0], r['lang'], r['bad']))
                    found = (r['bad'], r['lang'])
                    break
        finally:
            pool.terminate()
            pool.join()
    for l, e in undecided:
        print('UNDECIDED %s: not within the reach of the verifier (%s); bounded only' % (l, e[:200].replace('\n', ' ')))
    code = 0
    os.makedirs(check.EVID, exist_ok=True)
    path = os.path.join(check.EVID, prop + '.replay')
    if violations:
        code = 1
        for v in violations[:12]:
            print('  %s: %s' % (v[1], v[0]))
        if found:
            write_input(prop, path, found[0], found[1])
        else:
            with open(path, 'w') as f:
                f.write('# property %s\n' % prop)
                for v in violations:
                    f.write('# failed obligation (%s): %s\n' % (v[1], v[0].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    evidence(prop, tier, seed, cf, res, undecided, violations, rest, secs, time.time() - t0)
    ok = [r['lang'] for r in res if r['task'] == 'proof' and not r['error'] and r['lang'] not in bad_langs]
    print('%s: %d languages proved%s, %d bounded, %.0f s' % (prop, len(ok), ' (stopped early)' if found else '', len({r['lang'] for r in res if r['task'] == 'fuzz'} - set(ok)),
                                                            time.time() - t0))
    return code


def task_seeded(a):
    # several runs of one language side by side
    FUZZ_DIR = os.path.dirname(FUZZ[0])
    d = os.path.join(FUZZ_DIR, 's%d' % a[4])
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'fz')
    if not os.path.exists(exe):
        try:
            os.link(FUZZ[0], exe)
        except FileExistsError:
            pass
    t = time.time()
    bad, runs = bounded.fuzz(exe, a[1], a[2], a[3], a[4])
    return dict(task='fuzz', lang=a[2], bad=bad, runs=runs, t=time.time() - t)


def evidence(prop, tier, seed, cf, res, undecided, violations, rest, secs, wall):
    proofs = [r for r in res if r['task'] == 'proof']
    good = [r for r in proofs if not r['error']]
    fuzz = [r for r in res if r['task'] == 'fuzz']
    layer = [r for r in res if r['task'] == 'layer']
    und = {l for l, _ in undecided}
    fns = sorted({n for r in good for n in r['fns'] if 'ulight' in n})
    nm = build.demangle(fns)
    obl = sum(r['obl'] for r in good) + sum(r['obl'] for r in layer)
    nf = len([v for v in violations if v[2] is None])
    cov = dict(
        explanation='languages_proved: every obligation, for every source text, discharged function by function over inferred contracts; '
                    'languages_bounded: outside the reach of the verifier, coverage-guided executions only, not counted as obligations',
        obligations=obl, discharged=max(0, obl - nf),
        checker_cmd='python3-vt -m dv.check ' + prop,
        trusted_base=check.COMMON_TRUST,
        back_end='z3: %d queries (%d handed to cvc5); syntactic: %d' % (sum(r['total'].get('queries', 0) for r in good),
                                                                     sum(r['total'].get('cvc5', 0) for r in good), sum(r['triv'] for r in good)),
        solver_s=round(sum(r['total'].get('solver', 0) for r in good), 1),
        languages_proved={r['lang']: dict(obligations=r['obl'], paths=r['paths'], loops_cut=r['loops'], summaries=r['summaries'],
                                          functions=len([n for n in r['fns'] if 'ulight' in n]), seconds=round(r['t'], 1),
                                          measures=r['measures'][:60] if prop == 'C03' else []) for r in good},
        languages_bounded={r['lang']: dict(executions=r['runs'], seconds=round(r['t'], 1)) for r in fuzz if r['lang'] in rest or r['lang'] in und},
        bounds='languages_bounded: texts of at most %d bytes, a fixed number of coverage-guided executions (about %d s) each from the examples of /repo/test/highlight; never counted as proved' % (bounded.MAX_LEN, secs),
        inferred_contracts={nm.get(n, n): '%d preconditions, %d postconditions' % c for r in good for n, c in r['contracts'].items()},
        functions_under_contract=sorted(x for x in nm.values() if x),
        token_layer={r['of'] + ' ' + r['name']: r['obl'] for r in layer},
        contracts_used=sorted({'hook ' + h for r in good for h in r['hooks']} | {'contract Highlighter_Base::emit (dvk_emit)',
                              'contract Non_Owning_Buffer::emplace_back (dvk_emplace)', 'contract consume_nested_language (dvk_nested)'}),
        undecided={l: e[:300] for l, e in undecided},
        obligations_by_label={k: sum(r['labels'].get(k, 0) for r in good) for k in sorted({x for r in good for x in r['labels']})[:60]},
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=cf.get('level', 'other'), coverage=cov,
              assumptions=check.COMMON_ASSUME + cf.get('assume', []), wall_s=round(wall, 1), violations=1 if violations else 0)
    with open(os.path.join(check.EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def json_task(a):
    if a[0] == 'native':
        _, exe, args, limit = a
        t = time.time()
        bad, runs, exhaustive = native.run(exe, args, limit)
        return dict(task='native', bad=bad, runs=runs, exhaustive=exhaustive, t=time.time() - t)
    return task(a)


def json_main(prop, only=None, verbose=False):
    """C16: events, memory and termination are proved; what is accepted is compared with a recogniser, bounded"""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cf = props.CONFIG[prop]
    work = build.workdir()
    try:
        FILES[0] = fcheck.compile_opt(work, prop)
        exes = native.make(work, 'C16_native.cpp')
        for q in cf['layers']:
            w = os.path.join(work, q)
            os.makedirs(w)
            c2 = props.CONFIG[q]
            PROGS[q] = fcheck.load(w, c2['harness'], c2['tus'], defines=c2.get('defines', ()))
    except build.BuildError as e:
        print('ERROR: build failed:', str(e)[-3000:])
        return 2
    rounds = 3000000 if tier == 'thorough' else 300000
    tasks = [('proof', prop, l, cf.get('proof_s', 600), seed) for l in cf['prove']]
    tasks += [(q, prop, f.name, 0, seed) for q in cf['layers'] for f in fcheck.harness_functions(PROGS[q])]
    tasks += [('native', exes['fast'], [6, seed, rounds], 500), ('native', exes['san'], [4, seed + 1, 20000], 500)]
    res = []
    violations = []
    undecided = []
    bad = None
    pool = mp.get_context('fork').Pool(4, maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(json_task, tasks, chunksize=1):
            res.append(r)
            if verbose:
                print(r['task'], '%.0f s' % r['t'], r.get('error') or '', r.get('runs') or '', r.get('bad') or '', [f[:3] for f in r.get('failures', ())][:5], flush=True)
            if r['task'] == 'native':
                if r['bad'] is not None:
                    bad = bad or r['bad']
                    violations.append('execution: ' + (r['bad'].strip().splitlines() or ['no output'])[0])
                    if 'DVF' in r['bad']:
                        break
            elif r['failures']:
                violations += ['%s: %s at %s' % f[:3] for f in r['failures']]
            elif r['error']:
                undecided.append((r.get('lang') or r.get('name'), r['error']))
    finally:
        pool.terminate()
        pool.join()
    for l, e in undecided:
        print('UNDECIDED %s: not within the reach of the verifier (%s); bounded only' % (l, e[:200].replace('\n', ' ')))
    code = 0
    os.makedirs(check.EVID, exist_ok=True)
    path = os.path.join(check.EVID, prop + '.replay')
    if violations:
        code = 1
        for v in violations[:12]:
            print('  ' + v)
        with open(path, 'w') as f:
            f.write('# property C16\n' + ''.join('# failed: %s\n' % v.replace('\n', ' ') for v in violations))
            if bad is not None:
                f.write('# reproduce: build harness/C16_native.cpp with the sources (dv/native.py) and run it with\n'
                        '# 0 1 0 0 0 FLAGS INPUT (FLAGS: 1 comments, 2 numbers, 4 * escapes; INPUT as below)\n' + bad[-6000:])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if bad is not None else ' no-failing-input-found'))
    good = [r for r in res if r['task'] in ('proof', 'layer') and not r['error']]
    proofs = [r for r in good if r['task'] == 'proof']
    nat = [r for r in res if r['task'] == 'native']
    obl = sum(r['obl'] for r in good)
    fns = sorted({n for r in proofs for n in r['fns'] if 'ulight' in n})
    nm = build.demangle(fns)
    cov = dict(
        explanation='proved for every text and all options: what events report (positions and texts in order inside the source), that entries and exits are balanced when '
                    'parsing succeeds, absence of failed assertions and invalid accesses, termination, and the rules of escape sequences. '
                    'BOUNDED, not counted as obligations: that exactly JSON is accepted, exact events, lines of positions (executions against a recogniser)',
        obligations=obl, discharged=max(0, obl - len([v for v in violations if not v.startswith('execution')])), checker_cmd='python3-vt -m dv.check C16', trusted_base=check.COMMON_TRUST,
        back_end='z3: %d queries; syntactic: %d' % (sum(r['total'].get('queries', 0) for r in proofs) + sum(r.get('queries', 0) for r in good if r['task'] == 'layer'), sum(r['triv'] for r in good)),
        solver_s=round(sum(r['total'].get('solver', 0) for r in proofs), 1),
        functions_under_contract=sorted(x for x in nm.values() if x),
        inferred_contracts={nm.get(n, n): '%d preconditions, %d postconditions' % c for r in proofs for n, c in r['contracts'].items()},
        measures=[m for r in proofs for m in r['measures']][:60],
        contracts_used=['match_escape_sequence (dvk_match_escape, proved: dvh_json_escape)', 'std::from_chars of four digits (standard contract)',
                        'std::string construction, c_str and destruction, std::strtod (standard contracts)'],
        bounded=dict(evaluations=sum(r['runs'] for r in nat), exhaustive=sum(r['exhaustive'] for r in nat),
                     bounds='every text of at most 6 characters over 20 characters, of at most 5 pieces over 24 pieces (less with sanitizers), '
                            'pseudo-random documents and their mutations; never counted as proved'),
        undecided={l: e[:300] for l, e in undecided},
        obligations_by_label={k: sum(r['labels'].get(k, 0) for r in good) for k in sorted({x for r in good for x in r['labels']})[:60]})
    ev = dict(property=prop, tier=tier, seed=seed, level=cf.get('level', 'other'), coverage=cov,
              assumptions=check.COMMON_ASSUME + cf.get('assume', []), wall_s=round(time.time() - t0, 1), violations=code)
    with open(os.path.join(check.EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations proved, %d executions bounded, %d violations, %.0f s' % (prop, obl, sum(r['runs'] for r in nat), len(violations), time.time() - t0))
    return code
