"""Compile /repo's current sources to LLVM IR, link, inline and canonicalise.

What the extraction keeps: every function of the library exactly as clang
compiles it at -O0 with the flags of the tested build (assertions on).
What it drops / trusts: debug info, exception-unwinding edges, and the LLVM
passes always-inline, sroa, early-cse, simplifycfg, instsimplify, globaldce.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('DV_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = '/usr/bin/clang++-18'
FLAGS = ['-std=c++23', '-D__cpp_concepts=202002L', '-w', '-fsized-deallocation', '-D_GLIBCXX_ASSERTIONS',
         '-I' + REPO + '/include', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-fno-discard-value-names',
         '-S', '-emit-llvm']
CORE = ['chars', 'parse_utils', 'ulight']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout


def repo_sources():
    d = REPO + '/src/main/cpp/'
    out = [d + f for f in sorted(os.listdir(d)) if f.endswith('.cpp') and f not in ('io.cpp', 'main.cpp', 'wasm.cpp')]
    l = d + 'lang/'
    out += [l + f for f in sorted(os.listdir(l)) if f.endswith('.cpp')]
    return out


def compile_all(work, sources, extra_flags=()):
    os.makedirs(work, exist_ok=True)
    outs = []
    jobs = []
    for s in sources:
        o = os.path.join(work, re.sub(r'[^\w]', '_', os.path.relpath(s, '/')) + '.ll')
        outs.append(o)
        jobs.append([CLANG] + FLAGS + list(extra_flags) + [s, '-o', o])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    return outs


def link(work, lls, name='all.ll'):
    out = os.path.join(work, name)
    run([LLVM + 'llvm-link', '-S', '-o', out] + lls)
    return out


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def short(d):
    return (d.replace('std::basic_string_view<char8_t, std::char_traits<char8_t> >', 'SV8')
             .replace('std::basic_string_view<char, std::char_traits<char> >', 'SV')
             .replace('std::basic_string_view<char32_t, std::char_traits<char32_t> >', 'SV32')
             .replace('unsigned long', 'size_t'))


DEF = re.compile(r'^define .*?@("[^"]+"|[\w.$]+)\(')


def scan(text):
    """name -> (first line index, n instrs outside unreachable-ending blocks, has loop guess, callees)"""
    lines = text.split('\n')
    info = {}
    cur = None
    for i, l in enumerate(lines):
        if cur is None:
            if l.startswith('define'):
                m = DEF.match(l)
                cur = m.group(1).strip('"')
                rec = {'line': i, 'n': 0, 'loop': False, 'calls': [], 'head': l}
                blk = 0
                seen = set()
                info[cur] = rec
        elif l == '}':
            rec['n'] += blk
            cur = None
        elif l and l[0] != ' ':
            if not l.startswith(';'):
                rec['n'] += blk
                blk = 0
                seen.add(l.split(':')[0].strip('"'))
        else:
            blk += 1
            if 'unreachable' in l and l.strip() == 'unreachable':
                blk = 0
            if ' label %' in l:
                for t in re.findall(r'label %("[^"]+"|[\w.$]+)', l):
                    if t.strip('"') in seen:
                        rec['loop'] = True
            m = re.search(r'(?:call|invoke) [^@\n]*@("[^"]+"|[\w.$]+)\(', l)
            if m:
                rec['calls'].append(m.group(1).strip('"'))
    return lines, info


PASSES = 'always-inline,function(sroa,early-cse,simplifycfg,instsimplify),globaldce'
FN_PASSES = 'sroa,early-cse,simplifycfg,instsimplify'


def prepare(work, path, inline, keep=None, out='prep.ll', roots=None, post=None):
    """inline(name, demangled, info) -> bool. keep(name) -> mark as external root."""
    text = open(path).read()
    lines, info = scan(text)
    dem = demangle(list(info))
    n = 0
    inl = set()
    for f, rec in info.items():
        rec['dem'] = short(dem[f])
    for f, rec in info.items():
        if inline(f, rec['dem'], rec):
            inl.add(f)
    # never inline recursive cycles: drop functions in non-trivial SCCs of the inline set
    import networkx as nx
    G = nx.DiGraph()
    for f in inl:
        for g in info[f]['calls']:
            if g in inl:
                G.add_edge(f, g)
    for comp in nx.strongly_connected_components(G):
        if len(comp) > 1:
            inl -= comp
        else:
            x = next(iter(comp))
            if G.has_edge(x, x):
                inl.discard(x)
    for i, l in enumerate(lines):
        if l.startswith('attributes #'):
            lines[i] = re.sub(r'\b(noinline|optnone|alwaysinline)\b ?', '', l)
    for f, rec in info.items():
        h = lines[rec['line']]
        if f in inl:
            m = re.search(r'\) (?:local_unnamed_addr |unnamed_addr )*#\d+', h)
            if not m:
                h2 = re.sub(r'\) (comdat|align|personality|\{)', r') alwaysinline \1', h, 1)
            else:
                h2 = h[:m.end()] + ' alwaysinline' + h[m.end():]
            lines[rec['line']] = h2
    src = os.path.join(work, out + '.in')
    open(src, 'w').write('\n'.join(lines))
    dst = os.path.join(work, out)
    passes = PASSES
    if roots is not None:
        api = os.path.join(work, out + '.api')
        open(api, 'w').write('\n'.join(roots) + '\n')
        passes = 'internalize,' + PASSES
        run([LLVM + 'opt', '-S', '-passes=' + passes, '-internalize-public-api-file=' + api, src, '-o', dst])
    else:
        run([LLVM + 'opt', '-S', '-passes=' + passes, src, '-o', dst])
    os.unlink(src)
    return dst, info, inl


def workdir():
    base = os.environ.get('DV_WORK')
    if base:
        os.makedirs(base, exist_ok=True)
        return base
    d = tempfile.mkdtemp(prefix='dv.', dir=os.environ.get('TMPDIR', '/tmp'))
    import atexit
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d
