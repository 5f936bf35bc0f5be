"""Bounded stand-in: coverage-guided execution of the real highlighters, for the languages whose obligations
the verifier does not discharge.  Never counted as proved."""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess

from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_LEN = 400
# ulight_lang values follow the alphabetical order of the enumeration; they are read from the header
FILES = dict(c='cpp', javascript='js', typescript='js', jsonc='json', latex='tex')
# executions per second, roughly: the number of runs is fixed, so that two runs on the same tree do the same
RATE = dict(bash=11000, c=2600, cowel=3300, cpp=3100, css=5100, diff=15000, ebnf=10000, html=1700, java=2200, javascript=1800, json=9000,
            jsonc=5600, kotlin=2300, latex=20000, llvm=6600, lua=3500, markdown=10000, nasm=5000, python=4500, rust=3600, tex=30000,
            typescript=3800, xml=5300, yaml=4300)
DIRS = dict(javascript='js')


def lang_numbers():
    out = {}
    for m in re.finditer(r'ULIGHT_LANG_(?!COUNT|NONE|TXT)(\w+)\s*=\s*(\d+)', open(build.REPO + '/include/ulight/ulight.h').read()):
        out[m.group(1).lower()] = int(m.group(2))
    return out


def make(work, prop):
    """the fuzzer for one property"""
    d = os.path.join(work, 'fuzz')
    os.makedirs(d, exist_ok=True)
    san = ',address,undefined' if prop == 'C02' else ''
    flags = ['-std=c++23', '-D__cpp_concepts=202002L', '-w', '-fsized-deallocation', '-I' + build.REPO + '/include',
             '-I' + build.REPO + '/src/main/cpp', '-O1', '-g1', '-fsanitize=fuzzer-no-link' + san]
    if prop == 'C02':
        flags += ['-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
    srcs = build.repo_sources() + [os.path.join(VERIF, 'harness', 'fuzz.cpp')]

    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.o')
        build.run([build.CLANG] + flags + ['-c', s, '-o', o])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    exe = os.path.join(d, 'fz')
    build.run([build.CLANG] + flags + ['-fsanitize=fuzzer' + san] + objs + ['-o', exe])
    return exe


def words(lang):
    f = build.REPO + '/src/main/cpp/lang/%s.cpp' % FILES.get(lang, lang)
    out = set()
    if os.path.exists(f):
        text = open(f, errors='replace').read()
        for w in re.findall(r'u8"((?:[^"\\\n]|\\.)+)"', text) + re.findall(r'HIGHLIGHT_TYPE\w*\(\w+, "([^"]+)"', text):
            try:
                b = w.encode().decode('unicode_escape').encode('latin-1')
            except Exception:
                continue
            if 1 <= len(b) <= 30:
                out.add(b)
    return sorted(out)


def fuzz(exe, prop, lang, secs, seed):
    """(kind, message, input) or None, and how much was run"""
    num = lang_numbers()
    d = os.path.join(os.path.dirname(exe), lang)
    c = os.path.join(d, 'c')
    a = os.path.join(d, 'a')
    os.makedirs(c, exist_ok=True)
    os.makedirs(a, exist_ok=True)
    i = 0
    for f in sorted(glob.glob(build.REPO + '/test/highlight/%s/*' % DIRS.get(lang, lang))):
        if f.endswith('.html') and not f.endswith(lang + '.html') and re.search(r'\.\w+\.html$', f):
            continue
        if not os.path.isfile(f):
            continue
        t = open(f, 'rb').read()
        for k in range(0, min(len(t), 6000), MAX_LEN - 1):
            for fl in (i % 8,):
                open(os.path.join(c, 's%d' % i), 'wb').write(bytes([fl]) + t[k:k + MAX_LEN - 1])
                i += 1
    if not i:
        open(os.path.join(c, 's0'), 'wb').write(b'\0a')
    dic = os.path.join(d, 'dict')
    ws = words(lang) or [b'\\']        # an empty dictionary is an error
    with open(dic, 'w') as f:
        for w in ws:
            f.write('"%s"\n' % ''.join('\\x%02x' % b for b in w))
    env = dict(os.environ, DVF_PROP=str(int(prop[1:])), DVF_LANG=str(num[lang]),
               ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    cmd = [exe, '-seed=%d' % (1000 * int(seed) + num[lang]), '-runs=%d' % max(2000, int(RATE.get(lang, 3000) * secs * (0.6 if prop == "C02" else 2.0))), '-max_total_time=%d' % (2 * secs + 10), '-max_len=%d' % MAX_LEN, '-timeout=%d' % (10 if prop == 'C03' else 60),
           '-rss_limit_mb=2500', '-dict=' + dic, '-use_value_profile=1', '-artifact_prefix=' + a + '/', '-print_final_stats=1', c]
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=2 * secs + 100, env=env)
        out = (r.stdout + r.stderr).decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        out = ((e.stdout or b'') + (e.stderr or b'')).decode(errors='replace')
        r = None
    m = re.search(r'stat::number_of_executed_units:\s*(\d+)', out)
    runs = int(m.group(1)) if m else 0
    bad = None
    msg = re.search(r'DVF (C\d\d) [^\n]*', out)
    arts = sorted(glob.glob(a + '/*'))
    art = open(arts[0], 'rb').read() if arts else None
    if msg and msg.group(1) == prop:
        bad = (msg.group(0), art)
    elif prop == 'C02' and arts and any(os.path.basename(x).startswith('crash-') for x in arts):
        s = re.search(r'(runtime error: [^\n]*|SUMMARY: [^\n]*|[^\n]*Assertion [^\n]*)', out)
        bad = ('DVF C02 lang %s: %s' % (lang, s.group(0) if s else 'crash'), art)
    elif prop == 'C03' and arts and any(os.path.basename(x).startswith('timeout-') for x in arts):
        bad = ('DVF C03 lang %s: no return within 10 s' % lang, art)
    shutil.rmtree(d, ignore_errors=True)
    return bad, runs
