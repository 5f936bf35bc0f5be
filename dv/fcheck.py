"""Runs a harness of /verif/harness over the real code with the fork driver."""
import os
import re
import time

from . import build, ir
from .fork import ForkExec, Hooks
from .vc import Prog, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(work, harness, tus, passes='function(sroa,early-cse,simplifycfg,instsimplify,lcssa)', defines=()):
    srcs = [os.path.join(VERIF, 'harness', harness + '.cpp')] + [build.REPO + '/src/main/cpp/' + t for t in tus]
    lls = build.compile_all(work, srcs, ['-I' + HERE, '-I' + work, '-I' + build.REPO + '/src/main/cpp'] + list(defines))
    prog = Prog()

    def one(l):
        o = l[:-3] + '.opt.ll'
        build.run([build.LLVM + 'opt', '-S', '-passes=' + passes, l, '-o', o])
        return ir.parse_module(open(o).read())
    for s, l in zip(srcs, lls):
        prog.add(one(l), os.path.basename(s))
    return prog


def harness_functions(prog):
    return [f for n, f in prog.mods[0].funcs.items() if n.startswith('dvh_')]


PASSES = 'function(sroa,early-cse,simplifycfg,instsimplify,lcssa)'


def compile_opt(work, harness, defines=()):
    """the harness and every source of the library as optimised text IR"""
    import concurrent.futures
    srcs = [os.path.join(VERIF, 'harness', harness + '.cpp')] + build.repo_sources()
    lls = build.compile_all(work, srcs, ['-I' + HERE, '-I' + work, '-I' + build.REPO + '/src/main/cpp'] + list(defines))
    outs = [l[:-3] + '.opt.ll' for l in lls]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda l: build.run([build.LLVM + 'opt', '-S', '-passes=' + PASSES, l, '-o', l[:-3] + '.opt.ll']), lls))
    return list(zip(srcs, outs))


NAME = re.compile(r'@("[^"]+"|[\w.$]+)')


def symbols(path):
    """symbol -> symbols its definition mentions; internal symbols carry the path"""
    defs = {}
    cur = None
    for l in open(path):
        if cur is not None:
            if l[0] == '}':
                cur = None
            else:
                cur.update(n.strip('"') for n in NAME.findall(l))
        elif l.startswith('define'):
            ns = [n.strip('"') for n in NAME.findall(l.split(' personality')[0])]
            cur = defs.setdefault(ns[0], set())
        elif l[0] == '@':
            ns = [n.strip('"') for n in NAME.findall(l)]
            defs[ns[0]] = set(ns[1:])
    return defs


def closure(files, root, stop=()):
    """the modules that define what the function root of the first one reaches"""
    tabs = [symbols(o) for _, o in files]
    where = {}
    for i, t in enumerate(tabs):
        for n in t:
            where.setdefault(n, []).append(i)
    seen = set()
    todo = [(0, root)]
    mods = {0}
    while todo:
        i, n = todo.pop()
        if any(re.match(r, n) for r in stop):
            continue
        if n not in tabs[i]:
            js = where.get(n)
            if not js:
                continue
            i = js[0]
            mods.add(i)
        if (i, n) in seen:
            continue
        seen.add((i, n))
        todo += [(i, x) for x in tabs[i][n]]
    return sorted(mods)


def load_closure(files, root, stop=()):
    prog = Prog()
    for i in closure(files, root, stop):
        prog.add(ir.parse_module(open(files[i][1]).read()), os.path.basename(files[i][0]))
    return prog
