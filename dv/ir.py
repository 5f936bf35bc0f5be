"""Parser for the textual LLVM 18 IR that clang emits for /repo's sources.

Only the instructions that occur after the canonicalising passes of build.py
are understood; anything else raises IRError, which a check reports as an
error exit and never as a violation.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(
    r'\s+|;[^\n]*'
    r'|(?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")'
    r'|(?P<qid>[%@$!]"(?:[^"\\]|\\.)*")'
    r'|(?P<id>[%@$!][-\w.$]+)'
    r'|(?P<attr>\#\d+)'
    r'|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[KLMH]?[0-9A-Fa-f]+|-?\d+)'
    r'|(?P<word>[A-Za-z_][\w.]*)'
    r'|(?P<q>"(?:[^"\\]|\\.)*")'
    r'|(?P<ell>\.\.\.)'
    r'|(?P<p>[][(){}<>,=*!:|])')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == 'qid':
            t = t[0] + t[2:-1]
            k = 'id'
        out.append((k, t))
    return out


# ---- types -----------------------------------------------------------------
# ('i', n) ('ptr',) ('void',) ('arr', n, t) ('struct', [t...], packed)
# ('named', name) ('fp', name) ('vec', n, t) ('label',) ('metadata',)
PTR = ('ptr',)
VOID = ('void',)
FPS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._sz = {}

    def res(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def sizeof(self, t):
        k = repr(t) if t[0] in ('struct', 'arr') else t
        r = self._sz.get(k)
        if r is None:
            r = self._sz[k] = self._sizeof(t)
        return r

    def _sizeof(self, t):
        t = self.res(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            return b if b <= 2 else (4 if b <= 4 else (8 if b <= 8 else 16))
        if t[0] == 'ptr':
            return 8
        if t[0] == 'fp':
            return FPS[t[1]]
        if t[0] == 'arr' or t[0] == 'vec':
            return t[1] * self.sizeof(t[2])
        if t[0] == 'struct':
            o = 0
            a = 1
            for f in t[1]:
                al = 1 if t[2] else self.alignof(f)
                a = max(a, al)
                o = (o + al - 1) // al * al + self.sizeof(f)
            return (o + a - 1) // a * a
        if t[0] == 'void':
            return 0
        raise IRError('sizeof %r' % (t,))

    def alignof(self, t):
        t = self.res(t)
        if t[0] == 'arr':
            return self.alignof(t[2])
        if t[0] == 'struct':
            if t[2]:
                return 1
            return max([self.alignof(f) for f in t[1]] or [1])
        return max(1, self.sizeof(t))

    def field_off(self, t, i):
        t = self.res(t)
        o = 0
        for k, f in enumerate(t[1]):
            al = 1 if t[2] else self.alignof(f)
            o = (o + al - 1) // al * al
            if k == i:
                return o
            o += self.sizeof(f)
        raise IRError('field')

    def leaves(self, t, base=0):
        """All scalar leaves (offset, type) of t."""
        t = self.res(t)
        if t[0] == 'struct':
            for i, f in enumerate(t[1]):
                yield from self.leaves(f, base + self.field_off(t, i))
        elif t[0] == 'arr':
            s = self.sizeof(t[2])
            for i in range(t[1]):
                yield from self.leaves(t[2], base + i * s)
        else:
            yield base, t


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'external', 'mod')


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x')
    # op: opcode, res: result local name or None, ty: result/value type,
    # a: operands list [(type, value)], x: extra

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self):
        self.name = None
        self.ret = None
        self.params = []   # (type, name, attrs set, attr type)
        self.blocks = {}
        self.order = []
        self.attrs = ''


class P:
    """Cursor over tokens."""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise IRError('expected %s at %r' % (s, self.t[self.i:self.i + 8]))

    def end(self):
        return self.i >= len(self.t)

    # types
    def type(self):
        t = self.type0()
        while self.peek() == '*':
            self.next()
            t = PTR
        if self.peek() == '(':  # function type
            self.skip_parens()
            return ('func', t)
        return t

    def skip_parens(self):
        d = 0
        while True:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def type0(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'ptr':
                if self.eat('addrspace'):
                    self.skip_parens()
                return PTR
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
            if v == 'void':
                return VOID
            if v in FPS:
                return ('fp', v)
            if v in ('label', 'metadata', 'token', 'opaque'):
                return (v,)
        elif k == 'id' and v[0] == '%':
            return ('named', v[1:])
        elif v == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            return ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type())
                self.eat(',')
            return ('struct', fs, False)
        elif v == '<':
            if self.eat('{'):
                fs = []
                while not self.eat('}'):
                    fs.append(self.type())
                    self.eat(',')
                self.need('>')
                return ('struct', fs, True)
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need('>')
            return ('vec', n, e)
        raise IRError('type at %r' % (self.t[self.i - 1:self.i + 6],))

    # values
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v[0] == '%':
                return ('l', v[1:])
            if v[0] == '@':
                return ('g', v[1:])
        if k == 'num':
            rt = self.m.res(ty)
            if rt[0] == 'fp':
                return ('fp', v)
            n = int(v)
            return ('c', n & ((1 << rt[1]) - 1))
        if k == 'str':
            return ('str', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return (v,)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'getelementptr':
                inb = self.eat('inbounds')
                self.need('(')
                st = self.type()
                self.need(',')
                ops = []
                while True:
                    if self.eat('inrange'):
                        pass
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
                self.need(')')
                return ('gep', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.need('(')
                t = self.type()
                x = self.value(t)
                self.need('to')
                t2 = self.type()
                self.need(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp', 'select'):
                pred = None
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                if v == 'icmp':
                    pred = self.next()
                self.need('(')
                ops = []
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
                self.need(')')
                return ('cop', v, pred, ops)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = v == '<' and self.eat('{')
            if packed:
                close = '}'
            els = []
            while not self.eat(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.eat(',')
            if packed:
                self.need('>')
            return ('agg', els)
        raise IRError('value at %r' % (self.t[self.i - 1:self.i + 6],))

    def tv(self):
        t = self.type()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'returned',
          'writeonly', 'inreg', 'immarg', 'readnone', 'nofree', 'noreturn', 'swiftself', 'nest', 'nounwind',
          'allocptr', 'writable', 'dead_on_unwind', 'allocalign'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def param_attrs(p):
    at = set()
    atype = None
    while True:
        v = p.peek()
        k = p.kind()
        if k == 'word' and v in PATTRS:
            p.next()
            at.add(v)
        elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'nofpclass', 'range', 'memory'):
            p.next()
            at.add(v)
            if p.peek() == '(':
                p.skip_parens()
            else:
                p.next()
        elif k == 'word' and v in ('sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca'):
            p.next()
            at.add(v)
            p.need('(')
            atype = p.type()
            p.need(')')
        elif k == 'q':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return at, atype


LINKAGE = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'common',
           'appending', 'available_externally', 'extern_weak', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'dllimport', 'dllexport'}
OPS2 = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}


def strip_meta(toks):
    """Cut trailing ', !dbg !1, ...' from an instruction."""
    d = 0
    for i, (k, v) in enumerate(toks):
        if v in '([{' and k == 'p':
            d += 1
        elif v in ')]}' and k == 'p':
            d -= 1
        elif d == 0 and v == ',' and i + 1 < len(toks) and toks[i + 1][0] == 'id' and toks[i + 1][1][0] == '!':
            return toks[:i]
    return toks


def parse_inst(m, line):
    toks = strip_meta(tokenize(line))
    p = P(m, toks)
    I = Inst()
    I.res = None
    I.x = None
    I.a = []
    I.ty = VOID
    if p.kind() == 'id' and p.peek(1) == '=':
        I.res = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I.op = op
    if op in OPS2:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        I.ty = t
        I.a = [(t, a), (t, b)]
        I.x = fl
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        I.x = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        I.ty = ('i', 1)
        I.a = [(t, a), (t, b)]
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        I.a = [p.tv()]
        p.need('to')
        I.ty = p.type()
    elif op == 'fneg' or op == 'freeze':
        while p.peek() in FLAGS:
            p.next()
        I.a = [p.tv()]
        I.ty = I.a[0][0]
    elif op == 'load':
        if p.eat('volatile') or p.eat('atomic'):
            I.x = 'volatile'
        I.ty = p.type()
        p.need(',')
        I.a = [p.tv()]
    elif op == 'store':
        if p.eat('volatile') or p.eat('atomic'):
            I.x = 'volatile'
        a = p.tv()
        p.need(',')
        b = p.tv()
        I.a = [a, b]
    elif op == 'alloca':
        p.eat('inalloca')
        I.x = p.type()
        I.ty = PTR
        if p.eat(',') and p.peek() != 'align':
            I.a = [p.tv()]
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        I.x = p.type()
        I.ty = PTR
        while p.eat(','):
            I.a.append(p.tv())
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        I.ty = t
        I.x = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            lb = p.next()[1:]
            p.need(']')
            I.x.append((v, lb))
            if not p.eat(','):
                break
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        c = p.tv()
        p.need(',')
        a = p.tv()
        p.need(',')
        b = p.tv()
        I.a = [c, a, b]
        I.ty = a[0]
    elif op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        param_attrs(p)
        t = p.type()
        if t[0] == 'func':
            t = t[1]
        I.ty = t
        callee = p.value(PTR)
        p.need('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            pa, pt = param_attrs(p)
            if at[0] == 'metadata':
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    v = p.next()
                    if v == '(':
                        d += 1
                    elif v == ')':
                        d -= 1
                args.append((at, ('undef',)))
            else:
                args.append((at, p.value(at)))
            p.eat(',')
        I.a = args
        I.x = {'callee': callee}
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.need('label')
            I.x['to'] = p.next()[1:]
            p.need('unwind')
            p.need('label')
            I.x['unwind'] = p.next()[1:]
    elif op == 'br':
        if p.eat('label'):
            I.x = [p.next()[1:]]
        else:
            c = p.tv()
            I.a = [c]
            p.need(',')
            p.need('label')
            t = p.next()[1:]
            p.need(',')
            p.need('label')
            f = p.next()[1:]
            I.x = [t, f]
    elif op == 'switch':
        c = p.tv()
        p.need(',')
        p.need('label')
        d = p.next()[1:]
        cases = []
        p.need('[')
        while not p.eat(']'):
            v = p.tv()
            p.need(',')
            p.need('label')
            cases.append((v[1][1], p.next()[1:]))
        I.a = [c]
        I.x = (d, cases)
    elif op == 'ret':
        t = p.type()
        if t != VOID:
            I.a = [(t, p.value(t))]
        I.ty = t
    elif op == 'unreachable':
        pass
    elif op == 'extractvalue':
        a = p.tv()
        I.a = [a]
        I.x = []
        while p.eat(','):
            I.x.append(int(p.next()))
        t = m.res(a[0])
        for i in I.x:
            t = m.res(t[1][i] if t[0] == 'struct' else t[2])
        I.ty = t
    elif op == 'insertvalue':
        a = p.tv()
        p.need(',')
        b = p.tv()
        I.a = [a, b]
        I.x = []
        while p.eat(','):
            I.x.append(int(p.next()))
        I.ty = a[0]
    elif op in ('landingpad', 'resume', 'fence'):
        if op == 'landingpad':
            I.ty = p.type()
    else:
        raise IRError('unknown instruction: ' + line)
    return I


def parse_define(m, line):
    """line: the define header."""
    toks = tokenize(line)
    p = P(m, toks)
    p.need('define')
    while p.kind() == 'word' and p.peek() in LINKAGE:
        p.next()
    param_attrs(p)
    F = Func()
    F.ret = p.type0()
    while p.kind() != 'id' or p.peek()[0] != '@':
        raise IRError('define: ' + line[:120])
    F.name = p.next()[1:]
    p.need('(')
    cnt = 0
    while not p.eat(')'):
        if p.peek() == '...':
            p.next()
            continue
        t = p.type()
        at, aty = param_attrs(p)
        if p.kind() == 'id':
            nm = p.next()[1:]
        else:
            nm = str(cnt)
        cnt += 1
        F.params.append((t, nm, at, aty))
        p.eat(',')
    return F


def parse_global(m, line):
    toks = strip_meta(tokenize(line))
    p = P(m, toks)
    G = Global()
    G.name = p.next()[1:]
    p.need('=')
    G.external = False
    G.const = False
    while True:
        v = p.peek()
        if v in ('global', 'constant'):
            p.next()
            G.const = v == 'constant'
            break
        if v == 'thread_local':
            p.next()
            if p.peek() == '(':
                p.skip_parens()
            continue
        if v in ('alias', 'ifunc'):
            p.next()
            G.type = p.type()
            p.need(',')
            G.init = ('alias', p.tv())
            return G
        if v in ('external', 'extern_weak'):
            G.external = True
        p.next()
    G.type = p.type()
    if G.external or p.end() or p.peek() == ',':
        G.init = None
    else:
        G.init = p.value(G.type)
    return G


def parse_module(text, want=None):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pend_globals = []
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] == ';':
            continue
        c = l[0]
        if c == '%':
            k = l.index(' = type ')
            nm = l[1:k]
            if nm[0] == '"':
                nm = nm[1:-1]
            p = P(m, tokenize(l[k + 8:]))
            m.types[nm] = p.type()
        elif c == '@':
            pend_globals.append(l)
        elif l.startswith('define'):
            F = parse_define(m, l)
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            m.funcs[F.name] = F
            F.src = body
        elif l.startswith('declare'):
            mm = re.search(r'@("(?:[^"]+)"|[\w.$]+)\(', l)
            m.decls[mm.group(1).strip('"')] = l
    for l in pend_globals:
        g = parse_global(m, l)
        m.globals[g.name] = g
    for F in m.funcs.values():
        parse_body(m, F)
    return m


def parse_body(m, F):
    cur = None
    body = F.src
    i = 0
    nparams = len(F.params)
    while i < len(body):
        l = body[i]
        i += 1
        s = l.strip()
        if not s or s[0] == ';':
            continue
        if l[0] != ' ':
            mm = re.match(r'(?:"((?:[^"\\]|\\.)*)"|([-\w.$]+)):', l)
            cur = Block(mm.group(1) or mm.group(2))
            F.blocks[cur.name] = cur
            F.order.append(cur.name)
            continue
        if cur is None:
            # implicit entry label: number of unnamed params
            cur = Block(str(sum(1 for p in F.params if p[1].isdigit())))
            F.blocks[cur.name] = cur
            F.order.append(cur.name)
        # multi-line instructions
        if re.match(r'\s*switch ', l):
            while not lines_closed(s):
                s += ' ' + body[i].strip()
                i += 1
        elif ' invoke ' in l or l.lstrip().startswith('invoke'):
            while ' unwind label' not in s:
                s += ' ' + body[i].strip()
                i += 1
        elif ' landingpad ' in l:
            while i < len(body) and body[i].startswith('          '):
                s += ' ' + body[i].strip()
                i += 1
        cur.insts.append(parse_inst(m, s))
    for b in F.blocks.values():
        t = b.insts[-1]
        if t.op == 'br':
            b.succs = list(dict.fromkeys(t.x))
        elif t.op == 'switch':
            b.succs = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        elif t.op == 'invoke':
            b.succs = [t.x['to']]
        else:
            b.succs = []
    F.entry = F.order[0]
    # drop blocks only reachable via unwind edges
    seen = {F.entry}
    st = [F.entry]
    while st:
        x = st.pop()
        for y in F.blocks[x].succs:
            if y not in seen:
                seen.add(y)
                st.append(y)
    F.order = [b for b in F.order if b in seen]
    F.blocks = {b: F.blocks[b] for b in F.order}
    for b in F.blocks.values():
        for y in b.succs:
            F.blocks[y].preds.append(b.name)
    F.src = None


def lines_closed(s):
    return re.search(r'\](, ![\w.]+ !\d+)*$', s.rstrip()) is not None
