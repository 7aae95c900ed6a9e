"""Parser for the textual LLVM-18 IR (opaque pointers) that clang++-18 -S produces.

Only what the symbolic executor needs is kept.  Types are tuples:
  ('i',n) ('f',32|64|80) ('p',) ('a',n,t) ('s',(t..),packed) ('v',n,t) ('void',)
Operands are tuples:
  ('r',name) register | ('g',name) global | ('c',value) scalar constant |
  ('cf',bits,width) float constant | ('null',) | ('undef',) | ('zero',) |
  ('agg',[ (type,operand).. ]) | ('ce',op,...) constant expression | ('str',bytes)
"""
import re, struct

TOK = re.compile(r'''
  "(?:[^"\\]|\\.)*" |
  c"(?:[^"])*" |
  [@%](?:"[^"]*"|[-a-zA-Z$._0-9]+) |
  \#\d+ | !\w* |
  0x[0-9A-Fa-f]+ | 0x[KLMHR][0-9A-Fa-f]+ |
  -?\d+\.\d*(?:e[+-]?\d+)? | -?\d+ |
  \.\.\. | [a-zA-Z_][-a-zA-Z0-9_.]* | [\[\]<>{}(),=*:|]
''', re.X)


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
               'zeroext', 'inreg', 'returned', 'nest', 'immarg', 'noreturn', 'swiftself', 'nofree', 'allocptr',
               'writable', 'dead_on_unwind', 'range', 'noext', 'inrange'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'preallocated',
                   'inalloca', 'elementtype', 'nofpclass', 'initializes', 'alignstack', 'memory'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'dllexport', 'externally_initialized', 'ccc', 'fastcc',
        'coldcc', 'noundef', 'tail', 'musttail', 'notail'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, line, m):
        self.t = TOK.findall(line)
        self.i = 0
        self.m = m

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise SyntaxError('expected %r got %r in %r' % (x, v, ' '.join(self.t)))

    # ---- types
    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t == 'float':
            ty = ('f', 32)
        elif t == 'double':
            ty = ('f', 64)
        elif t == 'x86_fp80':
            ty = ('f', 80)
        elif t == 'half':
            ty = ('f', 16)
        elif t == 'ptr':
            ty = ('p',)
        elif t == 'void':
            ty = ('void',)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            ty = (t,)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('a', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                ty = ('s', self.typelist('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('v', n, e)
        elif t == '{':
            ty = ('s', self.typelist('}'), False)
        elif t[0] == '%':
            ty = ('n', unq(t))
        else:
            raise SyntaxError('type %r in %r' % (t, ' '.join(self.t)))
        while True:
            if self.peek() == '(' and ty[0] != 'label':   # function type
                # only consume if this looks like a function type
                self.next()
                depth = 1
                while depth:
                    x = self.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                ty = ('fn', ty)
            elif self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            elif self.peek() == '*':
                self.next()
                ty = ('p',)
            else:
                return ty

    def typelist(self, end):
        r = []
        if self.accept(end):
            return tuple(r)
        while True:
            r.append(self.type())
            if self.accept(end):
                return tuple(r)
            self.expect(',')

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
            elif t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.next()
            elif t.startswith('"') or t.startswith('#'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # ---- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('r', unq(t))
        if c == '@':
            return ('g', unq(t))
        ty = self.m.resolve(ty)
        if t in ('true', 'false'):
            return ('c', 1 if t == 'true' else 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if ty[0] == 'f':
            if t.startswith('0x'):
                if t[2] in 'KLMHR':
                    return ('cf80', t)
                return ('cf', struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0], ty[1])
            return ('cf', float(t), ty[1])
        if ty[0] == 'i' and (c == '-' or c.isdigit()):
            return ('c', int(t) & ((1 << ty[1]) - 1))
        if t.startswith('c"'):
            raw = t[2:-1]
            out = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    out.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(raw[i]))
                    i += 1
            return ('str', bytes(out))
        if t == 'c' and self.peek().startswith('"'):
            return self.value_str()
        if t in ('[', '{') or t == '<':
            if t == '<' and self.peek() == '{':
                self.next()
                r = self.elems('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.elems({'[': ']', '{': '}', '<': '>'}[t]))
        if t == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                while self.peek() == 'inrange':
                    self.next()
                at = self.type()
                args.append((at, self.value(at)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', bt, args)
        if t in CASTS:
            self.expect('(')
            a = self.type()
            v = self.value(a)
            self.expect('to')
            b = self.type()
            self.expect(')')
            return ('ce', 'cast', t, a, v, b)
        if t in BINOPS:
            while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                self.next()
            self.expect('(')
            a = self.type(); va = self.value(a); self.expect(',')
            b = self.type(); vb = self.value(b)
            self.expect(')')
            return ('ce', 'bin', t, a, va, vb)
        if t in ('icmp', 'fcmp'):
            pred = self.next()
            self.expect('(')
            a = self.type(); va = self.value(a); self.expect(',')
            b = self.type(); vb = self.value(b)
            self.expect(')')
            return ('ce', t, pred, a, va, vb)
        if t == 'select':
            self.expect('(')
            xs = []
            while True:
                a = self.type()
                xs.append((a, self.value(a)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'select', xs)
        raise SyntaxError('value %r (%s) in %r' % (t, ty, ' '.join(self.t)))

    def elems(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            ty = self.type()
            r.append((ty, self.value(ty)))
            if self.accept(end):
                return r
            self.expect(',')

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'vararg', 'raw', 'parsed', 'entry', 'module')


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (type, init operand or None, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._sz = {}
        lines = text.split('\n')
        i = 0
        gl = []
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[unq(nm)] = rest
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = unq('@' + m.group(1))
                self.decls[nm] = l
            i += 1
        for k, v in list(self.types.items()):
            if isinstance(v, str):
                self.types[k] = P(v, self).type() if v != 'opaque' else ('s', (), False)
        for l in gl:
            self._global(l)

    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
            if isinstance(t, str):
                return P(t, self).type() if t != 'opaque' else ('s', (), False)
        return t

    def _global(self, l):
        # strip comdat / align / section trailers after the initialiser
        p = P(l, self)
        name = unq(p.next())
        p.expect('=')
        ext = False
        while True:
            t = p.peek()
            if t in LINK:
                if t in ('external', 'extern_weak', 'available_externally'):
                    ext = t != 'available_externally'
                p.next()
            elif t == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.skip_paren()
            elif t == 'addrspace':
                p.next(); p.skip_paren()
            else:
                break
        t = p.next()
        if t == 'alias' or t == 'ifunc':
            ty = p.type()
            p.expect(',')
            at = p.type()
            self.aliases[name] = p.value(at)
            return
        const = t == 'constant'
        ty = p.type()
        init = None
        if not ext and p.peek() not in ('', ','):
            init = p.value(ty)
        self.globals[name] = (ty, init, const)

    def _define(self, head, body):
        f = Func()
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        f.name = unq('@' + m.group(1))
        f.module = self
        # return type: parse tokens before the name
        pre = P(head[:m.start()], self)
        pre.next()
        while pre.peek() in LINK or pre.peek() in PARAM_ATTRS or pre.peek() in PARAM_ATTRS_ARG:
            if pre.peek() in PARAM_ATTRS_ARG or pre.peek() in PARAM_ATTRS:
                pre.skip_attrs()
            else:
                pre.next()
        f.ret = pre.type()
        p = P(head[m.end():], self)
        f.params = []
        f.vararg = False
        k = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                ty = p.type()
                byval = None
                st = p.i
                p.skip_attrs()
                seg = p.t[st:p.i]
                if 'byval' in seg:
                    q = P(' '.join(seg[seg.index('byval'):]), self)
                    q.next(); q.expect('(')
                    byval = q.type()
                if p.peek().startswith('%'):
                    nm = unq(p.next())
                else:
                    nm = str(k)
                k += 1
                f.params.append((ty, nm, byval))
                if p.accept(')'):
                    break
                p.expect(',')
        f.raw = body
        f.parsed = False
        self.funcs[f.name] = f

    def parse_body(self, f):
        f.blocks = {}
        cur = None
        nxt = sum(1 for _, nm, _ in f.params if nm.isdigit())
        lines = f.raw
        i = 0
        f.entry = None
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    lab = unq('%' + m.group(1))
                    cur = f.blocks[lab] = []
                    if f.entry is None:
                        f.entry = lab
                    continue
            if cur is None:
                # unnamed entry block: numbered after params
                lab = str(sum(1 for _, nm, _ in f.params if nm.isdigit()))
                cur = f.blocks[lab] = []
                f.entry = lab
            s = l.strip()
            if s.startswith('switch') and not s.endswith(']'):
                while True:
                    l2 = lines[i].strip()
                    i += 1
                    s += ' ' + l2
                    if l2.startswith(']'):
                        break
            elif ' = landingpad' in s or s.startswith('invoke') or ' = invoke' in s:
                while i < len(lines) and lines[i].startswith('          '):
                    s += ' ' + lines[i].strip()
                    i += 1
            # drop metadata
            k = s.find(', !')
            if k >= 0:
                s = s[:k]
            cur.append(self.instr(s))
        f.parsed = True
        f.raw = None

    def instr(self, s):
        p = P(s, self)
        dst = None
        if p.peek().startswith('%') and p.peek(1) == '=':
            dst = unq(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BINOPS:
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF:
                flags.append(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return ('bin', dst, op, self.resolve(ty), a, b, tuple(flags))
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            return ('fneg', dst, self.resolve(ty), p.value(ty))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF or p.peek() == 'samesign':
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return (op, dst, pred, self.resolve(ty), a, b)
        if op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            return ('cast', dst, op, self.resolve(ty), v, self.resolve(p.type()))
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.expect(',')
            _, v = p.tv()
            return ('load', dst, self.resolve(ty), v)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty, v = p.tv()
            p.expect(',')
            _, a = p.tv()
            return ('store', None, self.resolve(ty), v, a)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            _, base = p.tv()
            idx = []
            while p.accept(','):
                idx.append(p.tv())
            return ('gep', dst, bt, base, idx)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type()
            n = None
            while p.accept(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                else:
                    n = p.tv()
            return ('alloca', dst, ty, n)
        if op == 'br':
            if p.accept('label'):
                return ('jmp', None, unq(p.next()))
            ty = p.type()
            c = p.value(ty)
            p.expect(','); p.expect('label')
            a = unq(p.next())
            p.expect(','); p.expect('label')
            b = unq(p.next())
            return ('br', None, c, a, b)
        if op == 'switch':
            ty, v = p.tv()
            p.expect(','); p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(','); p.expect('label')
                cases.append((cv[1], unq(p.next())))
            return ('switch', None, self.resolve(ty), v, d, cases)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc[unq(p.next())] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, self.resolve(ty), inc)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct, c = p.tv()
            p.expect(',')
            ty, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return ('select', dst, self.resolve(ct), c, self.resolve(ty), a, b)
        if op in ('call', 'invoke'):
            while p.peek() in LINK or p.peek() in FMF or p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
                if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
                    p.skip_attrs()
                else:
                    p.next()
            # type (maybe function type with varargs)
            ty = p.type()
            if ty[0] == 'fn':
                ty = ty[1]
            if p.peek() == 'asm':
                return ('asm', dst, s)
            callee = p.value(('p',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    st = p.i
                    p.skip_attrs()
                    seg = p.t[st:p.i]
                    byval = None
                    if 'byval' in seg:
                        q = P(' '.join(seg[seg.index('byval'):]), self)
                        q.next(); q.expect('(')
                        byval = q.type()
                    if at == ('metadata',):
                        while p.peek() not in (',', ')'):
                            p.next()
                        args.append((at, ('undef',), None))
                    else:
                        args.append((self.resolve(at), p.value(at), byval))
                    if p.accept(')'):
                        break
                    p.expect(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label')
                norm = unq(p.next())
                p.expect('unwind'); p.expect('label')
                unw = unq(p.next())
            return ('call', dst, self.resolve(ty), callee, args, norm, unw)
        if op == 'ret':
            ty = p.type()
            if ty == ('void',):
                return ('ret', None, None, None)
            return ('ret', None, self.resolve(ty), p.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'extractvalue':
            ty, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, self.resolve(ty), v, idx)
        if op == 'insertvalue':
            ty, v = p.tv()
            p.expect(',')
            et, ev = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, self.resolve(ty), v, self.resolve(et), ev, idx)
        if op == 'extractelement':
            ty, v = p.tv(); p.expect(',')
            it, iv = p.tv()
            return ('extractelement', dst, self.resolve(ty), v, it, iv)
        if op == 'insertelement':
            ty, v = p.tv(); p.expect(',')
            et, ev = p.tv(); p.expect(',')
            it, iv = p.tv()
            return ('insertelement', dst, self.resolve(ty), v, self.resolve(et), ev, it, iv)
        if op == 'shufflevector':
            ty, a = p.tv(); p.expect(',')
            _, b = p.tv(); p.expect(',')
            mt, mv = p.tv()
            mt = self.resolve(mt)
            if mv == ('zero',):
                mask = [0] * mt[1]
            elif mv == ('undef',):
                mask = [None] * mt[1]
            else:
                mask = [None if x[1] == ('undef',) else x[1][1] for x in mv[1]]
            return ('shufflevector', dst, self.resolve(ty), a, b, mask)
        if op == 'freeze':
            ty, v = p.tv()
            return ('freeze', dst, self.resolve(ty), v)
        if op in ('landingpad',):
            return ('landingpad', dst, s)
        if op == 'resume':
            return ('resume', None)
        if op in ('atomicrmw',):
            while p.peek() == 'volatile':
                p.next()
            rop = p.next()
            _, a = p.tv(); p.expect(',')
            ty, v = p.tv()
            return ('atomicrmw', dst, rop, self.resolve(ty), a, v)
        if op == 'cmpxchg':
            while p.peek() in ('volatile', 'weak'):
                p.next()
            _, a = p.tv(); p.expect(',')
            ty, c = p.tv(); p.expect(',')
            _, v = p.tv()
            return ('cmpxchg', dst, self.resolve(ty), a, c, v)
        if op == 'fence':
            return ('nop', None)
        if op == 'va_arg':
            return ('unsupported', dst, s)
        return ('unsupported', dst, s)

    # ---- layout
    def size(self, t):
        t = self.resolve(t)
        k = self._sz.get(t)
        if k is not None:
            return k
        x = t[0]
        if x == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            r = (n + a - 1) // a * a
        elif x == 'f':
            r = {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        elif x == 'p':
            r = 8
        elif x == 'a':
            r = t[1] * self.size(t[2])
        elif x == 'v':
            r = t[1] * self.size(t[2])
            r = 1 << (r - 1).bit_length() if r else 0
        elif x == 's':
            r = self.offsets(t)[1]
        else:
            raise TypeError(t)
        self._sz[t] = r
        return r

    def align(self, t):
        t = self.resolve(t)
        x = t[0]
        if x == 'i':
            n = (t[1] + 7) // 8
            return min(16, 1 << (n - 1).bit_length()) if n else 1
        if x == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if x == 'p':
            return 8
        if x == 'a':
            return self.align(t[2])
        if x == 'v':
            return self.size(t)
        if x == 's':
            if t[2]:
                return 1
            return max([1] + [self.align(e) for e in t[1]])
        raise TypeError(t)

    def offsets(self, t):
        """(list of field offsets, total size) of a struct type"""
        key = ('off', t)
        k = self._sz.get(key)
        if k:
            return k
        o = 0
        offs = []
        for e in t[1]:
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        if not t[2]:
            a = self.align(t)
            o = (o + a - 1) // a * a
        self._sz[key] = (offs, o)
        return offs, o
